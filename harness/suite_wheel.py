"""Wheel and index commands on a scratch file system (spec: Wheel, TraceWheel)."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import json
import os
import random
import re
import shutil
import signal
import sys
import zipfile
from pathlib import Path

import provgen
from suite_meta import D, LABELS, NSS, FEATS, VALS, S, _shuffle, _some, _tweak, gen_common, gen_desc, gen_doc, mutate, strs, tag, untag, wrap

TRACE = "TraceWheel"
MODEL_CAP = {"quick": 900, "thorough": 6000}
MODEL_CAP.update({("C19", "quick"): 1200, ("C32", "quick"): 220, ("C32", "thorough"): 3000})
CANARY_RATE = .8

# ------------------------------------------------------------------ generation
NAMES = ["pkg-1.0", "foo_bar-2.0.1", "A.b-1.0+l.1", "pkg-1.0.1", "pkg-2"]
ALIKE = [["pkg-1.0", "pkg-1.0.0", "pkg-1"], ["pkg-1.0", "Pkg-1.0", "pkg_-1.0"], ["foo_bar-1.0", "foo.bar-1.0", "foo-1.0"],
         ["pkg-1.0", "pkg-1.0.1", "pkg-1.0.dev1", "pkg-1.0+l"]]
TAGS = ["py3-none-any", "cp312-cp312-linux_x86_64", "py2.py3-none-any", "1-py3-none-any", "2b-py3-none-any", "0-cp312-abi3-win32"]
WLABELS = ["x", "x.1", "0a", "_", "abcdefghijklmnop", "v2"]
BADLABELS = ["A", "", "a b", "abcdefghijklmnopq", "a\n", "a-b", "null", "é"]


def dist(name):
    n, v = name.split("-")[:2]
    return f"{n}-{v}.dist-info"


def _big(r):
    """Whether this scenario is one of the few of unusual size."""
    return bool(getattr(r, "big", 0))


def _bytes(r):
    """Contents that are not text, or not with the line ends of this system."""
    k = r.randrange(4)
    if k == 0:
        return "".join(chr(r.randrange(256)) for _ in range(r.choice([1, 3, 200])))
    if k == 1:
        return "".join(r.choice(["a", "\r\n", "\n", "\r", "\x1a", "\x00"]) for _ in range(40))
    if k == 2:
        return r.choice(["\xef\xbb\xbfa", "PK\x03\x04", "\xff\xfe", "\x7fELF\x02"]) + "abc" * r.choice([1, 50])
    return "a,b\r\n\"" * 9


def _text(r):
    return "".join(r.choice("abcdef \n") for _ in range(r.choice([0, 5, 60, 300, 1200])))


EXTRA = ["pkg/__init__.py", "pkg/sub/mod.py", "pkg-1.0.data/scripts/run", "pkg/vendored-1.0.dist-info/RECORD",
         "pkg/vendored-1.0.dist-info/variant.json", "pkg/a,b.py", 'pkg/q"t.py', "pkg/ünï.py", "pkg/", "variant.json", "RECORD", "pkg/with space.txt",
         "{d}/METADATA", "{d}/WHEEL", "{d}/licenses/variant.json", "{d}/variant.json.bak", "{d}/licenses/RECORD", "{d}/entry_points.txt",
         "{d}/variant.json,v", "{d}/old-variant.json", "{d}/Variant.json", "{d}/variant.json/x", "{d}/RECORD/x", "{d}/RECORD.jws", "x/{d}/RECORD", "{d}x/RECORD"]


def gen_wheel(r, name, *, stale=None, meta=None):
    """members of a wheel; meta: text of a variant.json to include"""
    d = dist(name)
    names = [e.format(d=d) for e in r.sample(EXTRA, r.randint(1, 9))]
    if _big(r) and r.random() < .5:
        names += [f"pkg/many/{i}/mod_{'x' * (i % 7) * 30}{i}.py" for i in range(r.choice([30, 110, 300]))]
        r.shuffle(names)
    mem = []
    for n in names:
        m = {"n": n, "mode": r.choice([0o644, 0o755, 0o600, 0, 0o4755, 0o444]), "c": "" if n.endswith("/") else _text(r),
             "z": r.choice([0, 8]) if r.random() < .95 else r.choice([12, 14])}
        if not n.endswith("/") and r.random() < .25:
            m.update(c=_bytes(r), enc="latin-1")
            if r.random() < .1:
                m["link"] = True
            if _big(r) and r.random() < .3:
                m["rep"] = r.choice([65536, 66000, 300000, 1100000]) // max(1, len(m["c"])) + 1
        mem.append(m)
    mpath = f"{d}/variant.json"
    rows = []
    for m in mem:
        if m["n"].endswith("/"):
            continue
        buf = io.StringIO()
        csv.writer(buf, lineterminator="", quoting=r.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL])).writerow(
            [m["n"], f"sha256={len(m['c'])}" if r.random() < .8 else "", str(len(m["c"].encode())) if r.random() < .8 else ""])
        rows.append(buf.getvalue())
    if meta is None and stale is None:
        stale = r.random() < .15
    if stale:
        meta = r.choice(["{}", "not json", json.dumps(untag(gen_doc(r, "dist")))])
    if meta is not None:
        m = {"n": mpath, "mode": 0o644, "c": meta, "z": r.choice([0, 8])}
        mem.insert(r.randint(0, len(mem)), m)
    if (meta is not None and r.random() < .8) or r.random() < .05:
        row = f"{mpath},sha256=x,1"
        if r.random() < .3:
            row = f'"{mpath}","sha256=x","1"'
        rows.insert(r.randint(0, len(rows)), row)
    r.shuffle(rows)
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    if r.random() < .15:
        rows.insert(r.randint(0, len(rows)), "")
    rows.append(f"{d}/RECORD,,")
    rec = eol.join(rows) + (eol if r.random() < .8 else "")
    pos = len(mem) if r.random() < .7 else r.randint(0, len(mem))
    mem.insert(pos, {"n": f"{d}/RECORD", "mode": r.choice([0o644, 0o664]), "c": rec, "z": r.choice([0, 8])})
    return mem


DAMAGE = ["flip", "truncate", "notzip", "empty", "encrypted", "method"]


def wheel(r, name, damage=0.0, **kw):
    spec = {"w": gen_wheel(r, name, **kw)}
    if r.random() < damage:
        spec["damage"] = r.choice(DAMAGE)
        spec["at"] = r.random()
    return spec


def metadata(r, body, desc=None, label=None):
    """text of a variant.json with this common part"""
    lab = label if label is not None else r.choice(WLABELS)
    vd = D([]) if lab == "null" else (desc if desc is not None else gen_desc(r))
    return D([*body, ("variants", D([(lab, vd)]))])


def good_props(r, body):
    """properties, mostly of statically provided namespaces"""
    static = dict(dict(body).get("static-properties", D([]))[1])
    props = []
    for n, t in static.items():
        for f, vs in t[1]:
            for v in vs[1]:
                props.append([n, f, v[1]])
    out = _some(r, props, 1, 3) if props and r.random() < .8 else []
    if not out or r.random() < .2:
        out = out + [[r.choice(NSS + ["zz"]), r.choice(FEATS), r.choice(VALS)] for _ in range(r.choice([1, 1, 2, 3]))]
    uniq = []
    for p in out:
        if p not in uniq or r.random() < .03:
            uniq.append(p)
    return uniq


NOFAULT = {"kind": "none"}


def gen_fault(r):
    x = r.random()
    if x < .35:
        return {"kind": "fsize", "at": r.random(), "kill": False}
    if x < .6:
        return {"kind": "fsize", "at": r.random(), "kill": True}
    if x < .75:
        return {"kind": "hook", "n": r.randrange(6), "act": "oserror"}
    if x < .85:
        return {"kind": "hook", "n": r.randrange(6), "act": "interrupt"}
    return {"kind": "hook", "n": r.randrange(7), "act": "kill"}


def make_op(r, body, file, outdir, fault=NOFAULT, plain=False, same_label=None):
    used_aot = {n for n, e in dict(body).get("providers", D([]))[1]
                if any(k == "install-time" and v[1] is False for k, v in e[1]) and any(k == "requires" for k, v in e[1])}
    with_plugin = {n for n, e in dict(body).get("providers", D([]))[1] if any(k == "requires" for k, v in e[1])}
    op = {"op": "make", "file": file, "outdir": outdir, "pyp": wrap("pyproject", body, r), "null": r.random() < .15, "props": [], "label": None,
          "skip": r.random() < .6, "badprops": False, "plug": [], "fault": fault, "pre": r.randrange(4)}
    if not op["null"]:
        op["props"] = good_props(r, body)
        if {p[0] for p in op["props"]} & used_aot:
            op["props"] = [p for p in op["props"] if p[0] not in used_aot] or [["zz", "f", "1"]]
        if {p[0] for p in op["props"]} & with_plugin:
            op["skip"] = True
        if r.random() < .5:
            op["label"] = r.choice(WLABELS)
    if same_label:
        op["label"], op["null"] = same_label, False
        op["props"] = op["props"] or [["zz", "f", "1"]]
        op["skip"] = True
    if not plain and r.random() < .12:
        x = r.randrange(5)
        if x == 0:
            op["pyp"] = None
        elif x == 1:
            op["pyp"] = mutate(r, op["pyp"])
            if op["pyp"][0] != "d":
                op["pyp"] = None
        elif x == 2 and not op["null"]:
            op["label"] = r.choice(BADLABELS)
        elif x == 3 and not op["null"]:
            op["badprops"] = True
        elif x == 4:
            op["outdir"] = "missing"
    return op


def s_make(r, sid):
    """Make variants of wheels, of variants, and unmake them."""
    n = r.choice(NAMES)
    base = f"{n}-{r.choice(TAGS)}"
    files = [[f"w/{base}.whl", wheel(r, n, damage=.06)]]
    ops = []
    body = gen_common(r, "pyproject")
    for _ in range(r.choice([1, 2, 3, 4])):
        x = r.random()
        if r.random() < .3:
            body = gen_common(r, "pyproject")
        if x < .55:
            d = r.choice(["o", "o", "w"])
            ops.append(make_op(r, body, {"dir": r.choice(["w", "w", "o"]), "n": r.randrange(5)}, d))
        elif x < .9:
            ops.append({"op": "unmake", "file": {"dir": r.choice(["o", "w", "u"]), "n": r.randrange(6), "variant": r.random() < .8},
                        "outdir": r.choice(["u", "u", "w", "o"]), "fault": NOFAULT})
        else:
            ops.append({"op": "analyze", "file": {"dir": r.choice(["o", "w"]), "n": r.randrange(5)}})
    if r.random() < .1:
        ops.insert(0, {"op": r.choice(["make", "unmake", "analyze"]), **{k: v for k, v in make_op(r, body, {"path": r.choice(
            ["w/nonexistent-1.0-py3-none-any.whl", "w", "w/nonexistent-1.0-py3-none-any-x.whl"])}, "o").items() if k != "op"}})
    if r.random() < .1:
        bad = r.choice(["pkg.whl", "pkg-1.0-py3-none-any.zip", "pkg-1.0-none-any.whl", "pkg-1.0-py3-none-any-X.whl", "pkg-1.0-b1-py3-none-any-x.whl"])
        files.append([f"b/{bad}", wheel(r, n)])
        ops.append({**make_op(r, body, {"path": f"b/{bad}"}, "o"), "op": r.choice(["make", "unmake", "analyze"])})
    if r.random() < .15:         # something is at the output path already
        files.append([f"o/{base}-{r.choice(WLABELS)}.whl", r.choice([{"raw": "old"}, {"link": f"../w/{base}.whl"}, {"hard": f"w/{base}.whl"}])])
    return {"id": sid, "files": files, "ops": ops}


def s_undo(r, sid):
    """Unmaking undoes any chain of making."""
    n = r.choice(NAMES)
    base = f"{n}-{r.choice(TAGS)}"
    files = [[f"w/{base}.whl", wheel(r, n, stale=False)]]
    ops = [make_op(r, gen_common(r, "pyproject"), {"path": f"w/{base}.whl"}, "o", plain=True)]
    for _ in range(r.choice([0, 0, 1, 2])):
        d = r.choice(["o", "o2"])
        ops.append(make_op(r, gen_common(r, "pyproject"), {"dir": r.choice(["o", d]), "n": r.randrange(4)}, d, plain=True))
    ops.append({"op": "unmake", "file": {"dir": r.choice(["o", "o", "o2"]), "n": r.randrange(4), "variant": True}, "outdir": r.choice(["u", "u", "w"]),
                "fault": NOFAULT})
    if r.random() < .3:
        ops.append({"op": "unmake", "file": {"dir": r.choice(["u", "w"]), "n": 0}, "outdir": r.choice(["u", "o"]), "fault": NOFAULT})
    if r.random() < .3:
        ops.append(make_op(r, gen_common(r, "pyproject"), {"dir": "u", "n": 0}, "o", plain=True))
        ops.append({"op": "unmake", "file": {"dir": "o", "n": r.randrange(4), "variant": True}, "outdir": "u", "fault": NOFAULT})
    return {"id": sid, "files": files, "ops": ops}


def family(r):
    """common parts: one, and slight modifications of it"""
    body = gen_common(r, "dist")
    alts = []
    for _ in range(2):
        b = D(_tweak(r, body)) if r.random() < .5 else mutate(r, D(body))
        if b[0] == "d":
            alts.append([p for p in b[1] if p[0] != "variants"])
    return body, alts


def index_files(r, d="d", count=None, junk=.5, dev=.25):
    """a directory of variant wheels of a few projects"""
    files = []
    projects = _some(r, NAMES, 1, 3) if r.random() < .75 else _some(r, r.choice(ALIKE), 2, 3)
    fams = {p: family(r) for p in projects}
    descs = {}
    many = _big(r) and count != 3
    if many:
        projects = projects[:r.choice([1, 1, 3])]
    for k in range(count or r.choice([10, 18, 40]) if many else count or r.choice([1, 2, 3, 4, 5])):
        p = r.choice(projects)
        body, alts = fams[p]
        b = r.choice(alts) if alts and r.random() < dev else body
        lab = f"{r.choice(['l', 'l.', '_'])}{k}" if many and r.random() < .7 else r.choice(WLABELS + ["null"])
        if (p, lab) not in descs or r.random() < dev / 2:
            descs[p, lab] = gen_desc(r)
        doc = metadata(r, b, desc=descs[p, lab], label=lab)
        flab = r.choice(WLABELS + ["null"]) if r.random() < dev / 3 else lab
        x = r.random()
        if x < dev / 3:
            doc = mutate(r, doc)
        if r.random() < .4:
            doc = _shuffle(r, doc)
        text = json.dumps(untag(doc))
        if dev and r.random() < .04:
            text = r.choice(["", "null", "[]", "not json", "{}", "\ufeff" + text, "[" * 5000])
        kw = {"meta": text} if r.random() > dev / 5 else {"stale": False}
        files.append([f"{d}/{p}-{r.choice(TAGS)}-{flab}.whl", wheel(r, p, damage=dev / 4, **kw)])
    if r.random() < junk:
        files.append([f"{d}/{r.choice(['README', 'x.whl', 'notes.json', '.hidden.whl', 'pkg-1.0-py3-none-any.whl.tmp'])}", {"raw": "junk"}])
    if r.random() < junk:
        p = r.choice(projects)
        files.append([f"{d}/{p}-{r.choice(TAGS)}.whl", wheel(r, p, meta=json.dumps(untag(metadata(r, fams[p][0]))) if r.random() < .5 else None)])
    if r.random() < junk / 2:
        p = r.choice(projects)
        files.append([f"{d}/sub/{p}-{r.choice(TAGS)}-x.whl", wheel(r, p, meta=json.dumps(untag(metadata(r, fams[p][0], label="x"))))])
    seen, out = set(), []
    for f in files:
        if f[0] not in seen:
            seen.add(f[0])
            out.append(f)
    r.shuffle(out)
    return out, projects, fams


def s_index(r, sid):
    files, projects, fams = index_files(r)
    if r.random() < .3:
        p = r.choice(projects)
        files.append([f"d/{p}-variants.json", r.choice([{"raw": "old"}, {"doc": gen_doc(r, "index")}])])
    ops = [{"op": "generate", "dir": "d", "fault": NOFAULT}]
    for _ in range(r.choice([0, 1, 1, 2])):
        x = r.random()
        if x < .4:
            ops.append({"op": "generate", "dir": "d", "fault": NOFAULT})
        elif x < .6:
            ops.append({"op": "put", "path": {"dir": "d", "n": r.randrange(6)}, "spec": None})
            ops.append({"op": "generate", "dir": "d", "fault": NOFAULT})
        elif x < .8:
            ops.append(make_op(r, gen_common(r, "pyproject"), {"dir": "d", "n": r.randrange(6)}, "d"))
            ops.append({"op": "generate", "dir": "d", "fault": NOFAULT})
        else:
            ops.append({"op": "analyze", "file": {"dir": "d", "n": r.randrange(6)}})
    if r.random() < .05:
        ops.append({"op": "generate", "dir": r.choice(["missing", files[0][0]]), "fault": NOFAULT})
    return {"id": sid, "files": files, "ops": ops}


def s_add(r, sid):
    """Add the wheels one at a time, in any order, and compare with generating."""
    files, projects, fams = index_files(r, junk=.2, dev=r.choice([0, 0, .25]), count=r.choice([8, 11]) if _big(r) else None)
    ops = []
    wheels = [f for f, _ in files if f.endswith(".whl") and f.count("/") == 1]
    r.shuffle(wheels)
    for w in wheels:
        x = r.random()
        ops.append({"op": "add", "file": {"path": w}, "index": "own", "outdir": "i", "over": True, "fault": NOFAULT})
        if x < .15:
            ops[-1]["over"] = False
        elif x < .25:
            ops[-1]["index"] = None
        elif x < .32:
            ops[-1]["outdir"] = r.choice(["j", "d", "missing"])
        elif x < .45:
            ops.append(dict(ops[-1]))
        elif x < .5:
            ops[-1]["index"] = r.choice(["missing.json", "bad.json", "other.json"])
    if r.random() < .6:
        ops.append({"op": "generate", "dir": "d", "fault": NOFAULT})
        if r.random() < .3:
            ops.append({"op": "add", "file": {"dir": "d", "n": r.randrange(5)}, "index": "d", "outdir": "d", "over": True, "fault": NOFAULT})
    files.append(["bad.json", r.choice([{"raw": "{"}, {"raw": ""}, {"raw": "[]"}, {"doc": mutate(r, gen_doc(r, "index"))}])])
    files.append(["other.json", {"doc": wrap("index", [*fams[projects[0]][0], ("variants", D([("q", gen_desc(r))]))], r)}])
    return {"id": sid, "files": files, "ops": ops}


def s_analyze(r, sid):
    files, projects, fams = index_files(r, count=3, dev=.5)
    ops = [{"op": "analyze", "file": {"path": f}} for f, _ in files if f.endswith(".whl")]
    ops.append({"op": "analyze", "file": {"path": r.choice(["d/nonexistent-1.0-py3-none-any-x.whl", "d/notes.json", "d/README", "d/x.whl"])}})
    return {"id": sid, "files": files, "ops": ops}


def s_fault(r, sid):
    x = r.random()
    if x < .45:
        n = r.choice(NAMES)
        base = f"{n}-{r.choice(TAGS)}"
        files = [[f"w/{base}.whl", wheel(r, n)]]
        lab = r.choice(WLABELS)
        body = gen_common(r, "pyproject")
        ops = []
        if r.random() < .3:      # overwrite an existing variant, or the input itself
            ops.append(make_op(r, body, {"path": f"w/{base}.whl"}, "w", plain=True, same_label=lab))
            ops.append(make_op(r, body, {"path": f"w/{base}-{lab}.whl"}, "w", plain=True, same_label=lab, fault=gen_fault(r)))
        else:
            if r.random() < .4:
                files.append([f"o/{base}-{lab}.whl", r.choice([{"raw": "old"}, {"link": f"../w/{base}.whl"}, {"hard": f"w/{base}.whl"}])])
            ops.append(make_op(r, body, {"path": f"w/{base}.whl"}, "o", plain=True, same_label=lab, fault=gen_fault(r)))
        ops.append(make_op(r, body, {"path": f"w/{base}.whl"}, r.choice(["o", "w"]), plain=True, same_label=lab,
                           fault=gen_fault(r) if r.random() < .3 else NOFAULT))
        if r.random() < .7:
            ops.append({"op": "unmake", "file": {"dir": "o", "n": 0, "variant": True}, "outdir": r.choice(["u", "w", "o"]),
                        "fault": gen_fault(r)})
            ops.append({"op": "unmake", "file": {"dir": "o", "n": 0, "variant": True}, "outdir": r.choice(["u", "w", "o"]), "fault": NOFAULT})
        return {"id": sid, "files": files, "ops": ops}
    s = s_index(r, sid) if x < .75 else s_add(r, sid)
    k = [i for i, o in enumerate(s["ops"]) if o["op"] in ("generate", "add")]
    for i in r.sample(k, min(len(k), r.choice([1, 1, 2]))):
        s["ops"][i] = dict(s["ops"][i], fault=gen_fault(r))
    s["ops"] += [dict(s["ops"][i], fault=NOFAULT) for i in k[-1:]]
    return s


def s_plug(r, sid):
    """make-variant with provider plugins"""
    n = r.choice(NAMES)
    base = f"{n}-{r.choice(TAGS)}"
    body, plugs, static = provgen.project(r, "_".join(map(str, sid)).replace("-", ""), bad=r.choice([0, 0, .15]),
                                          kinds=("install", "static", "aot", "aot", "optional", "aotopt"))
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        op = make_op(r, body, {"path": f"w/{base}.whl"}, "o", plain=True)
        op["null"] = False
        op["props"] = provgen.desc(r, plugs, static)
        op["skip"] = r.random() < .3
        op["plug"] = [[p.ns, p.key, p.data, p.spec] for p in plugs]
        ops.append(op)
    ops.append({"op": "analyze", "file": {"dir": "o", "n": 0}})
    return {"id": sid, "files": [[f"w/{base}.whl", wheel(r, n)]], "ops": ops}


def s_iso(r, sid):
    """make-variant in environments of its own"""
    n = r.choice(NAMES)
    base = f"{n}-{r.choice(TAGS)}"
    key = "_".join(map(str, sid)).replace("-", "")
    ops = []
    for k in range(r.choice([1, 1, 1, 2, 2, 3])):
        if not ops or r.random() < .5:
            body, plugs, static = provgen.project(r, f"{key}_{k}", bad=r.choice([0, 0, .15]),
                                                  kinds=("install", "install", "static", "aot", "aot", "optional", "aotopt"))
            needs = {}
            for ns, e in dict(body)["providers"][1]:
                mine = [p for p in plugs if p.ns == ns]
                for q in e[1]:
                    if q[0] == "requires":
                        reqs = [v[1] for v in q[1][1]]
                        if reqs == ["some-req"]:
                            reqs = [r.choice(["dist-{}", "Dist.{} >=1", "dist-{}[x] ==1.0"]).format(mine[0].key if mine else ns)]
                            reqs += ["common"] if r.random() < .3 else []
                            # requirements that are called like namespaces
                            reqs += [r.choice([q.ns for q in plugs] + [ns, "a", "b"])] if r.random() < .4 else []
                            q[1] = strs(reqs)
                        for p in mine:
                            needs[p.key] = reqs
            pl = []
            for p in plugs:
                x = r.random()
                if x < .35:
                    data, spec = None, {**p.spec, "loads": False}
                elif x < .6:
                    data, spec = p.data, p.spec
                else:
                    o = provgen.Plug(r, p.ns, p.key, p.aot, bad=r.choice([0, .1]))
                    data, spec = o.data, o.spec
                pl.append([p.ns, p.key, {"interps": {"d": data, "env": p.data}}, spec, p.spec, needs.get(p.key, [])])
        op = make_op(r, body, {"path": f"w/{base}.whl"}, r.choice(["o", "o2"]), plain=r.random() < .9)
        op["null"] = r.random() < .06
        op["props"] = [] if op["null"] else provgen.desc(r, plugs, static)
        op["label"] = None if op["null"] else op["label"]
        op["skip"] = r.random() < .12
        op["plug"] = pl
        x = r.random()
        op["iso"] = None if x < .1 else {"installer": r.choice(["", "", "", "pip", "uv"]), "fail": "create" if x < .14 else "install" if x < .2 else ""}
        ops.append(op)
    ops.append({"op": "analyze", "file": {"dir": "o", "n": 0}})
    return {"id": sid, "files": [[f"w/{base}.whl", wheel(r, n)]], "ops": ops}


KINDS = {"C32": [(s_iso, 200)], "C17": [(s_make, 420), (s_plug, 60)], "C18": [(s_undo, 380), (s_make, 60)], "C19": [(s_fault, 420)], "C20": [(s_index, 380)],
         "C21": [(s_add, 380)], "C31": [(s_analyze, 250), (s_make, 60)], "C27": [(s_plug, 110)], "C26": [(s_plug, 40)]}


def generate(prop, seed, tier):
    out = []
    for f, n in KINDS[prop]:
        n = n if tier == "quick" else n * (3 if f in (s_plug, s_iso) else 8)
        for i in range(n):
            r = random.Random(f"{seed}/wheel/{prop}/{f.__name__}/{i}")
            r.big = 60 * (i % 20 == 7)
            sc = f(r, [f.__name__[2:], i])
            if any("link" in spec for _, spec in sc["files"]):   # what the link points to stays as it is
                for op in sc["ops"]:
                    if op.get("outdir") == "w":
                        op["outdir"] = "u"
            out.append(sc)
    return out


# ------------------------------------------------------------ model behaviours
BASE = {"P": "pkg-1.0-py3-none-any", "Q": "pkg-1.0-py3-none-win32"}
MBODY = [("default-priorities", D([("namespace", strs(["a"]))])), ("providers", D([("a", D([("requires", strs(["p"]))]))]))]
FAULT = {"kill-write": {"kind": "fsize", "at": .03, "kill": True}, "fail-write": {"kind": "fsize", "at": .03, "kill": False},
         "kill-rename": {"kind": "hook", "n": 0, "act": "kill", "ev": "os.rename"},
         "fail-rename": {"kind": "hook", "n": 0, "act": "oserror", "ev": "os.rename"}, "done": NOFAULT}


def _mpath(p):
    if p[2] == "index":
        return f"{p[0]}/pkg-1.0-variants.json"
    return f"{p[0]}/{BASE[p[1]]}{'-' + p[2] if p[2] else ''}.whl"


def _mvar(m):
    return ("null", D([])) if m == "null" else (m[0], D([("a", D([("f", strs([m[1]]))]))]))


IPROPS = {n: [n, "f", "1"] for n in "ibsu"}


def from_isolate(items):
    out = []
    for i, it in enumerate(items):
        r = random.Random(i)
        ops = []
        for k, h in enumerate(it["hist"]):
            c = h["run"]
            key = {n: f"im{i}_{k}_{n}" for n in "ib"}
            body = [("default-priorities", D([("namespace", strs(r.sample(["i", "b", "s"], 3)))])),
                    ("providers", D([("i", D([("requires", strs(["req-i"])), ("plugin-api", S("vplug_fake:" + key["i"]))])),
                                     ("b", D([("requires", strs(["req-b"])), ("install-time", ["b", False]), ("plugin-api", S("vplug_fake:" + key["b"]))])),
                                     ("s", D([("install-time", ["b", False])]))])),
                    ("static-properties", D([("s", D([("f", strs(["1"]))]))]))]

            def beh(how, n):
                fs = {"good": ["1"], "other": ["3", "1"], "refuse": ["2"], "dead": []}[how]
                a = {"ok": True, "v": [["f", fs, False]]}
                spec = {"loads": how != "dead", "aot": n == "b", "all": a, "sup": a}
                data = {"namespace": n, "get_all_configs": a["v"], "get_supported_configs": a["v"], **({"is_aot_plugin": True} if n == "b" else {})}
                return (None if how == "dead" else data), spec
            pl = []
            for n in "ib":
                (hd, hs), (ed, es) = beh(c["host"], n), beh(c["inside"], n)
                pl.append([n, key[n], {"interps": {"d": hd, "env": ed}}, hs, es, ["req-" + n]])
            ops.append({"op": "make", "file": {"path": "w/" + BASE["P"] + ".whl"}, "outdir": ["o", "o2", "u"][k], "pyp": D([("variant", D(body))]),
                        "null": c["null"], "props": [] if c["null"] else [IPROPS[n] for n in c["use"]], "label": None, "skip": c["skip"], "badprops": False,
                        "plug": pl, "fault": NOFAULT, "pre": r.randrange(4), "watch": True,
                        "iso": {"installer": r.choice(["", "pip", "uv"]), "fail": c["fail"]} if c["iso"] else None})
        out.append({"id": ["isolate", i], "files": [["w/" + BASE["P"] + ".whl", {"w": gen_wheel(r, "pkg-1.0", stale=False)}]], "ops": ops, "hist": it["hist"]})
    return out


def agrees_isolate(s, m):
    for e, h in zip(m["ev"], s["hist"], strict=True):
        log = [x for x in h["log"] if x[0] != "ask"]
        got = [x for x in e["out"]["env"] if x != ["install", []]]
        want = [["install", sorted("req-" + n for n in x[1])] if x[0] == "install" else [x[0], None] for x in log if x != ["install", []]]
        if e["out"]["ok"] != h["ok"] or [[x[0], x[1] if x[0] == "install" else None] for x in got] != want:
            return False
        if e["out"]["places"] != sorted({{"host": "d"}.get(x[2], x[2]) for x in h["log"] if x[0] == "ask" and _answers(h["run"], x[2])}):
            return False
    return True


def _answers(run, place):
    return run["inside" if place == "env" else "host"] != "dead"


def from_model(items):
    if items and "run" in items[0]["hist"][0]:
        return from_isolate(items)
    r = random.Random(0)
    plain = {"P": {"w": gen_wheel(r, "pkg-1.0", stale=False)}, "Q": {"w": gen_wheel(r, "pkg-1.0", stale=False)}}
    made = {}
    for b, m in (("P", "x1"), ("Q", "x2"), ("Q", "y1")):
        made[b, m] = {"w": gen_wheel(r, "pkg-1.0", meta=json.dumps(untag(D([*MBODY, ("variants", D([_mvar(m)]))]))))}
    starts = {1: [["w/" + BASE["P"] + ".whl", plain["P"]]]}
    starts[2] = starts[1] + [[_mpath(["o", b, m[0]]), w] for (b, m), w in made.items()]
    out = []
    for i, it in enumerate(items):
        ops = []
        for h in it["hist"]:
            o, fault = h["op"], FAULT[h["end"]]
            op = {"op": o["what"], "fault": fault}
            if "src" in o:
                op["file"] = {"path": _mpath(o["src"])}
            if o["what"] == "make":
                lab, _ = _mvar(o["meta"])
                null = o["meta"] == "null"
                op.update(outdir=o["dir"], pyp=D([("variant", D(MBODY))]), null=null, props=[] if null else [["a", "f", o["meta"][1]]],
                          label=None if null else lab, skip=True, badprops=False, plug=[])
            elif o["what"] == "unmake":
                op["outdir"] = o["dir"]
            elif o["what"] == "generate":
                op["dir"] = o["dir"]
            else:
                op.update(index="present", outdir="o", over=True)
            ops.append(op)
        out.append({"id": ["model", i], "files": starts[it["start"]], "ops": ops,
                    "want": {"ok": [h["ok"] for h in it["hist"]],
                             "disk": sorted([_mpath(p), sorted(c["m"]) if c["k"] == "idx" else c["m"]] for p, c in it["disk"]),
                             "temps": it["temps"]}})
    return out


def agrees(s, m):
    if s["id"][0] == "isolate":
        return agrees_isolate(s, m)
    w = s["want"]
    if [e["out"]["ok"] for e in m["ev"]] != w["ok"]:
        return False
    last = m["ev"][-1]
    blobs = dict(map(tuple, last["blobs"]))
    disk, temps = [], 0
    for p, i in last["post"]:
        if i == "dir":
            continue
        if "/." in p:
            temps += 1
            continue
        c = blobs[i]
        if c["t"] == "json":
            got = sorted(_mname(k, v) for k, v in untag(c["doc"]).get("variants", {}).items())
        elif c["t"] == "wheel":
            ms = [_mname(k, v) for x in c["mem"] if x["k"] == "meta" for k, v in untag(x["doc"])["variants"].items()]
            got = ms[0] if len(ms) == 1 else "" if not ms else "several"
        else:
            got = "raw"
        disk.append([p, got])
    return sorted(disk) == w["disk"] and temps == w["temps"]


def _mname(k, v):
    return "null" if not v else k + v["a"]["f"][0]


# ------------------------------------------------------------------ execution
def setup():
    import logging
    logging.disable(logging.CRITICAL)


def build(spec, root, path):
    p = root / path
    p.parent.mkdir(parents=True, exist_ok=True)
    if "raw" in spec:
        p.write_text(spec["raw"])
    elif "doc" in spec:
        p.write_text(json.dumps(untag(spec["doc"])))
    elif "link" in spec:
        p.symlink_to(spec["link"])
    elif "hard" in spec:
        os.link(root / spec["hard"], p)
    else:
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as z:
            for k, m in enumerate(spec["w"]):
                zi = zipfile.ZipInfo(m["n"], (2020, 1, 1 + k % 28, 1, 2, 4))
                zi.external_attr = (m["mode"] | (0o040000 if m["n"].endswith("/") else 0o120000 if m.get("link") else 0o100000)) << 16 if m["mode"] else 0
                zi.compress_type = m["z"]
                z.writestr(zi, m["c"].encode(m.get("enc", "utf-8")) * m.get("rep", 1))
        b = bytearray(buf.getvalue())
        how = spec.get("damage")
        if how in ("flip", "encrypted", "method"):
            with zipfile.ZipFile(io.BytesIO(bytes(b))) as z:
                infos = z.infolist()
                zi = infos[int(spec["at"] * len(infos))]
                if how == "flip" and zi.file_size:
                    b[zi.header_offset + 30 + len(zi.orig_filename.encode()) + zi.compress_size // 2] ^= 0x55
                else:       # in the central directory entry
                    at = z.start_dir
                    for i in infos:
                        if i is zi:
                            break
                        at += 46 + len(i.orig_filename.encode()) + len(i.extra) + len(i.comment)
                    lo = zi.header_offset
                    if how == "encrypted":
                        b[at + 8] |= 1
                        b[lo + 6] |= 1
                    elif how == "method":
                        b[at + 10:at + 12] = b"\x63\x00"
                        b[lo + 8:lo + 10] = b"\x63\x00"
        elif how == "truncate":
            b = b[:int(spec["at"] * len(b))]
        elif how == "notzip":
            b = bytearray(b"hello")
        elif how == "empty":
            b = bytearray()
        p.write_bytes(bytes(b))


def esc(b: bytes) -> str:
    return b.decode("utf-8", "backslashreplace").encode("unicode_escape").decode()


_cache: dict = {}


def content(data: bytes, name: str):
    if name.endswith(".json"):
        try:
            t = json.loads(data)
            return {"t": "json", "doc": tag(t)}
        except (ValueError, RecursionError):
            return {"t": "raw"}
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
    except Exception:  # noqa: BLE001
        return {"t": "raw"}
    mem = []
    for zi in z.infolist():
        n = zi.filename
        parts = n.split("/")
        isdist = len(parts) == 2 and parts[0].endswith(".dist-info")
        x = {"n": n, "mode": str(zi.external_attr)}
        try:
            c = z.read(zi)
        except Exception:  # noqa: BLE001
            mem.append({**x, "k": "unread"})
            continue
        h = hashlib.sha256(c).hexdigest()[:16]
        if isdist and parts[1] == "RECORD":
            rows = []
            for line in c.split(b"\n"):
                row = next(csv.reader([line.decode("utf-8", "backslashreplace")]), [])
                rows.append({"p": row[0] if row else "", "raw": esc(line)})
            if rows and rows[-1]["raw"] == "":
                rows.pop()
            mem.append({**x, "k": "record", "rows": rows, "h": h})
        elif isdist and parts[1] == "variant.json":
            try:
                doc = tag(json.loads(c))
            except (ValueError, RecursionError):
                doc = ["z"]
            sha = base64.urlsafe_b64encode(hashlib.sha256(c).digest()).rstrip(b"=").decode()
            mem.append({**x, "k": "meta", "doc": doc, "sha": sha, "size": len(c)})
        else:
            mem.append({**x, "k": "file", "h": h})
    if sum(m["k"] == "record" or (m["k"] == "unread" and bool(re.fullmatch(r"[^/]*\.dist-info/RECORD", m["n"]))) for m in mem) != 1:
        return {"t": "raw"}
    return {"t": "wheel", "mem": mem}


def snapshot(root: Path, blobs: dict):
    out = []
    for d, ds, fs in os.walk(root):
        for n in ds:
            out.append([os.path.relpath(os.path.join(d, n), root) + "/", "dir"])
        for n in fs:
            p = os.path.join(d, n)
            try:
                data = Path(p).read_bytes()
            except OSError:
                out.append([os.path.relpath(p, root), "unreadable"])
                continue
            kind = ".json" if n.endswith(".json") else ".whl"
            i = hashlib.sha256(kind.encode() + data).hexdigest()[:12]
            if i not in _cache:
                _cache[i] = content(data, n)
                if len(_cache) > 4000:
                    _cache.clear()
                    _cache[i] = content(data, n)
            blobs[i] = _cache[i]
            out.append([os.path.relpath(p, root), i])
    return sorted(out)


def faulty(f, root: Path, fault, size):
    """Run f in a child process with the fault; its outcome."""
    import base as B
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import resource
            os.close(rfd)
            if fault["kind"] == "fsize":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault["kill"] else signal.SIG_IGN)
                k = int(fault["at"] * (size + 500))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
            else:
                left = [fault["n"]]
                act = fault["act"]
                pre = str(root)

                def hook(event, args):
                    if event not in ("open", "os.rename", "os.remove") or left[0] < 0 or fault.get("ev", event) != event:
                        return
                    if event == "os.remove" and act != "kill":
                        return
                    a = args[0]
                    a = os.fsdecode(a) if isinstance(a, (str, bytes, os.PathLike)) else ""
                    if not os.path.join(os.getcwd(), a).startswith(pre):
                        return
                    left[0] -= 1
                    if left[0] < 0:
                        if act == "oserror":
                            raise OSError(28, "No space left on device")
                        if act == "interrupt":
                            raise KeyboardInterrupt
                        os.kill(os.getpid(), 9)
                sys.addaudithook(hook)
            try:
                with B.limit(60):
                    f()
                o = b"1"
            except BaseException:  # noqa: BLE001
                o = b"0"
            os.write(wfd, o)
        finally:
            os._exit(0)
    os.close(wfd)
    got = os.read(rfd, 1)
    os.close(rfd)
    os.waitpid(pid, 0)
    return {"ok": got == b"1", "died": got == b""}


SPELL = ["{0} :: {1} :: {2}", "{0}::{1}::{2}", " {0} ::{1}:: {2} "]
BADPROP = ["a :: f", "A :: f :: 1", "a :: f :: ", "a :: f :: 1 :: 2", "a : f : 1", ""]


def execute(s):
    import base as B
    import world as W
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json
    from variantlib.commands.main import main as cli
    W.dists([W.cli_dist()])
    top = W.SCRATCH / ("fs" + W.unique())
    root = top / "r"
    for d in ("w", "o", "o2", "u", "d", "i", "j"):
        (root / d).mkdir(parents=True)
    for path, spec in s["files"]:
        build(spec, root, path)
    plugs = {}
    for op in s["ops"]:
        for _, key, data, *_ in op.get("plug", []):
            if key not in plugs:
                plugs[key] = 1
                if data is not None:
                    W.plugin(key, data)
    os.chdir(root)
    ev, orig = [], {}
    blobs: dict = {}

    def pick(f):
        if isinstance(f, str):
            return f
        if "path" in f:
            return f["path"]
        got = sorted(os.listdir(root / f["dir"]))
        got = [g for g in got if g.endswith(".whl") and not g.startswith(".")]
        if f.get("variant"):
            got = [g for g in got if re.fullmatch(r"[^-]+-[^-]+(-\d[^-]*)?-[^-]+-[^-]+-[^-]+-[a-z0-9._]+\.whl", g)]
        return f"{f['dir']}/{got[f['n'] % len(got)]}" if got else None

    try:
        for k, op in enumerate(s["ops"]):
            kind = op["op"]
            if kind == "put":
                p = pick(op["path"])
                if p:
                    if op["spec"] is None:
                        (root / p).unlink()
                    else:
                        build(op["spec"], root, p)
                continue
            file = pick(op["file"]) if kind != "generate" else None
            if kind != "generate" and file is None:
                continue
            p = root / (file or "x")
            name = p.name
            inp = {"fault": op.get("fault", NOFAULT)["kind"] != "none"}
            if kind != "generate":
                inp.update(file=file, name=name, namecp=[ord(c) for c in name],
                           exists=p.exists() if kind == "analyze" else p.is_file())
            pre = snapshot(root, blobs)
            ids = dict(map(tuple, pre))
            arg = str(p) if k % 2 else str(file)
            if kind in ("make", "unmake", "add"):
                inp.update(outdir=op["outdir"], outok=(root / op["outdir"]).is_dir())
            if kind == "make":
                pyp = top / "pyproject.toml"
                args = ["make-variant", "-f", arg, "-o", op["outdir"] if k % 2 else str(root / op["outdir"])]
                if op["pyp"] is None:
                    pyp = top / "nonexistent.toml"
                else:
                    import tomllib

                    import tomlkit
                    data = untag(op["pyp"])
                    try:
                        t = tomlkit.dumps(data)
                        if tomllib.loads(t) != data:
                            raise ValueError
                    except Exception:  # noqa: BLE001  (not expressible as TOML)
                        continue
                    pyp.write_text(t)
                args += ["--pyproject-toml", str(pyp)]
                iso = op.get("iso")
                if iso is None:
                    args.append("--no-isolation")
                elif iso["installer"]:
                    args.append(f"--installer={iso['installer']}")
                props = [SPELL[(k + i) % 3].format(*q) for i, q in enumerate(op["props"])]
                if op["badprops"]:
                    props.append(BADPROP[k % len(BADPROP)] or BADPROP[0])
                if op["skip"]:
                    args.append("--skip-plugin-validation")
                if op["label"] is not None:
                    args.append(f"--variant-label={op['label']}")
                if op["null"]:
                    args.append("--null-variant")
                elif op.get("pre", 0) % 2:
                    args += ["-p", *props]
                else:
                    for q in props:
                        args += [r"-p", q]
                lab = op["label"]
                inp.update(props=op["props"], propsok=not op["badprops"], null=op["null"], skip=op["skip"],
                           lab={"has": lab is not None, "cp": [ord(c) for c in lab or ""], "v": (lab or "").encode("ascii", "replace").decode()},
                           pyp={"has": op["pyp"] is not None, "doc": op["pyp"] or ["z"]},
                           plug=[[x[0], x[3]] for x in op["plug"]], marks=provgen.marks(),
                           iso={"has": iso is not None, **(iso or {"installer": "", "fail": ""})}, inside=[[x[0], x[4]] for x in op["plug"] if len(x) > 4])
                ins = W.Installer({x[1]: x[5] for x in op["plug"] if len(x) > 5}, (iso or {}).get("fail", ""))
                had = {x[1]: len(W.places(x[1])) for x in op["plug"]} if iso or op.get("watch") else {}

                def f(args=args, ins=ins, iso=iso):
                    if iso is None:
                        return cli(args)
                    with ins:
                        return cli(args)
            elif kind == "unmake":
                args = ["unmake-variant", "-f", arg, "-o", op["outdir"]]
                inp["orig"] = orig.get(ids.get(file), "")
                f = lambda: cli(args)  # noqa: E731
            elif kind == "generate":
                args = ["generate-index-json", "-d", op["dir"] if k % 2 else str(root / op["dir"])]
                inp.update(dir=op["dir"], dirok=(root / op["dir"]).is_dir())
                f = lambda: cli(args)  # noqa: E731
            elif kind == "add":
                idx = op["index"]
                nv = "-".join(name.split("-")[:2])
                if idx == "present":
                    idx = f"{op['outdir']}/{nv}-variants.json"
                    idx = idx if (root / idx).is_file() else None
                elif idx == "own":
                    idx = f"i/{nv}-variants.json"
                    idx = idx if (root / idx).is_file() else None
                elif idx == "d":
                    idx = f"d/{nv}-variants.json"
                args = ["-f", arg, "-o", op["outdir"]]
                if idx is not None:
                    args += ["-i", idx]
                if op["over"]:
                    args.append("-w")
                inp.update(index=idx or "", hasindex=idx is not None, over=op["over"])
                f = lambda: add_wheel_to_index_json(args)  # noqa: E731
            else:
                args = ["analyze-wheel", "-i", arg]
                f = lambda: cli(args)  # noqa: E731
            sout = ""

            def quietly():
                nonlocal sout
                with B.quiet() as (o, _):
                    try:
                        f()
                    finally:
                        sout = o.getvalue()
            if inp["fault"]:
                size = p.stat().st_size if kind != "generate" and p.is_file() else 1500
                out = faulty(quietly, root, op["fault"], size)
            else:
                x = B.call(quietly, 60)
                out = {"ok": x["ok"], "died": False}
                if not x["ok"]:
                    out["exc"] = x["exc"]
            if kind == "make":
                out.update(env=ins.log, places=sorted({w for key, m in had.items() for w in W.places(key)[m:]}))
            if kind == "analyze":
                lines, shown = [], False
                for line in sout.splitlines():
                    if "Variant: `" in line and line.startswith("#"):
                        shown = True
                    elif shown and not line.startswith("#####"):
                        lines.append(line)
                out.update(lines=lines, shown=shown)
            post = snapshot(root, blobs)
            if kind == "make" and out["ok"] and not inp["fault"]:
                was = ids.get(file)
                if was:
                    src = orig.get(was)
                    if src is None and blobs[was]["t"] == "wheel":
                        if not any(m["k"] == "meta" for m in blobs[was]["mem"]) \
                                and not any(w["p"].endswith(".dist-info/variant.json") for m in blobs[was]["mem"] if m["k"] == "record" for w in m["rows"]):
                            src = was
                    new = [i for q, i in post if [q, i] not in pre and i != "dir"]
                    if len(new) == 1 and src:
                        orig[new[0]] = src
            used = {i for _, i in pre + post} | {inp.get("orig", "")}
            ev.append({"op": kind, "in": inp, "out": out, "pre": pre, "post": post,
                       "blobs": [[i, blobs[i]] for i in sorted(used) if i in blobs]})
    finally:
        os.chdir(W.CWD)
        shutil.rmtree(top, ignore_errors=True)
    return ev


# ---------------------------------------------------------------- attribution
def properties_of(clause, e):
    op = e["op"]
    if op == "analyze":
        return {"C31"}
    if clause == "unused-aot-providers-recorded":
        return {"C17", "C27"}
    if e["in"]["fault"]:
        return {"C19"} | ({"C20"} if op == "generate" and e["out"]["ok"] else set())
    if clause in ("other-files-untouched", "refusal-changes-nothing") and not (op == "make" and e["in"]["iso"]["has"]):
        return {"make": {"C17", "C19"}, "unmake": {"C18", "C19"}, "generate": {"C20", "C19"}, "add": {"C21", "C19"}}[op]
    if op == "make" and clause.startswith("env-"):
        return {"C32"}
    if op == "make" and e["in"]["iso"]["has"]:
        return {"C32"}
    if op == "make":
        res = {"C17"}
        if clause in ("metadata-right", "refused", "done"):
            if e["in"]["plug"]:
                res |= {"C27", "C26"}
        if clause in ("refused", "done") and e["in"]["plug"]:
            res |= {"C26"}
        return res | ({"C18"} if clause in ("members-kept", "modes-kept", "record-rows-kept") else set())
    return {"unmake": {"C18"}, "generate": {"C20"}, "add": {"C21"}}[op]


def finding(clause, e):
    return "unused-aot-providers-recorded" if clause == "unused-aot-providers-recorded" else None


def corrupt(e):
    e = json.loads(json.dumps(e))
    if e["op"] == "analyze":
        if not e["out"]["ok"]:
            return None
        e["out"]["lines"].append("a :: f :: corrupted")
        return e
    x = len(json.dumps(e)) % 5
    new = [f for f in e["post"] if f not in e["pre"] and f[1] in dict(e["blobs"])]
    if e["in"]["fault"]:
        if not new or e["out"]["ok"]:
            return None
        e["post"].append(["corrupted", e["post"][0][1]])
        return None if e["out"]["died"] else e
    if not e["out"]["ok"]:
        if x < 3:
            e["out"]["ok"] = True
            return e
        e["post"].append(["corrupted", e["post"][0][1]])
        return e
    if not new or x == 0:
        e["post"].append(["corrupted", e["post"][0][1]])
        return e
    f = new[0]
    if x == 1:
        e["post"] = [g for g in e["post"] if g != f] + [g for g in e["pre"] if g[0] == f[0]]
        return e
    c = json.loads(json.dumps(dict(map(tuple, e["blobs"]))[f[1]]))
    e["blobs"].append(["corrupted", c])
    f[1] = "corrupted"
    if c["t"] == "json":
        v = [v for k, v in c["doc"][1] if k == "variants"]
        if not v:
            return None
        if x < 4 and v[0][1]:
            v[0][1].pop()
        else:
            v[0][1].append(["corrupted", ["d", [["zz", ["d", [["f", ["l", [["s", "1"]]]]]]]]]])
        return e
    if c["t"] != "wheel" or not c["mem"]:
        return None
    rec = [m for m in c["mem"] if m["k"] == "record"][0]
    if x == 2:
        rec["rows"] = rec["rows"][:-1]
    elif x == 3:
        rec["mode"] = "7"
    else:
        drop = [m for m in c["mem"] if m["k"] != "record"]
        if not drop:
            return None
        c["mem"].remove(drop[len(json.dumps(e)) % len(drop)])
    return e
