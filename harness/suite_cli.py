"""Command lines, however spelled, in a small file system (spec: Cli, TraceCli)."""
from __future__ import annotations

import json
import os
import pickle
import random
import shutil
import sys
import tomllib
from pathlib import Path

import provgen
import suite_wheel as SW
from suite_config import enc, tag, toml_doc, valid_doc, invalid_doc
from suite_meta import D, S, strs, untag

TRACE = "TraceCli"
MODEL_CAP = {"quick": 700, "thorough": 2500}
CANARY_RATE = .6
OTHERS = ["hello", "config hello", "plugins hello"]
PKG, OTHER = "pkg-1.0", "other_x-2.1"
WHEELS = [f"w/{PKG}-py3-none-any.whl", f"w/{PKG}-1-py3-none-any-x.1.whl", f"w/{OTHER}-py3-none-any-y.whl", f"c/{PKG}-py3-none-any.whl",
          f"c/{PKG}-py3-none-any-y.whl", f"d/{PKG}-py3-none-any-x.whl", f"d/{PKG}-py3-none-any-y.whl", f"d/{OTHER}-py3-none-any-null.whl",
          f"d/{PKG}-py3-none-any.whl"]


# ----------------------------------------------------------------- generation
def pyproject(r, variant):
    """a project file with a table per table"""
    out = ["[project]\nname = 'p'\n"]
    for sec, body in variant.items():
        out.append(f"[variant.{sec}]\n" if sec != "providers" or r.random() < .5 else "")
        for k, v in body.items():
            if isinstance(v, dict):
                out.append(f"[variant.{sec}.{k}]\n" + "".join(f"{f} = {json.dumps(x)}\n" for f, x in v.items()))
            else:
                out.append(f"{k} = {json.dumps(v)}\n")
    return r.choice(["", "# comment\n"]) + r.choice(["", "\n"]).join(out)


def house(r, sid, plain=False):
    """the file system, and what the plugins answer"""
    key = "cli" + "".join(c for c in str(sid) if c.isalnum())
    plug, inside, data, host = [], [], {}, []
    for n in ("a", "b", "c"):
        p = provgen.Plug(r, n, key + n, False, bad=0)
        q = p if plain or r.random() < .6 else provgen.Plug(r, n, key + n, False, bad=0)
        if plain:
            fs = [["f", ["1", "2"], True], ["g", ["1"], False]]
            p.spec.update(all={"ok": True, "v": fs}, sup={"ok": True, "v": fs[:1]})
            p.data.update(get_all_configs=fs, get_supported_configs=fs[:1])
        data[n] = json.loads(json.dumps({"interps": {"d": p.data, "env": q.data}}))
        plug.append([n, json.loads(json.dumps(p.spec))])
        inside.append([n, json.loads(json.dumps(q.spec))])
    installed = ["a", "b"] if plain else [n for n in "ab" if r.random() < .85]

    def project():
        nss = ["a", "b"] if plain else r.sample(["a", "b", "c"], r.choice([1, 2, 3, 3]))
        provs, static = [], []
        for n in nss:
            if not plain and r.random() < .2:
                provs.append((n, D([("install-time", ["b", False])])))
                static.append((n, D([("f", strs(r.sample(["1", "2", "3"], 2)))])))
            else:
                provs.append((n, D([("requires", strs([f"prov-{n}"])), ("plugin-api", S(f"vplug_fake:{key}{n}"))])))
        r.shuffle(nss)
        body = [("default-priorities", D([("namespace", strs(nss))])), ("providers", D(provs))]
        if static:
            body.append(("static-properties", D(static)))
        return body
    body, alt, third = project(), project(), project()
    files = []

    def toml(path, b):
        files.append([path, {"toml": pyproject(r, untag(D(b)))}])
    toml("c/pyproject.toml", body)
    toml("c/alt.toml", alt)
    toml("w/pyproject.toml", third)
    props = [[n, f, v] for n, s in plug for f, vs, _ in s["all"]["v"] for v in vs]
    for path in WHEELS:
        name = path.split("/")[1]
        label = name[:-4].split("-")[-1] if not name.endswith("any.whl") else None
        meta = None
        if label is not None:
            d = sorted(r.sample([p for p in props if p[0] in [k for k, _ in dict(body)["providers"][1]]] or [["a", "f", "1"]], 1))
            meta = json.dumps(untag(SW.metadata(r, body, desc=D([(n, D([(f, strs([v]))])) for n, f, v in d]), label=label)))
            if not plain and r.random() < .06:
                meta = r.choice(["{}", "x"])
        files.append([path, {"w": SW.gen_wheel(r, "-".join(name.split("-")[:2]), meta=meta, stale=False)}])
    files.append([f"w/bad-1-py3-none-any-x.whl", {"raw": "junk"}])
    files.append(["c/note.txt", {"raw": "note"}])
    d = [p for p in props if p[0] in dict(dict(body)["providers"][1])][0]
    files.append(["i/old.json", {"doc": D([*body, ("variants", D([("old", D([(d[0], D([(d[1], strs([d[2]]))]))]))]))])}])
    if not plain and r.random() < .4:
        files.append([f"o/{PKG}-variants.json", {"raw": "old"}])
    for loc in ("c/variants.toml", "v/variants.toml", "x/variantlib/variants.toml", "s/variantlib/variants.toml"):
        if plain or r.random() < .45:
            doc = {"namespace_priorities": ["a", "b"]} if plain else valid_doc(r) if r.random() < .85 else invalid_doc(r)
            files.append([loc, {"toml": toml_doc(r, doc)}])
    return {"files": files, "plug": plug, "inside": inside, "data": data, "key": key,
            "installed": installed, "props": props}


def spell(r, o, names, v):
    short = [n for n in names if not n.startswith("--")]
    long = [n for n in names if n.startswith("--")]
    x = r.random()
    if x < .45 or (x >= .7 and not short):
        return [r.choice(names), v]
    if x < .7:
        return [f"{r.choice(long)}={v}"]
    return [short[0] + v] if v else [short[0], v]


def path(r, p):
    """one of the ways to write a path of the file system"""
    if p.startswith("c/"):
        q = p[2:]
        return r.choice([q, "./" + q, "@/" + p])
    return r.choice(["@/", "../"]) + p + ("/" if "." not in p.split("/")[-1] and r.random() < .2 else "")


FO = [["-f", "--file"], ["-o", "--output-directory"]]
SPELLP = ["{}::{}::{}", "{} :: {} :: {}", " {}::{} :: {} "]
BADP = ["a::f", "a", "A::f::1", "a::f::", "a::f::1::2", "", "a:f:1", "a :: f :: V", "a,b,c"]


def props(r, h, n=None):
    ps = r.sample(h["props"], min(len(h["props"]), n or r.choice([1, 1, 2, 3])))
    if r.random() < .12:
        ps.append([r.choice(["a", "c", "zz"]), "f", r.choice(["1", "9"])])
    if r.random() < .04:
        ps.append(ps[0])
    return [r.choice(SPELLP).format(*p) for p in ps] + ([r.choice(BADP)] if r.random() < .06 else [])


def many(r, names, vs):
    """values of a list, in one or several options"""
    out = []
    while vs:
        k = r.randint(1, len(vs))
        out.append([r.choice(names), *vs[:k]] if r.random() < .7 or k > 1 else spell(r, None, names, vs[0]))
        vs = vs[k:]
    return out


def command(r, h):
    """the words and the options (lists of tokens) of a command line"""
    files = [f for f, _ in h["files"]]
    whl = [f for f in files if f.endswith(".whl")]
    odd = ["c/note.txt", "c/missing.whl", "d", f"w/{PKG}-py3-none-any-none.whl", "c/pyproject.toml"]
    pick = lambda xs, bad=.07: r.choice(odd) if r.random() < bad else r.choice(xs)  # noqa: E731
    outs = ["o", "o2", "c", "d"]
    out = lambda: path(r, r.choice(["missing", "c/note.txt"]) if r.random() < .05 else r.choice(outs))  # noqa: E731
    name = r.choices(["make-variant", "unmake-variant", "analyze-wheel", "generate-index-json", "add-wheel-to-index-json",
                      "update-pyproject-toml", "get-variant-hash", "analyze-platform", "config list-paths", "config show",
                      "plugins list", "plugins get-configs", "other"],
                     [26, 8, 7, 7, 12, 13, 8, 3, 4, 5, 2, 9, 3])[0]
    o: list = []
    if name == "make-variant":
        src = [f for f in whl if r.random() < .3 or f.endswith("any.whl")] or whl
        o = [spell(r, 0, FO[0], path(r, pick(src, .05))), spell(r, 0, FO[1], out())]
        if r.random() < .15:
            o.append(["--null-variant"])
        else:
            o += many(r, ["-p", "--property"], props(r, h))
            if r.random() < .4:
                o.append(spell(r, 0, ["--variant-label"], r.choice(["x", "v1", "x.y", "x", "v1", "null", "X", "", "abcdefghijklmnopq", "a-b"])))
        if r.random() < .4:
            o.append(["--skip-plugin-validation"])
        if r.random() < .5:
            o.append(["--no-isolation"])
        if r.random() < .25:
            o.append(spell(r, 0, ["--installer"], r.choice(["pip", "uv", "uv", "conda", "PIP"])))
        if r.random() < .35:
            o.append(spell(r, 0, ["--pyproject-toml"], path(r, pick(["c/alt.toml", "w/pyproject.toml"], .12))))
    elif name == "unmake-variant":
        o = [spell(r, 0, FO[0], path(r, pick(whl))), spell(r, 0, FO[1], out())]
    elif name == "analyze-wheel":
        o = [spell(r, 0, ["-i", "--input_file"], path(r, pick(whl)))]
    elif name == "generate-index-json":
        o = [spell(r, 0, ["-d", "--directory"], path(r, pick(["d", "w", "c", "o", "o2"])))]
    elif name == "add-wheel-to-index-json":
        o = [spell(r, 0, ["-f", "--wheel-file"], path(r, pick(whl))), spell(r, 0, FO[1], out())]
        if r.random() < .5:
            o.append(spell(r, 0, ["-i", "--input-json-file"], path(r, pick(["i/old.json"] + [f"{d}/{PKG}-variants.json" for d in "od"]))))
        if r.random() < .5:
            o.append(["-wo", o.pop(1)[-1]] if len(o[1]) == 2 and r.random() < .3 else [r.choice(["-w", "--overwrite"])])
    elif name == "update-pyproject-toml":
        nss = ["a", "b", "a", "b", "c", "zz", ""]
        if r.random() < .5:
            o.append(spell(r, 0, FO[0], path(r, pick(["c/alt.toml", "w/pyproject.toml", "c/pyproject.toml"], .1))))
        if r.random() < .75:
            o += many(r, ["-a", "--add"], r.sample(["a", "b"], r.choice([1, 1, 2])) if r.random() < .8 else r.sample(nss, r.choice([1, 2])))
        if r.random() < .6 or not o:
            o += many(r, ["-d", "--delete"], r.sample(nss, r.choice([1, 2, 3])))
    elif name == "get-variant-hash":
        o = many(r, ["-p", "--property"], props(r, h)) if r.random() < .9 else []
    elif name == "config list-paths":
        o = [[r.choice(["-v", "--verbose"])]] if r.random() < .6 else []
    elif name == "config show":
        o = [[r.choice(["LOCAL", "VIRTUALENV", "USER", "GLOBAL", "LOCAL", "local", "NONE"])]] if r.random() < .6 else []
    elif name == "plugins get-configs":
        if r.random() < .93:
            o.append([r.choice(["-a", "--all"] if r.random() < .5 else ["-s", "--supported"])])
        if r.random() < .5:
            o.append(spell(r, 0, ["-n", "--namespace"], r.choice(["a", "b", "a", "b", "zz", "f", ""])))
        if r.random() < .5:
            o.append(spell(r, 0, ["-f", "--feature"], r.choice(["f", "g", "f1", "f", "g", "a", ""])))
        if r.random() < .2 and o and o[0][0] in ("-a", "-s") and len(o) > 1 and not o[1][0].startswith("--"):
            o = [[o[0][0] + o[1][0][1:], *o[1][1:]], *o[2:]]
    elif name == "other":
        w = r.choice(OTHERS).split()
        return w, [[t] for t in r.choices(["-h", "--version", "-f", "x", "--file=y", "a b", "", "--null-variant", "-p", "@/w", "show"], k=r.randint(0, 4))]
    keep = name in ("make-variant", "get-variant-hash", "update-pyproject-toml") and r.random() < .3
    if not keep:
        r.shuffle(o)
    return name.split(), o


def twist(r, words, o):
    """a mistake, or a repetition"""
    x = r.randrange(12)
    if x == 0 and o:
        o.pop(r.randrange(len(o)))
    elif x == 1 and o:                       # repeated
        o.insert(r.randint(0, len(o)), r.choice(o))
    elif x == 2:
        o.insert(r.randint(0, len(o)), [r.choice(["--bogus", "-x", "-zq", "--bogus=1", "--Force"])])
    elif x == 3:                             # an argument too many
        o.insert(r.randint(0, len(o)), [r.choice(["extra", "a", "", "LOCAL", "@/o"])])
    elif x == 4 and o:                       # a missing value
        k = r.randrange(len(o))
        o[k] = o[k][:1]
    elif x == 5 and o:
        k = r.randrange(len(o))
        if o[k][0].startswith("--") and len(o[k]) == 1 and "=" not in o[k][0]:
            o[k] = [o[k][0] + "=1"]
    elif x == 6:
        o.insert(r.randint(0, len(o)), [r.choice(["--null-variant", "--all", "-s", "-a", "--overwrite"])])
    elif x == 7:
        words = r.choice([[], ["make"], ["Make-Variant"], ["config"], ["plugins"], ["config", "LOCAL"], ["plugins", "show"], ["list"],
                          ["--bogus", *words], ["config", *words], ["variantlib", *words], [""], ["config", "--bogus"], words[:1]])
    elif x == 8:
        o.append([r.choice(["-h", "--help"])])
    elif x == 9:
        words = r.choice([["-h"], ["--help"], ["-v"], ["--version"], ["config", "-h"], ["plugins", "--help"]])
        o = o if r.random() < .3 and "--help" not in words else []
    elif x == 10 and len(words) == 2:
        words = words[::-1]
    return words, o


def generate(prop, seed, tier):
    r = random.Random(f"cli/{seed}/{prop}")
    m = 1 if tier == "quick" else 4
    out = []
    for i in range(420 * m):
        h = house(r, [prop, i])
        ops = []
        for _ in range(r.choice([2, 3, 4, 5, 6])):
            words, o = command(r, h)
            if r.random() < .22:
                words, o = twist(r, words, o)
            ops.append([*words, *(t for x in o for t in x)])
        h.pop("props")
        out.append({"id": [prop, i], "house": h, "ops": ops})
    return out


def from_model(items):
    """(the file system is made when the scenario is run)"""
    items = sorted(items, key=lambda it: it["argv"])
    return [{"id": ["model", n], "house": {}, "ops": [it["argv"]], "k": it["k"]} for n, it in enumerate(items)]


def agrees(s, m):
    e = m["ev"][0]
    same = e["pre"] == e["post"]
    if s["k"] == "error":
        return not e["out"]["ok"] and same
    if s["k"] == "nothing":
        return same
    return None if s["k"] == "do" else e["out"]["ok"] and same


# --------------------------------------------------------------- execution
def setup():
    import logging
    import variantlib.api  # noqa: F401
    import variantlib.commands.main  # noqa: F401
    logging.disable(logging.CRITICAL)


def snapshot(root: Path, blobs):
    fs = SW.snapshot(root, blobs)
    for f in fs:
        if f[0].endswith(".toml") and f[1] in blobs:
            i = "toml" + f[1]
            if i not in blobs:
                try:
                    blobs[i] = {"t": "toml", "doc": tag(tomllib.loads((root / f[0]).read_bytes().decode()))}
                except (tomllib.TOMLDecodeError, UnicodeDecodeError):
                    blobs[i] = {"t": "raw"}
            f[1] = i
    return fs


def child(s, root: Path):
    import base as B
    import vplug_cli
    import world as W
    from suite_plugin import printed
    from variantlib.commands.main import main
    h = s["house"] or house(random.Random(f"cli-model/{s['id'][1]}"), s["id"], plain=True)
    for d in ("w", "o", "o2", "c", "d", "i", "v", "home", "x", "s"):
        (root / d).mkdir(parents=True)
    for p, spec in h["files"]:
        if "toml" in spec:
            (root / p).parent.mkdir(exist_ok=True)
            (root / p).write_bytes(spec["toml"].encode())
        else:
            SW.build(spec, root, p)
    for n, data in h["data"].items():
        W.plugin(h["key"] + n, data)
    W.dists([W.cli_dist(), *[(f"prov-{n}", "1.2", {"variant_plugins": [(n, f"vplug_fake:{h['key']}{n}")]}) for n in h["installed"]],
             ("third", "1", {"variantlib.actions": [("hello", "vplug_cli:hello")],
                             "variantlib.actions.config": [("hello", "vplug_cli:config_hello")],
                             "variantlib.actions.plugins": [("hello", "vplug_cli:plugins_hello")]})])
    os.chdir(root / "c")
    sys.prefix = str(root / "v")
    os.environ.update(HOME=str(root / "home"), XDG_CONFIG_DIRS=str(root / "s"), XDG_CONFIG_HOME=str(root / "x"))
    blobs: dict = {}
    ev = []
    plugs = [{"ns": n, "api": f"vplug_fake:{h['key']}{n}", "loads": True, "req": f"prov-{n} >=1.2"} for n in h["installed"]]
    host = [p for p in h["plug"] if p[0] in h["installed"]]
    pre = snapshot(root, blobs)
    for k, argv in enumerate(s["ops"]):
        args = [t.replace("@/", f"{root}/") for t in argv]
        vplug_cli.CALLS.clear()
        had = {n: len(W.places(h["key"] + n)) for n in h["data"]}
        sout = ""

        def run():
            nonlocal sout
            with B.quiet() as (o, _), W.Installer({h["key"] + n: [] for n in h["data"]}, "") as ins:
                try:
                    if k % 2:
                        main(args)
                    else:
                        sys.argv = ["variantlib", *args]
                        main()
                finally:
                    sout = o.getvalue()
                    run.env = ins.log
        run.env = []
        x = B.call(run, 60)
        out = {"ok": x["ok"] or x["exc"] == "SystemExit0", "exc": x.get("exc", ""), "text": enc(sout[:300]).replace("\\n", "\n"), "env": run.env,
               "places": sorted({w for n, c in had.items() for w in W.places(h["key"] + n)[c:]}),
               "calls": [[c, [t.replace(f"{root}/", "@/") for t in a]] for c, a in vplug_cli.CALLS],
               "lines": [], "shown": False, "v": [], "nss": [], "tree": ["z"]}
        what = " ".join(argv[:2])
        if argv[:1] == ["analyze-wheel"]:
            for line in sout.splitlines():
                if "Variant: `" in line and line.startswith("#"):
                    out["shown"] = True
                elif out["shown"] and not line.startswith("#####"):
                    out["lines"].append(line)
        elif argv[:1] == ["analyze-platform"] or what in ("plugins list", "plugins get-configs"):
            w = {"plugins list": "plist", "plugins get-configs": "pget"}.get(what, "platform")
            y = B.call(lambda: printed(w, sout, B))
            out.update(y["val"] if y["ok"] else {"v": [["?", []]], "nss": ["?"]})
        elif what == "config show":
            y = B.call(lambda: tag(tomllib.loads(sout)))
            out["tree"] = y.get("val", ["z"])
        elif what == "config list-paths":
            for line in sout.splitlines():
                name, _, rest = line.partition(": ")
                found = ""
                if rest.endswith(")"):
                    found = "missing" if rest.endswith(" (not found)") else "there"
                    rest = rest.rpartition(" (")[0]
                out["v"].append([name, enc(rest.replace(f"{root}/", "", 1)), found])
        post = snapshot(root, blobs)
        used = {i for _, i in pre + post}
        ev.append({"op": argv[0] if argv and argv[0].isascii() else "",
                   "in": {"argv": argv, "others": OTHERS, "plug": h["plug"], "inside": h["inside"], "plugs": plugs, "host": host},
                   "out": out, "pre": pre, "post": post, "blobs": [[i, blobs[i]] for i in sorted(used) if i in blobs]})
        pre = post
    return ev


def execute(s):
    import world
    base = world.SCRATCH / world.unique()
    base.mkdir()
    try:
        res = base / "result"
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                res.write_bytes(pickle.dumps(child(s, base / "r")))
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise RuntimeError("the child failed")
        return pickle.loads(res.read_bytes())
    finally:
        shutil.rmtree(base, ignore_errors=True)


# -------------------------------------------------------------- attribution
def properties_of(clause, e):
    return {"C34"}


def corrupt(e):
    e = json.loads(json.dumps(e))
    x = len(json.dumps(e)) % 3
    if x == 0:
        e["post"].append(["c/corrupted", e["post"][1][1]])
    elif x == 1:
        e["out"]["calls"] = [["hello", ["corrupted"]]]
    elif e["in"]["argv"][:1] in (["make-variant"], ["unmake-variant"], ["add-wheel-to-index-json"], ["update-pyproject-toml"]):
        if e["pre"] != e["post"]:
            e["post"] = e["pre"]
            e["out"]["ok"] = e["in"]["argv"][:1] != ["update-pyproject-toml"]
        else:
            e["out"]["calls"] = [["hello", []]]
    else:
        e["out"]["calls"] = [["plugins hello", []]]
    return e
