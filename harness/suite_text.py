"""Text, hash, labels, wheel names, marker environment (spec: Text, TraceText)."""
from __future__ import annotations

import hashlib
import json
import random

TRACE = "TraceText"
MODEL_CAP = {"quick": 30000, "thorough": 250000}

WS = [32, 9, 10, 11, 12, 13, 28, 29, 30, 31, 133, 160, 5760, 8192, 8202, 8232, 8233, 8239, 8287, 12288]
ODD = [8203, 65, 90, 233, 0x131, 0x663, 0xAA, 0xFF41, 0x2160, 0x1F600, 0, 45, 43, 47, 92, 64, 0x301, 0x200E, 0xFEFF, 58, 46,
       96, 123, 94, 91, 127, 0xD800, 0x212A, 0x17F, 0x3A3]
LOW = list(range(97, 123)) + list(range(48, 58)) + [95]
NAMES = ["a", "b", "aa", "a_", "0", "_", "n_1", "x86_64", "cuda", "a1", "z"]
VALS = NAMES + ["1.0", "1", "10", ".", "..", "v1.2.3", "_.", "0.0", "1.0.0"]


def cps(s):
    return [ord(c) for c in s]


def txt(c):
    return "".join(map(chr, c))


# ----------------------------------------------------------------- generation
def _big(r):
    """Whether this scenario is one of the few of unusual size."""
    return getattr(r, "big", False)


def _name(r, val=False):
    if _big(r) and r.random() < .3:
        return [r.choice(LOW + ([46] * 4 if val else [])) for _ in range(r.choice([63, 64, 65, 100, 128, 255, 256, 257, 300]))]
    if r.random() < .5:
        return cps(r.choice(VALS if val else NAMES))
    return [r.choice(LOW + ([46] * 4 if val else [])) for _ in range(r.choice([1, 1, 2, 3, 5, 12, 40]))]


def _gap(r):
    return [r.choice(WS) for _ in range(r.choice([0, 0, 1, 1, 2, 3] + [70] * _big(r)))]


def _ptext(r, arity):
    t = _gap(r)
    for i in range(arity):
        t += _name(r, i == 2)
        if i < arity - 1:
            t += _gap(r) + [58, 58] + _gap(r)
    return t + _gap(r)


def _mutate(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(len(t) + 1)
        x = r.random()
        if x < .45:
            t.insert(k, r.choice(ODD + WS + [58, 58, 46]))
        elif x < .7 and t:
            t.pop(min(k, len(t) - 1))
        elif x < .9 and t:
            t[min(k, len(t) - 1)] = r.choice(ODD + WS)
        else:
            t = t[:k] + [58, 58] + t[k:]
    return t


def _parse(r):
    kind = r.choice(["prop", "prop", "feat"])
    t = _ptext(r, r.choice([3, 3, 3, 2, 2, 1, 4]) if r.random() < .25 else (3 if kind == "prop" else 2))
    if r.random() < .6:
        t = _mutate(r, t)
    return {"op": "parse", "kind": kind, "cp": t}


BADT = ["int", "none", "bytes", "list", "float", "bool", "dict"]


def _make(r):
    n = r.choice([2, 3])
    args = [{"t": "str", "cp": _name(r, i == 2)} for i in range(n)]
    x = r.random()
    if x < .45:
        a = r.choice(args)
        a["cp"] = r.choice([[], a["cp"] + [10], [32] + a["cp"], _mutate(r, a["cp"]), a["cp"] + [r.choice(ODD)], [46] + a["cp"]])
    elif x < .75:
        r.choice(args)["t"] = r.choice(BADT)
    return {"op": "make", "args": args}


def _props(r, n=None, dup=0.1):
    n = r.choice([12, 17, 33] if _big(r) else [0, 1, 1, 2, 3, 4, 6, 9]) if n is None else n
    out, few = [], r.random() < .6
    if few and n > 9:         # many features, many values or many namespaces
        k = r.randrange(4)
        out = [["a" if k else f"n{i}", f"f{i}" if k == 1 else "f", f"{i}" if k > 1 else "1"] for i in range(n)]
        if k == 3:
            out = [[f"n{i % 4}", f"f{i % 3}", f"{i}"] for i in range(n)]
    while len(out) < n:
        p = [txt(_name(r)), txt(_name(r)), txt(_name(r, True))]
        if few:
            p = [r.choice(["a", "aa", "a_", "b"]), r.choice(["f", "ff", "f1"]), r.choice(["1", "1.0", "10", "2", ".1"])]
        if p not in out:
            out.append(p)
        elif few and n > 5:
            n -= 1
    if out and r.random() < dup:
        out.insert(r.randrange(len(out) + 1), list(r.choice(out)))
    r.shuffle(out)
    return out


def _desc(r):
    ps = _props(r, dup=.15)
    form = r.choice(["list", "list", "tuple", "iter", "set", "dict", "deser"])
    uniq = len({tuple(p) for p in ps}) == len(ps)
    if not uniq and form == "set":
        form = "list"
    return {"op": "desc", "form": form, "props": ps}


def _baddesc(r):
    return {"op": "baddesc", "kind": r.choice(["ints", "texts", "feature", "none", "str", "nested", "mixed", "int", "nonelist",
                                               "propsub", "lists"]), "props": _props(r, r.choice([1, 2, 3]), 0)}


def _cli(r):
    ps = _props(r, dup=.12)
    groups, k = [], 0
    while k < len(ps):
        m = r.choice([1, 1, 2, 3])
        groups.append(ps[k:k + m])
        k += m
    tg = []
    for g in groups:
        row = []
        for p in g:
            t = []
            ascii_ws = [32, 9, 10, 12288]
            gap = lambda: [r.choice(ascii_ws) for _ in range(r.choice([0, 0, 1, 2]))]  # noqa: E731
            for i in range(3):
                t += gap() + cps(p[i]) + gap() + ([58, 58] if i < 2 else [])
            if r.random() < .06:
                t = [c for c in _mutate(r, t) if c not in (0, 0xD800)]
                if t[:1] == [45]:
                    t = t[1:]
            row.append(t)
        tg.append(row)
    return {"op": "cli", "groups": tg}


def _label(r):
    ps = _props(r, r.choice([0, 0, 1, 1, 2, 3]), 0)
    if r.random() < .25:
        return {"op": "label", "props": ps, "given": False, "cp": []}
    x = r.random()
    cp = (cps(r.choice(["null", "null", "Null", "nul", "nulll", "", "a", ".", "..", "_", "x86.64_v3", "a-b", "a b", "a+b", "ok\n"])) if x < .4 else
          [r.choice(LOW + [46]) for _ in range(r.choice([1, 2, 8, 15, 16, 17, 18, 32]))])
    if .4 < x < .6:
        own = hashlib.sha256("".join(" :: ".join(p) + "\n" for p in sorted(ps)).encode()).hexdigest()
        cp = cps(r.choice([own[:8], own[:8], own[:16], own[:17], own[:7], own[:8].upper(), hashlib.sha256(b"").hexdigest()[:8],
                           "_".join(ps[0])[:20] if ps else "null", "null." + own[:4], "nul" + own[0]]))
    if x > .85:
        cp = _mutate(r, cp)
    return {"op": "label", "props": ps, "given": True, "cp": cp}


FIELDS = ["pkg", "p", "1.0", "0", "1.0.post1", "py3", "py2.py3", "none", "any", "cp312", "abi3", "manylinux_2_17_x86_64",
          "1", "2abc", "null", "a1b2c3d4", "x86_64_v3", "A", "a+b", "a.whl", "0123456789abcdef", "0123456789abcdefg", "é", ".",
          "1!2.0", "1.0+cu12.1", "1.0_1", "2024.12.31rc1.dev0", "v1", "foo_bar", "Foo.Bar", "py2.py3.cp39", "macosx_11_0_universal2", "cp313t",
          "manylinux1_x86_64.manylinux2010_x86_64", "20240101", "0_a.b", "1é", "win32", "linux", "any.x"]


def _wname(r):
    x = r.random()
    n = r.choice([5, 5, 6, 6, 6, 7, 7, 4, 8]) if x < .4 else None
    if n:
        fs = [r.choice(FIELDS) for _ in range(n)]
    else:
        fs = [r.choice(["pkg", "pkg", "Foo.Bar_9"]), r.choice(["1.0", "1.0", "1!2.0", "1.0+cu12.1", "1.0_1", "2024.12.31rc1.dev0", "v1"])] + (
            [r.choice(["1b", "1", "20240101", "0_a.b"])] if r.random() < .3 else []) + [
            r.choice(["py3", "py3", "py2.py3", "cp313t"]), r.choice(["none", "none", "abi3", "cp313t"]),
            r.choice(["any", "linux_x86_64", "manylinux1_x86_64.manylinux2010_x86_64", "win32", "macosx_11_0_universal2"])]
        if r.random() < .8:
            fs.append(r.choice(["null", "a1b2c3d4", "x", ".", "foo.bar", "0123456789abcdef", "0123456789abcdefg", "X", "a+b", "é", "a b",
                                "", "\u0663", "ſ", "K"]))
        if r.random() < .15:
            fs[r.choice([0, 2, 3, 4])] = r.choice(["", "a b", "a\u2003b", "é", "a\tb"])
    t = "-".join(fs) + r.choice([".whl"] * 12 + [".WHL", ".zip", ".whl\n", "whl", ".whl.whl", ".whl "])
    c = [x for x in cps(t) if x not in (0, 47, 0xD800)]
    return {"op": "name", "cp": c, "label": []}


def _env(r):
    ps = _props(r, dup=0)
    if r.random() < .2:       # namespaces with a meaning elsewhere
        ps = [[r.choice(["abi_dependency", "null", "abi", p[0]]), *p[1:]] for p in ps]
        ps = [p for i, p in enumerate(ps) if p not in ps[:i]]
    asks = []
    for _ in range(5):
        p = r.choice(ps) if ps and r.random() < .6 else _props(r, 1, 0)[0]
        k = r.choice(["ns", "feat", "prop"])
        asks.append([k, " :: ".join(p[:{"ns": 1, "feat": 2, "prop": 3}[k]])])
    given = r.random() < .5
    return {"op": "env", "props": ps, "given": given, "label": r.choice(["foo", "null", "", "x.1"]) if given else "", "asks": asks}


KINDS = {"C08": [(_desc, 6), (_cli, 3), (_baddesc, 1)], "C09": [(_parse, 7), (_make, 3), (_baddesc, 1), (_desc, 1)],
         "C10": [(_label, 5), (_wname, 6)], "C11": [(_env, 1)],
         "C07": [(_desc, 3), (_env, 1), (_label, 1), (_cli, 1)]}
COUNT = {"quick": 4000, "thorough": 40000}


def generate(prop, seed, tier):
    r = random.Random(f"{seed}/text/{prop}")
    makers = [m for m, w in KINDS[prop] for _ in range(w)]
    n = COUNT[tier] // (4 if prop == "C07" else 1) // (2 if prop == "C08" else 1)
    out = []
    for i in range(n // 3):
        r.big = i % 40 == 7
        out.append({"id": ["rand", i], "calls": [r.choice(makers)(r) for _ in range(3)]})
    return out


def from_model(items):
    out = []
    for i, m in enumerate(items):
        if "mode" in m:
            if m["mode"] == "wheel":
                if not all(c not in (0, 47) for c in m["src"]):
                    continue
                c = {"op": "name", "cp": m["src"], "label": []}
            else:
                c = {"op": "parse", "kind": m["mode"], "cp": m["src"]}
        else:
            c = {"op": "desc", "form": ["list", "tuple", "iter", "deser", "dict"][i % 5], "props": m["given"]}
        out.append({"id": ["model", m.get("mode", "desc"), m.get("src", m.get("given"))], "calls": [c], "want": m})
    return out


def _debatable(cp):
    """No verdict: pip's pattern, which the code uses, is laxer than the standard here."""
    fs = txt(cp).removesuffix(".whl").split("-")
    return len(fs) in (5, 6, 7) and (fs[1] == "" or (fs[2][:1].isdigit() and (any(c.isspace() for c in fs[2]) or not fs[2][0].isascii())))


def agrees(s, m):
    e, w = m["ev"][0] if m["ev"] else None, s["want"]
    if e is None:
        return True
    o = e["out"]
    if not (e["mut"] == [] and e["rep"]):
        return False
    if e["op"] == "name":
        return o["unmake"]["kind"] == {"no": "invalid"}.get(w["st"], w["st"]) and (
            w["st"] != "variant" or txt(o["unmake"]["base"]) == "-".join(map(txt, w["got"][:-1])) + ".whl")
    if e["op"] == "parse":
        return (o["ok"] and o["val"]["parts"] == w["got"] and o["val"]["again"] and o["val"]["deser"]
                if w["st"] == "yes" else not o["ok"] and o["exc"] == "ValidationError")
    if w["status"] == "ok":
        return o["ok"] and o["val"]["props"] == w["built"] and o["val"]["hash"] == w["hash"]
    return not o["ok"] and o["exc"] == "ValidationError"


# ------------------------------------------------------------------ execution
_wheel: dict = {}


def setup():
    import logging
    logging.disable(logging.CRITICAL)


def _outcome(o, conv):
    """Convert the value of a successful call; a value of the wrong shape counts as a failure."""
    import base
    if o["ok"]:
        try:
            return {"ok": True, "val": conv(o["val"])}
        except (base.BadShape, AttributeError, TypeError) as e:
            return {"ok": False, "exc": f"BadShape: {e}"[:200]}
    return {"ok": False, "exc": o["exc"]}


def _exec(c):
    import base as B
    import world as W
    from variantlib.api import get_variant_environment_dict, get_variant_label
    from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
    op = c["op"]
    mk = lambda ps: [VariantProperty(*p) for p in ps]  # noqa: E731
    mut, rep = [], True
    if op == "parse":
        cls = VariantProperty if c["kind"] == "prop" else VariantFeature
        t = txt(c["cp"])

        def conv(v):
            B.need(type(v) is cls)
            parts = [v.namespace, v.feature] + ([v.value] if c["kind"] == "prop" else [])
            s = B.text(v.to_str())
            again = B.call(lambda: cls.from_str(s))
            d = B.call(lambda: cls.deserialize(v.serialize()))
            return {"parts": [cps(B.text(p)) for p in parts], "text": cps(s),
                    "again": again["ok"] and again["val"] == v and hash(again["val"]) == hash(v),
                    "deser": d["ok"] and d["val"] == v and type(d["val"]) is cls}
        o1 = _outcome(B.call(lambda: cls.from_str(t)), conv)
        o2 = _outcome(B.call(lambda: cls.from_str(t)), conv)
        rep = o1 == o2
        out, inp = o1, {"kind": c["kind"], "cp": c["cp"]}
    elif op == "make":
        conv_in = {"str": lambda t: t, "int": lambda t: 1, "none": lambda t: None, "bytes": lambda t: t.encode("utf-8", "replace"),
                   "list": lambda t: [t], "float": lambda t: 1.5, "bool": lambda t: True, "dict": lambda t: {t: t}}
        vals = [conv_in[a["t"]](txt(a["cp"])) for a in c["args"]]
        cls = VariantProperty if len(vals) == 3 else VariantFeature
        w = B.Watch(vals=vals)
        conv = lambda v: [cps(B.text(x)) for x in ([v.namespace, v.feature] + ([v.value] if len(vals) == 3 else []))]  # noqa: E731
        out = _outcome(B.call(lambda: cls(*vals)), conv)
        rep = out == _outcome(B.call(lambda: cls(*vals)), conv)
        mut = w.changed()
        inp = {"args": c["args"]}
    elif op == "desc":
        ps = c["props"]

        def build(order=1):
            objs = mk(ps[::order])
            if c["form"] == "list":
                return objs, lambda: VariantDescription(objs)
            if c["form"] == "tuple":
                objs = tuple(objs)
                return objs, lambda: VariantDescription(objs)
            if c["form"] == "iter":
                return objs, lambda: VariantDescription(iter(objs))
            if c["form"] == "set":
                objs = frozenset(objs)
                return objs, lambda: VariantDescription(objs)
            if c["form"] == "deser":
                d = [{"namespace": n, "feature": f, "value": v} for n, f, v in ps[::order]]
                return d, lambda: VariantDescription.deserialize(d)
            d = {}
            for n, f, v in ps[::order]:
                d.setdefault(n, {}).setdefault(f, []).append(v)
            return d, lambda: VariantDescription.from_dict(d)

        def conv(v):
            B.need(type(v) is VariantDescription and type(v.properties) is list)
            a = B.call(lambda: VariantDescription.from_dict(v.to_dict()))
            b = B.call(lambda: VariantDescription.deserialize(v.serialize()))
            h = B.text(v.hexdigest)
            other = B.call(build(-1)[1])
            h2 = other["val"].hexdigest if other["ok"] and v.hexdigest == h else "-"
            return {"props": B.desc(v), "hash": h, "hash2": h2, "null": B.boolean(v.is_null_variant()),
                    "dict": a["ok"] and a["val"] == v and hashes(a["val"]) == h,
                    "deser": b["ok"] and b["val"] == v and hashes(b["val"]) == h}

        def hashes(v):
            return v.hexdigest
        arg, f = build()
        w = B.Watch(arg=arg)
        out = _outcome(B.call(f), conv)
        mut = w.changed()
        rep = out == _outcome(B.call(build()[1]), conv)
        inp = {"form": c["form"], "props": ps}
    elif op == "baddesc":
        objs = mk(c["props"])

        class P(VariantProperty):
            pass
        p0 = c["props"][0]
        bad = {"ints": [1, 2], "texts": [" :: ".join(p) for p in c["props"]], "feature": [VariantFeature(*p0[:2])], "none": None,
               "str": "abc", "nested": [objs], "mixed": [*objs, "a :: b :: c"], "int": 7, "nonelist": [None], "propsub": [P(*p0)],
               "lists": [list(p0)]}[c["kind"]]
        w = B.Watch(bad=bad)
        out = _outcome(B.call(lambda: VariantDescription(bad)), lambda v: True)
        mut, inp = w.changed(), {"kind": c["kind"]}
    elif op == "cli":
        from variantlib.commands.main import main
        W.dists([W.cli_dist()])
        args = ["get-variant-hash"]
        for i, g in enumerate(c["groups"]):
            args.append("-p" if i % 2 else "--property")
            args += [txt(t) for t in g]

        def go():
            with B.quiet() as (so, _):
                o = B.call(lambda: main(list(args)))
            return {"ok": o["ok"], "exc": o.get("exc", ""), "out": so.getvalue()}
        out = go()
        rep = out == go()
        inp = {"groups": c["groups"]}
    elif op == "label":
        d = VariantDescription(mk(c["props"]))
        w = B.Watch(d=d)
        t = txt(c["cp"])
        f = (lambda: B.text(get_variant_label(d, t))) if c["given"] else (lambda: B.text(get_variant_label(d)))
        o = B.call(f)
        out = {"ok": True, "val": o["val"] if o["val"].isascii() else "?", "cp": cps(o["val"])} if o["ok"] else {"ok": False, "exc": o["exc"]}
        o2 = B.call(f)
        rep = o.get("val", o.get("exc")) == o2.get("val", o2.get("exc"))
        mut = w.changed()
        inp = {"props": c["props"], "given": c["given"], "cp": c["cp"]}
    elif op == "name":
        if _debatable(c["cp"]):
            return None
        out, inp = _exec_name(c, B, W)
    elif op == "env":
        d = VariantDescription(mk(c["props"]))
        w = B.Watch(d=d)
        f = (lambda: get_variant_environment_dict(d, c["label"])) if c["given"] else (lambda: get_variant_environment_dict(d))

        def conv(v):
            B.need(isinstance(v, dict))
            res = {"extra": sorted(set(v) - {"variant_namespaces", "variant_features", "variant_properties", "variant_label"})}
            for k, key in (("ns", "variant_namespaces"), ("feat", "variant_features"), ("prop", "variant_properties")):
                B.need(key in v and isinstance(v[key], (set, frozenset)))
                res[k] = sorted(B.text(x) for x in v[key])
            res["haslabel"] = "variant_label" in v
            res["label"] = B.text(v.get("variant_label", ""))
            res["answers"] = [t in v[{"ns": "variant_namespaces", "feat": "variant_features", "prop": "variant_properties"}[k]]
                              for k, t in c["asks"]]
            return res
        out = _outcome(B.call(f), conv)
        rep = out == _outcome(B.call(f), conv)
        mut = w.changed()
        inp = {"props": c["props"], "given": c["given"], "label": c["label"], "asks": c["asks"]}
    return {"op": op, "in": inp, "out": out, "mut": mut, "rep": rep}


def _exec_name(c, B, W):
    import io
    import shutil
    import zipfile
    from variantlib.commands.main import main
    W.dists([W.cli_dist()])
    d = W.SCRATCH / "names"
    shutil.rmtree(d, ignore_errors=True)
    (d / "in").mkdir(parents=True)
    (d / "out").mkdir()
    name = txt(c["cp"])
    # the wheel claims the label that its name would carry if it is a variant
    parts = name.removesuffix(".whl").split("-")
    label = parts[-1]
    desc = {} if label == "null" else {"a": {"b": ["1"]}}
    doc = {"$schema": "x", "default-priorities": {"namespace": ["a"]}, "providers": {"a": {"requires": ["x"]}},
           "variants": {label: desc}}
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        z.writestr("p.py", "x=1\n")
        z.writestr("p-1.dist-info/METADATA", "Name: p\n")
        z.writestr("p-1.dist-info/variant.json", json.dumps(doc))
        z.writestr("p-1.dist-info/RECORD", "p.py,,\np-1.dist-info/variant.json,,\np-1.dist-info/RECORD,,\n")
    path = d / "in" / name
    try:
        path.write_bytes(buf.getvalue())
    except OSError:
        return {"unmake": {"kind": "invalid", "base": []}, "analyze": "error"}, {"cp": [], "label": []}
    with B.quiet():
        o = B.call(lambda: main(["unmake-variant", "-f", str(path), "-o", str(d / "out")]))
    made = sorted(p.name for p in (d / "out").iterdir())
    if not o["ok"]:
        um = {"kind": "invalid" if not made else "left-" + "+".join(made), "base": []}
    elif not made:
        um = {"kind": "plain", "base": []}
    else:
        um = {"kind": "variant" if len(made) == 1 else "many", "base": cps(made[0])}
    with B.quiet() as (so, _):
        o = B.call(lambda: main(["analyze-wheel", "-i", str(path)]))
    an = "error" if not o["ok"] else "variant" if "Label" in so.getvalue() or "####" in so.getvalue() else "plain"
    shutil.rmtree(d, ignore_errors=True)
    return {"unmake": um, "analyze": an}, {"cp": c["cp"], "label": cps(label)}


def execute(s):
    out = [_exec(c) for c in s["calls"]]
    return [e for e in out if e is not None]


# --------------------------------------------------------------- attribution
def properties_of(clause, e):
    op = e["op"]
    own = {"parse": {"C09"}, "make": {"C09"}, "desc": {"C08"}, "baddesc": {"C08", "C09"}, "cli": {"C08"}, "label": {"C10"},
           "name": {"C10"}, "env": {"C11"}}[op]
    if clause in ("inputs-unchanged", "repeatable"):
        return own | {"C07"}
    if clause == "dict-round-trip":
        return {"C09"}
    if op == "cli" and clause in ("malformed-text-refused", "wellformed-text-accepted"):
        return {"C08", "C09"}
    return own


def corrupt(e):
    e = json.loads(json.dumps(e))
    o, op = e["out"], e["op"]
    if op == "parse":
        e["out"] = {"ok": False, "exc": "ValidationError"} if o["ok"] else {
            "ok": True, "val": {"parts": [[97], [98], [99]], "text": [], "again": True, "deser": True}}
    elif op == "make":
        e["out"] = {"ok": False, "exc": "ValidationError"} if o["ok"] else {"ok": True, "val": []}
    elif op == "desc" and o["ok"]:
        o["val"]["hash"] = o["val"]["hash"][::-1] + "0"
    elif op == "cli" and o["ok"]:
        o["out"] = o["out"][:-2] + "\n"
    elif op == "label" and o["ok"]:
        o["cp"], o["val"] = o["cp"][1:], o["val"][1:]
    elif op == "name":
        o["unmake"]["kind"] = {"plain": "variant", "variant": "plain"}.get(o["unmake"]["kind"], "plain")
    elif op == "env" and o["ok"] and o["val"]["ns"]:
        o["val"]["ns"] = o["val"]["ns"][1:]
    else:
        return None
    return e
