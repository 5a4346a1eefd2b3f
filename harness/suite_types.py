"""Values against declared types, models, keys, and the resolver's arguments (spec: Types, TypesM, TraceTypes)."""
from __future__ import annotations

import json
import random

TRACE = "TraceTypes"
MODEL_CAP = {"quick": 12078, "thorough": 60000}

NAMES = ["a", "b", "aa", "a_", "0", "_", "n_1", "x86_64", "z"]
VALS = NAMES + ["1.0", "1", ".", "v1.2.3"]
BADNAMES = ["", "A", "a b", "a-b", "a.b", "a\n", "é", " a", "a::b", "a/b"]
BADVALS = ["", "A", "a b", "a-b", "a\n", "é", " 1", "1+2", "1,2"]
SEQ = ["list", "listsub", "tuple", "set", "frozenset", "gen", "deque"]
TEXTY = ("str", "strsub", "bytes")
LEAVES = ["int", "intsub", "bool", "none", "float"]


def cps(s):
    return [ord(c) for c in s]


# ------------------------------------------------------------------- values
def S(x, t="str"):
    return {"t": t, "cp": cps(x)}


def L(xs, t="list"):
    return {"t": t, "xs": list(xs)}


def D(kv, t="dict"):
    return {"t": t, "kv": [list(p) for p in kv]}


def _prop(r, t="prop"):
    few = r.random() < .7
    a = [r.choice(["a", "b", "a_"] if few else NAMES), r.choice(["f", "ff", "f1"] if few else NAMES),
         r.choice(["1", "1.0", "10"] if few else VALS)]
    return {"t": t, "a": a[:2] if t == "feat" else a}


def _uniq(xs):
    res, seen = [], set()
    for x in xs:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


def _leaf(r):
    x = r.random()
    if x < .35:
        return S(r.choice(VALS + BADVALS[1:]), r.choice(["str", "str", "str", "strsub", "bytes"]) if r.random() < .5 else "str")
    if x < .7:
        return {"t": r.choice(LEAVES)}
    return _model(r)


def _model(r):
    k = r.choice(["prop", "prop", "propsub", "feat", "feat", "desc", "descsub", "fcfg", "fcfgsub", "duck", "pcfg", "object", "class"])
    if k in ("prop", "propsub", "feat"):
        return _prop(r, k)
    if k in ("desc", "descsub"):
        return {"t": k, "a": sorted(p["a"] for p in _uniq([_prop(r) for _ in range(r.choice([0, 1, 2]))]))}
    if k in ("fcfg", "fcfgsub", "duck"):
        return _fcfg(r, k)
    return {"t": k}


def _fcfg(r, t="fcfg"):
    return {"t": t, "name": r.choice(["f", "ff", "f1"] if r.random() < .5 else NAMES),
            "vals": r.sample(VALS, r.choice([1, 1, 2, 3])), "mv": r.random() < .5}


HASHABLE = ("str", "strsub", "bytes", "int", "intsub", "bool", "none", "float", "prop", "propsub", "feat", "tuple", "frozenset", "class", "object")


def _hashable(v):
    return v["t"] in HASHABLE and all(map(_hashable, v.get("xs", [])))


def _eqkey(v):
    """Values that compare equal in Python have the same key."""
    if v["t"] in ("str", "strsub"):
        return ["s", v["cp"]]
    return v


def _settle(v):
    """Make a tree buildable: elements of sets and keys have to be hashable and different."""
    if "xs" in v:
        xs = [_settle(x) for x in v["xs"]]
        if v["t"] in ("set", "frozenset"):
            seen, ys = set(), []
            for x in xs:
                k = json.dumps(_eqkey(x), sort_keys=True)
                if _hashable(x) and k not in seen:
                    seen.add(k)
                    ys.append(x)
            xs = ys
        return {**v, "xs": xs}
    if "kv" in v:
        seen, ys = set(), []
        for k, w in v["kv"]:
            k = _settle(k)
            key = json.dumps(_eqkey(k), sort_keys=True)
            if _hashable(k) and key not in seen:
                seen.add(key)
                ys.append([k, _settle(w)])
        return {**v, "kv": ys}
    return v


# -------------------------------------------------------------------- types
def T(k, **kw):
    return {"k": k, **kw}


STR = T("str")
NAMEL = T("listof", of=STR)


def _type(r, depth=2):
    x = r.random()
    if depth == 0 or x < .3:
        return T(r.choice(["str", "str", "int", "bool", "none", "float", "bytes", "prop", "feat", "desc", "fcfg", "proto", "list", "dict",
                           "iter", "tuple", "set"]))
    sub = lambda: T("any") if r.random() < .08 else _type(r, depth - 1)  # noqa: E731
    if x < .6:
        return T("listof", of=sub())
    if x < .68:
        return T("setof", of=T(r.choice(["str", "int", "prop", "any"])))
    if x < .76:
        return T("iterof", of=sub())
    key = r.choice([STR, STR, STR, T("any"), T("prop"), T("int")])
    return T("dictof", key=key, val=sub())


def _of(r, t, text=None):
    """A value that conforms to t (most of the time)."""
    k = t["k"]
    n = r.choice([0, 1, 1, 2, 2, 3])
    if k == "any":
        return _leaf(r)
    if k == "str":
        return S(r.choice(text or VALS), "strsub" if r.random() < .05 else "str")
    if k == "bytes":
        return S("ab", "bytes")
    if k in ("listof", "iterof", "setof"):
        c = {"listof": ["list"] * 8 + ["listsub"], "iterof": SEQ + ["dict"], "setof": ["set"]}[k]
        c = r.choice(c)
        xs = [_of(r, t["of"], text) for _ in range(n)]
        return D([(x, {"t": "int"}) for x in xs]) if c == "dict" else L(xs, c)
    if k == "dictof":
        return D([(_of(r, t["key"], text), _of(r, t["val"], text)) for _ in range(n)], r.choice(["dict"] * 6 + ["dictsub"]))
    if k in ("list", "tuple", "set"):
        return L([_leaf(r) for _ in range(n)], k)
    if k == "dict":
        return D([(_leaf(r), _leaf(r)) for _ in range(n)])
    if k == "iter":
        return r.choice([L([_leaf(r)], r.choice(SEQ)), S("ab"), D([])])
    if k in ("prop", "feat"):
        return _prop(r, k)
    if k == "desc":
        return {"t": "desc", "a": sorted(p["a"] for p in _uniq([_prop(r) for _ in range(r.choice([0, 1, 2]))]))}
    if k in ("fcfg", "proto"):
        return _fcfg(r, "fcfg" if k == "fcfg" else r.choice(["fcfg", "fcfgsub", "duck"]))
    if k == "opt":
        return {"t": "none"} if r.random() < .25 else _of(r, t["of"], text)
    return {"t": k}


def _nodes(v, path=()):
    yield path
    for i, x in enumerate(v.get("xs", [])):
        yield from _nodes(x, (*path, ("xs", i)))
    for i, (k, w) in enumerate(v.get("kv", [])):
        yield from _nodes(k, (*path, ("kv", i, 0)))
        yield from _nodes(w, (*path, ("kv", i, 1)))


def _replace(v, path, f):
    if not path:
        return f(v)
    h = path[0]
    if h[0] == "xs":
        xs = list(v["xs"])
        xs[h[1]] = _replace(xs[h[1]], path[1:], f)
        return {**v, "xs": xs}
    kv = [list(p) for p in v["kv"]]
    kv[h[1]][h[2]] = _replace(kv[h[1]][h[2]], path[1:], f)
    return {**v, "kv": kv}


def _perturb(r, v, lazy=True):
    """Change one node of a tree: another class, another value, wrapped or emptied."""
    def f(x):
        y = r.random()
        if x["t"] in SEQ and y < .55:
            return {**x, "t": r.choice([c for c in SEQ if c != x["t"] and (lazy or c != "gen")])}
        if "kv" in x and y < .4:
            return r.choice([{**x, "t": "dictsub"}, L([k for k, _ in x["kv"]]), L([L(p) for p in x["kv"]])])
        if x["t"] in ("str", "strsub") and y < .3:
            return r.choice([{**x, "t": "strsub"}, {**x, "t": "bytes"}, L([x])])
        if x["t"] in ("prop", "desc", "fcfg") and y < .5:
            return r.choice([{**x, "t": x["t"] + "sub"}, L([x], r.choice(["list", "tuple"]))] + (
                [{"t": "feat", "a": x["a"][:2]}, S(" :: ".join(x["a"]))] if x["t"] == "prop" else [{**x, "t": "duck"}] if x["t"] == "fcfg" else
                [L([{"t": "prop", "a": a} for a in x["a"]])]))
        if x["t"] == "feat" and y < .5:
            return r.choice([{"t": "prop", "a": [*x["a"], "1"]}, S(" :: ".join(x["a"]))])
        if y < .75:
            return _leaf(r)
        return L([x], r.choice(["list", "tuple"])) if y < .85 else r.choice([{"t": "none"}, L([]), D([]), S("")])
    ps = list(_nodes(v))
    # prefer deep nodes, the last element as well as the first
    return _replace(v, r.choice(ps), f)


# --------------------------------------------------------------- generation
def _type_call(r):
    t = _type(r, r.choice([1, 2, 2, 3]))
    v = _of(r, t)
    for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
        v = _perturb(r, v)
    if r.random() < .05:
        v = _leaf(r)
    if r.random() < .012:         # many items, perhaps one of them wrong
        el = r.choice([STR, T("prop"), NAMEL])
        xs = [_of(r, el) for _ in range(r.choice([16, 33, 65, 101, 130]))]
        if r.random() < .7:
            k = r.choice([0, 1, len(xs) // 2, len(xs) - 2, len(xs) - 1, r.randrange(len(xs))])
            xs[k] = _perturb(r, xs[k]) if r.random() < .5 else _leaf(r)
        v, t = L(xs, "list"), T("listof", of=el)
        if r.random() < .2:
            v, t = D([(S(f"k{i}"), x) for i, x in enumerate(xs)]), T("dictof", key=STR, val=el)
    c = {"op": "type", "v": _settle(v), "T": t}
    if c["v"]["t"] in ("list", "dict") and r.random() < .3:
        # the same object is changed and handed in again
        c["then"] = _settle(_perturb(r, v if r.random() < .6 else _of(r, t)))
        if c["then"]["t"] != c["v"]["t"]:
            del c["then"]
    return c


def _badtext(r, v, bad):
    """Replace one text of a tree."""
    ps = []
    for p in _nodes(v):
        x = v
        for h in p:
            x = x["xs"][h[1]] if h[0] == "xs" else x["kv"][h[1]][h[2]]
        if x["t"] == "str":
            ps.append(p)
    return _replace(v, r.choice(ps), lambda x: S(r.choice(bad))) if ps else v


FP = T("dictof", key=STR, val=NAMEL)
PP = T("dictof", key=STR, val=FP)


def _model_call(r):
    m = r.choice(["fcfg", "fcfg", "pcfg", "pcfg", "vcfg", "vcfg", "desc"])
    toml = False
    if m == "fcfg":
        args = [S(r.choice(NAMES)), L([S(x) for x in r.sample(VALS, r.choice([1, 1, 2, 3, 5]))]), {"t": "bool"}]
        bad = [BADNAMES, BADVALS, BADVALS]
    elif m == "pcfg":
        fs = [_fcfg(r) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < .7:
            for f, nm in zip(fs, r.sample(NAMES, len(fs))):
                f["name"] = nm
        args = [S(r.choice(NAMES)), L(fs)]
        bad = [BADNAMES, BADVALS]
    elif m == "vcfg":
        args = [_of(r, NAMEL, NAMES), _of(r, FP, NAMES), _of(r, PP, NAMES)]
        bad = [BADNAMES, BADNAMES, BADNAMES]
        toml = r.random() < .4
        if toml:
            args = [{"t": "none"} if r.random() < .3 else a for a in args]
    else:
        args = [L(_uniq([_prop(r) for _ in range(r.choice([0, 1, 2, 3]))]), r.choice(SEQ))]
        bad = [BADVALS]
    x = r.random()
    k = r.randrange(len(args))
    if x < .3:
        args[k] = _perturb(r, args[k], lazy=m == "desc")
    elif x < .55:
        args[k] = _badtext(r, args[k], bad[k])
    elif x < .7 and args[k].get("xs"):
        xs = args[k]["xs"]
        d = dict(r.choice(xs))
        if d["t"] == "fcfg":
            d["vals"] = r.sample(VALS, 2)
        elif d["t"] == "str" and r.random() < .3:
            d["t"] = "strsub"
        xs.insert(r.randrange(len(xs) + 1), d)
    elif x < .78 and args[k].get("xs"):
        args[k]["xs"] = []
    return {"op": "model", "m": m, "toml": toml, "args": [_settle(a) for a in args]}


LONG = ["feature_one", "feature_two", "feature_three", "feature_onf", "feature_on", "x86_64_v1", "x86_64_v2", "x86_64_v3"]


def _compare(r):
    c = _compare0(r)
    if r.random() < .3:
        for v in (c["x"], c["y"]):
            for k in range(len(v["a"])):
                if k == 1 or r.random() < .3:
                    v["a"][k] = r.choice(LONG)
    return c


def _compare0(r):
    a = _prop(r, r.choice(["prop", "prop", "feat"]))
    b = json.loads(json.dumps(a)) if r.random() < .6 else _prop(r, r.choice(["prop", "prop", "feat"]))
    x = r.random()
    if x < .5:
        k = r.randrange(len(b["a"]))
        b["a"][k] = r.choice([b["a"][k] + "_", "_" + b["a"][k], "a", "b", "1", "10", "f", b["a"][k][:1], b["a"][k]])
    elif x < .6:
        b = {"t": "feat", "a": b["a"][:2]} if b["t"] == "prop" else {"t": "prop", "a": [*b["a"], "1"]}
    return {"op": "compare", "x": a, "y": b}


PROPL, FEATL = T("listof", of=T("prop")), T("listof", of=T("feat"))
DESCS, DESCL = T("iterof", of=T("desc")), T("listof", of=T("desc"))
opt = lambda t: T("opt", of=t)  # noqa: E731
SIG = {
    "remove_duplicates": [DESCS],
    "filter_variants_by_namespaces": [DESCS, opt(NAMEL)],
    "filter_variants_by_features": [DESCS, opt(FEATL)],
    "filter_variants_by_property": [DESCS, PROPL, opt(PROPL)],
    "filter_variants": [DESCL, PROPL, opt(NAMEL), opt(FEATL), opt(PROPL)],
    "sort_variant_properties": [PROPL, NAMEL, opt(FP), opt(PP)],
    "sort_variants_descriptions": [DESCL, PROPL],
    "get_namespace_priorities": [T("prop"), NAMEL],
    "get_feature_priorities": [T("prop"), opt(FP)],
    "get_property_priorities": [T("prop"), opt(PP)],
    "sort_and_filter_supported_variants": [DESCL, PROPL, opt(NAMEL), opt(FP), opt(PP), opt(NAMEL), opt(FEATL), opt(PROPL)],
}
WORDS = ["a", "b", "a_", "f", "ff", "f1", "1", "1.0", "10"]


def _call(r):
    f = r.choice(list(SIG))
    args = [_of(r, t, WORDS) for t in SIG[f]]
    if r.random() < .65:
        k = r.randrange(len(args))
        args[k] = _perturb(r, args[k]) if r.random() < .8 or SIG[f][k]["k"] != "opt" else _perturb(r, _of(r, SIG[f][k]["of"], WORDS))
    return {"op": "call", "f": f, "args": [_settle(a) for a in args]}


KINDS = {"C33": [(_type_call, 4), (_model_call, 4), (_compare, 2), (_call, 3)]}
COUNT = {"quick": 30000, "thorough": 150000}


def generate(prop, seed, tier):
    r = random.Random(f"{seed}/types/{prop}")
    makers = [m for m, w in KINDS[prop] for _ in range(w)]
    return [{"id": ["rand", i], "calls": [r.choice(makers)(r) for _ in range(3)]} for i in range(COUNT[tier] // 3)]


def from_model(items):
    return [{"id": ["model", i], "calls": [{"op": "type", "v": m["v"], "T": m["T"]}], "want": m["verdict"]} for i, m in enumerate(items)]


def agrees(s, m):
    e = m["ev"][0]
    return e["mut"] == [] and e["rep"] and (e["out"]["ok"] if s["want"] == "yes" else e["out"].get("exc") == "ValidationError")


# ------------------------------------------------------------------ execution
_cls: dict = {}


def setup():
    import collections
    import logging
    logging.disable(logging.CRITICAL)
    from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
    from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
    import world
    world.dists([])
    mk = lambda n, b: type(n, (b,), {})  # noqa: E731
    _cls.update(str=str, strsub=mk("S", str), listsub=mk("L", list), intsub=mk("I", int), dictsub=collections.OrderedDict,
                prop=VariantProperty, propsub=mk("P", VariantProperty), feat=VariantFeature, desc=VariantDescription,
                descsub=mk("Ds", VariantDescription), fcfg=VariantFeatureConfig, fcfgsub=mk("F", VariantFeatureConfig), pcfg=ProviderConfig)


def _build(v):
    import collections
    import types
    t = v["t"]
    if t in ("str", "strsub"):
        s = "".join(map(chr, v["cp"]))
        return s if t == "str" else _cls[t](s)
    if t == "bytes":
        return bytes(c % 256 for c in v["cp"])
    if "xs" in v:
        xs = [_build(x) for x in v["xs"]]
        return {"list": list, "listsub": _cls["listsub"], "tuple": tuple, "set": set, "frozenset": frozenset, "gen": lambda x: (i for i in x),
                "deque": collections.deque}[t](xs)
    if "kv" in v:
        d = {} if t == "dict" else _cls[t]()
        d.update((_build(k), _build(w)) for k, w in v["kv"])
        return d
    if t in ("prop", "propsub", "feat"):
        return _cls[t](*v["a"])
    if t in ("desc", "descsub"):
        return _cls[t]([_cls["prop"](*a) for a in v["a"]])
    if t in ("fcfg", "fcfgsub"):
        return _cls[t](name=v["name"], values=list(v["vals"]), multi_value=v["mv"])
    if t == "duck":
        return types.SimpleNamespace(name=v["name"], values=list(v["vals"]), multi_value=v["mv"])
    if t == "pcfg":
        return _cls[t]("a", [_cls["fcfg"]("f", ["1"], False)])
    return {"int": 7, "intsub": _cls["intsub"](9), "bool": True, "none": None, "float": 1.5, "object": _OBJECT, "class": VariantLike}[t]


class VariantLike:
    """A class, or its instance, handed in place of a value."""

    def __deepcopy__(self, memo):
        return self


_OBJECT = VariantLike()


def _typ(t):
    import collections.abc as abc
    from typing import Any
    from variantlib.protocols import VariantFeatureConfigType
    k = t["k"]
    if k == "any":
        return Any
    if k == "listof":
        return list[_typ(t["of"])]
    if k == "setof":
        return set[_typ(t["of"])]
    if k == "iterof":
        return abc.Iterable[_typ(t["of"])]
    if k == "dictof":
        return dict[_typ(t["key"]), _typ(t["val"])]
    return {"str": str, "int": int, "bool": bool, "none": type(None), "float": float, "bytes": bytes, "list": list, "dict": dict,
            "iter": abc.Iterable, "tuple": tuple, "set": set, "proto": VariantFeatureConfigType, **_cls}[k]


def _lazy(v):
    return v["t"] == "gen" or any(map(_lazy, v.get("xs", []))) or any(_lazy(w) for _, w in v.get("kv", []))


def _watch(B, vs, args):
    return B.Watch(**{f"a{i}": a for i, (v, a) in enumerate(zip(vs, args)) if not _lazy(v)})


def _models():
    from variantlib.models.configuration import VariantConfiguration
    return {"fcfg": (_cls["fcfg"], ["name", "values", "multi_value"]), "pcfg": (_cls["pcfg"], ["namespace", "configs"]),
            "vcfg": (VariantConfiguration, ["namespace_priorities", "feature_priorities", "property_priorities"]),
            "desc": (_cls["desc"], ["properties"])}


def _frozen(o, fields):
    import dataclasses
    before = repr(o)
    for f in fields:
        for act in (lambda: setattr(o, f, getattr(o, f)), lambda: setattr(o, f, None), lambda: delattr(o, f)):
            try:
                act()
            except dataclasses.FrozenInstanceError:
                continue
            return False
    return repr(o) == before


def _exec(c):
    import copy
    import base as B
    op = c["op"]
    mut, rep = [], True
    if op == "type":
        from variantlib.validators.base import validate_type
        inp = {"v": c["v"], "T": c["T"]}

        def once():
            v, t = _build(c["v"]), _typ(c["T"])
            w = _watch(B, [c["v"]], [v])
            o = B.call(lambda: validate_type(v, t))
            return {k: o[k] for k in ("ok", "exc") if k in o}, w.changed()
    elif op == "model":
        inp = {"m": c["m"], "toml": c["toml"], "args": c["args"]}
        cls, fields = _models()[c["m"]]

        def once():
            args = [_build(a) for a in c["args"]]
            w = _watch(B, c["args"], args)
            if c["toml"]:
                o = B.call(lambda: cls.from_toml_config(**{f: a for i, (f, a) in enumerate(zip(fields, args)) if a is not None or i % 2}))
            else:
                o = B.call(lambda: cls(**dict(zip(fields, args))))
            if not o["ok"]:
                return {"ok": False, "exc": o["exc"]}, w.changed()
            v = o["val"]
            try:
                B.need(type(v) is cls)
                empty = [[], {}, {}]
                given = c["m"] == "desc" or all(getattr(v, f) == (a if a is not None else empty[i]) for i, (f, a) in enumerate(zip(fields, args)))
                val = {"given": given, "frozen": _frozen(v, fields), "equal": v == copy.deepcopy(v), "written": True, "props": []}
                if c["m"] == "desc":
                    B.need(type(v.properties) is list)
                    val["props"] = B.desc(v)
                elif c["m"] == "pcfg":
                    flat = lambda: [[str(B.need(isinstance(x, str)) or x) for x in (p.namespace, p.feature, p.value)]  # noqa: E731
                                    for p in v.to_list_of_properties() if B.need(type(p) is _cls["prop"]) is None]
                    val["props"] = flat()
                    val["written"] = val["props"] == flat()
                elif c["m"] == "vcfg":
                    d = v.to_dict()
                    val["written"] = d == {f: getattr(v, f) for f in fields} and cls.from_toml_config(**d) == v and cls(**d) == v
                return {"ok": True, "val": val}, w.changed()
            except (B.BadShape, AttributeError, TypeError) as e:
                return {"ok": False, "exc": f"BadShape: {e}"[:200]}, w.changed()
    elif op == "compare":
        inp = {"x": c["x"], "y": c["y"]}

        def once():
            from variantlib.models.variant import VariantFeature
            x, y = _build(c["x"]), _build(c["y"])

            def less(a, b):
                try:
                    return "yes" if a < b else "no"
                except TypeError:
                    return "error"

            def feature(v):
                return v.feature_object if c["x"]["t"] == "prop" and v is x or c["y"]["t"] == "prop" and v is y else v

            def go():
                fx, fy = feature(x), feature(y)
                B.need(type(fx) is VariantFeature and type(fy) is VariantFeature)
                both = c["x"]["t"] == c["y"]["t"] == "prop"
                return {"eq": x == y, "ne": x != y, "hasheq": hash(x) == hash(y), "lt": less(x, y), "gt": less(y, x),
                        "feateq": x.feature_hash == y.feature_hash, "featobj": "yes" if fx == fy else "no",
                        "propeq": both and x.property_hash == y.property_hash}
            w = B.Watch(x=x, y=y)
            o = B.call(go)
            return {k: o[k] for k in ("ok", "val", "exc") if k in o}, w.changed()
    else:
        import importlib
        inp = {"f": c["f"], "args": c["args"]}
        mod = {"r": "filtering", "f": "filtering", "g": "sorting", "s": "sorting"}[c["f"][0]]
        if c["f"] in ("filter_variants", "sort_and_filter_supported_variants"):
            mod = "lib"
        fn = getattr(importlib.import_module(f"variantlib.resolver.{mod}"), c["f"])

        def once():
            args = [_build(a) for a in c["args"]]
            w = _watch(B, c["args"], args)

            def go():
                got = fn(*args)
                if c["f"].startswith("get_"):
                    B.need(type(got) is int)
                    return got if got < 1 << 30 else -1
                return len(list(got))
            o = B.call(go)
            return {k: o[k] for k in ("ok", "val", "exc") if k in o}, w.changed()
    out, mut = once()
    again, mut2 = once()
    return {"op": op, "in": inp, "out": out, "mut": sorted(set(mut + mut2)), "rep": out == again}


def _again(c):
    """A value is validated, changed in place, and validated again."""
    import base as B
    from variantlib.validators.base import validate_type
    v, t = _build(c["v"]), _typ(c["T"])
    res = []
    for k in ("v", "then"):
        if k == "then":
            w = _build(c[k])
            v.clear()
            v.extend(w) if isinstance(v, list) else v.update(w)
            del w
        wt = _watch(B, [c[k]], [v])
        o = B.call(lambda: validate_type(v, t))
        res.append({"op": "type", "in": {"v": c[k], "T": c["T"]}, "out": {x: o[x] for x in ("ok", "exc") if x in o}, "mut": wt.changed(),
                    "rep": True})
    return res


def execute(s):
    return [e for c in s["calls"] for e in (_again(c) if "then" in c else [_exec(c)])]


# --------------------------------------------------------------- attribution
def properties_of(clause, e):
    return {"C33"}


def corrupt(e):
    e = json.loads(json.dumps(e))
    o, op = e["out"], e["op"]
    if op in ("type", "call"):
        if op == "call" and (o["ok"] or e["in"]["f"].startswith("sort")):
            return None
        e["out"] = {"ok": False, "exc": "ValidationError"} if o["ok"] else {"ok": True, "val": 0}
    elif op == "model":
        if o["ok"]:
            o["val"]["frozen"] = False
        else:
            e["out"] = {"ok": True, "val": {"given": True, "frozen": True, "equal": True, "written": True, "props": [["a", "a", "a"]]}}
    elif op == "compare" and o["ok"]:
        o["val"]["eq"] = not o["val"]["eq"]
    else:
        return None
    return e
