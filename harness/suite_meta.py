"""Variant metadata objects: reading, writing, converting, merging (spec: Meta, TraceMeta)."""
from __future__ import annotations

import copy
import json
import random

TRACE = "TraceMeta"
MODEL_CAP = {"quick": 7000, "thorough": 60000}

NSS = ["a", "b", "c", "n_1"]
FEATS = ["f", "g", "f1", "x_"]
VALS = ["1", "2", "1.0", "v", "x.y_z"]
REQS = ["pkg", "pkg >=1.0", "foo-bar[x]==1.2", "Foo.Bar", "a_b-c >1,<2", "q @ https://x.y/z.whl", "p; python_version > '3'", "z9",
        "pkg>=1.0", "pkg  >= 1.0", "PKG", " pkg ", "a.b", "pkg[B,a]", "pkg ; extra == 'x'", "pkg==1.0.0"]
APIS = ["m", "m.n", "m:o", "pkg.mod : Cls.attr", "m :o", "_x:Y9", "A.B", "m : o", "m:  o", "M.N:o"]
MARKS = ["python_version >= '3'", "os_name == 'x' and platform_machine != 'y'", "x", "os_name  ==  'x'", " x", "x ", "os_name=='x'",
         'os_name == "x"', "os_name == ' x  y '", "OS_NAME == 'X'", "(x)", "x  or  y", "x\ty", "x\n", "ünï", "True", "0", "null"]
LABELS = ["x", "x.1", "0a", "_", "abcdefghijklmnop", "v2", "null"]


# ------------------------------------------------------------------ trees
def S(x):
    return ["s", x]


def D(pairs):
    return ["d", [[k, v] for k, v in pairs]]


def strs(xs):
    return ["l", [S(x) for x in xs]]


def untag(t):
    k = t[0]
    if k in ("s", "b", "i"):
        return t[1]
    if k == "z":
        return None
    if k == "f":
        return 1.5
    if k == "l":
        return [untag(x) for x in t[1]]
    return {a: untag(b) for a, b in t[1]}


def tag(x):
    if isinstance(x, bool):
        return ["b", x]
    if isinstance(x, str):
        return ["s", x]
    if isinstance(x, int):
        return ["i", x]
    if x is None:
        return ["z"]
    if isinstance(x, float):
        return ["f"]
    if isinstance(x, list):
        return ["l", [tag(i) for i in x]]
    return ["d", [[k, tag(v)] for k, v in x.items()]]


# -------------------------------------------------------------- generation
MORE = {id(NSS): [f"ns{i}" for i in range(20)], id(FEATS): [f"feat{i}" for i in range(20)],
        id(VALS): [f"{i}.val" for i in range(3, 40)] + ["v" * 300], id(REQS): [f"dep{i} >={i}" for i in range(40)] + ["dep" + "x" * 300],
        id(LABELS): [f"label.{i}" for i in range(40)]}


def _some(r, xs, lo=0, hi=3):
    if getattr(r, "big", False) and r.random() < .3:      # one of the few documents of unusual size
        k = min(r.choice([8, 12, 20, 33]), r.big)
        r.big = max(3, r.big - k)
        xs = xs + MORE.get(id(xs), [])
        return r.sample(xs, min(len(xs), hi + k))
    return r.sample(xs, min(len(xs), r.randint(lo, hi)))


def _features(r, lo=0):
    return D([(f, strs(_some(r, VALS, lo and 1))) for f in _some(r, FEATS, lo, 3)])


def gen_common(r, kind):
    nss = _some(r, NSS, 0, 3)
    provs, static, feat = [], [], {}
    for n in nss:
        e = []
        inst = r.random() < .65
        req = _some(r, REQS, 1, 2) if inst or r.random() < .4 else []
        if req and r.random() < .15:          # the same one twice
            req.insert(r.randint(0, len(req)), r.choice(req))
        if req or r.random() < .2:
            e.append(("requires", strs(req)))
        if not inst:
            e.append(("install-time", ["b", False]))
        elif r.random() < .2:
            e.append(("install-time", ["b", True]))
        if r.random() < .3:
            e.append(("optional", ["b", r.random() < .7]))
        if r.random() < .4:
            e.append(("plugin-api", S(r.choice(APIS))))
        if r.random() < .3:
            e.append(("enable-if", S(r.choice(MARKS))))
        if r.random() < .05:
            e.append((r.choice(["plugin-api", "enable-if"]), ["z"])) if not any(k in ("plugin-api", "enable-if") for k, _ in e) else None
        r.shuffle(e)
        provs.append((n, D(e)))
        if not inst and (kind != "pyproject" or not req):
            fs = _features(r, 1)
            static.append((n, fs))
            if len(fs[1]) > 1:
                feat[n] = r.sample([k for k, _ in fs[1]], len(fs[1])) + (["zz"] if r.random() < .2 else [])
        elif r.random() < .02:       # says nothing
            static.append((n, D([("f", strs([]))] if r.random() < .3 else [])))
    for n in _some(r, NSS, 0, 2):
        feat.setdefault(n, _some(r, FEATS, 0, 3))
    prio = [("namespace", strs(r.sample(nss, len(nss)) + (nss[:1] if r.random() < .05 else [])))]
    if not nss and r.random() < .5:
        prio = []
    if feat or r.random() < .1:
        prio.append(("feature", D([(n, strs(f)) for n, f in feat.items()])))
    if r.random() < .5:
        prio.append(("property", D([(n, _features(r)) for n in _some(r, NSS, 0, 2)])))
    body = []
    if prio or r.random() < .5:
        body.append(("default-priorities", D(prio)))
    if provs or r.random() < .5:
        body.append(("providers", D(provs)))
    if static or r.random() < .1:
        body.append(("static-properties", D(static)))
    return body


def gen_desc(r):
    t = []
    for n in _some(r, NSS, 1, 2):
        t.append((n, D([(f, strs(_some(r, VALS, 1, 3))) for f in _some(r, FEATS, 1, 2)])))
    if r.random() < .15:
        t.append(("e", D([] if r.random() < .5 else [("f", strs([]))])))
    return D(t)


def gen_variants(r, n):
    out = []
    for lab in (_some(r, LABELS, n, n) if n > 1 else r.sample(LABELS, n)):
        out.append((lab, D([] if r.random() < .7 else [("a", D([]))]) if lab == "null" else gen_desc(r)))
    return D(out)


def wrap(kind, body, r):
    if kind == "pyproject":
        return D([("project", D([])), ("variant", D(body))] if r.random() < .8 or body else [])
    if r.random() < .7:
        body = [("$schema", S("x")), *body]
    r.shuffle(body)
    return D(body)


def gen_doc(r, kind):
    body = gen_common(r, kind)
    if kind != "pyproject":
        body.append(("variants", gen_variants(r, 1 if kind == "dist" else r.choice([0, 1, 2, 3]))))
    return wrap(kind, body, r)


def _paths(t, at=()):
    yield at
    if t[0] == "l":
        for i, x in enumerate(t[1]):
            yield from _paths(x, (*at, i))
    elif t[0] == "d":
        for i, (_, x) in enumerate(t[1]):
            yield from _paths(x, (*at, i))


def _at(t, p):
    for i in p:
        t = t[1][i] if t[0] == "l" else t[1][i][1]
    return t


REPL = [["z"], ["i", 0], ["i", 1], ["f"], ["b", True], ["b", False], S(""), S("a"), S("A"), S("a b"), S("1.0"), S("x\ny"), S("f\n"), S(" a"),
        S("a-b"), S("a:b:c"), S("null"), S("abcdefghijklmnopq"), S(":"), S("m:"), ["l", []], strs(["a"]), strs(["1", "1"]), ["l", [["i", 1]]],
        ["l", [["l", []]]], D([]), D([("a", strs(["1"]))]), D([("f", S("1"))]), D([("a", D([("f", strs(["1", "1"]))]))])]
KEYS = ["a", "b", "c", "d", "A", "a-b", "a.b", "", "null", "x", "feature", "namespace", "requires", "optional", "plugin-api", "enable-if",
        "install-time", "enable_if", "variants", "static-properties", "default-priorities", "providers", "variant", "extra", "abcdefghijklmnopq"]


def mutate(r, t):
    t = copy.deepcopy(t)
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        ps = list(_paths(t))
        p = r.choice(ps)
        u = _at(t, p)
        x = r.random()
        if x < .4 or not p:
            if p or r.random() < .1:
                u[:] = copy.deepcopy(r.choice(REPL))
        elif x < .6 and u[0] in "ld" and u[1]:
            u[1].pop(r.randrange(len(u[1])))
        elif x < .8 and u[0] == "d":
            k = r.choice(KEYS)
            if k not in [a for a, _ in u[1]]:
                u[1].append([k, copy.deepcopy(r.choice(REPL + [_at(t, q) for q in r.sample(ps, min(3, len(ps)))]))])
        elif x < .9 and u[0] == "d" and u[1]:
            k = r.choice(KEYS)
            if k not in [a for a, _ in u[1]]:
                u[1][r.randrange(len(u[1]))][0] = k
        elif u[0] == "l":
            u[1].insert(r.randrange(len(u[1]) + 1), copy.deepcopy(r.choice(REPL + [S("a"), S("f"), S("g"), S("b")])))
        elif u[0] == "s":
            i = r.randint(0, len(u[1]))
            u[1] = r.choice([u[1] + "\n", " " + u[1], u[1].upper(), u[1] + u[1], u[1] + "-", u[1] + ".", u[1] + "_", u[1] + " "]
                            + [u[1][:i] + r.choice("\t\t\n\r\f -:") + u[1][i:]] * 8)
    return t


NOEXP = {"has": False, "v": ""}


def _shuffle(r, t):
    """The same document with its mappings written in another order."""
    if t[0] == "d":
        es = [(k, _shuffle(r, x)) for k, x in t[1]]
        r.shuffle(es)
        return D(es)
    return t


def _tweak(r, body):
    """One difference that leaves the document valid."""
    b = {k: [list(p) for p in x[1]] for k, x in copy.deepcopy(body)}
    prio, provs, static = ({k: x for k, x in b.get(n, [])} for n in ("default-priorities", "providers", "static-properties"))
    how = r.choice(["ns", "feat", "prop", "prop", "static", "prov", "prov", "prov", "req", "text", "text"])
    lists = []
    if how == "ns" and "namespace" in prio:
        lists = [prio["namespace"]]
    elif how == "feat" and "feature" in prio:
        lists = [x for _, x in prio["feature"][1]]
    elif how == "prop" and "property" in prio:
        lists = [x for _, f in prio["property"][1] for _, x in f[1]]
    elif how == "static":
        lists = [x for f in static.values() for _, x in f[1]]
    elif how == "req":
        lists = [x for f in provs.values() for k, x in f[1] if k == "requires"]
    elif how == "text":                    # one text differs a little
        texts = [u for f in provs.values() for k, x in f[1] for u in ([x] if x[0] == "s" else x[1] if x[0] == "l" else [])]
        if texts:
            u = r.choice(texts)
            u[1] = r.choice([u[1].swapcase(), u[1].replace("_", "."), u[1] + "x", u[1][:-1] + "y" if u[1][:-1] else "y"])
    elif how == "prov" and provs:
        f = r.choice(list(provs.values()))
        d = {k: x for k, x in f[1]}
        k = r.choice(["optional", "plugin-api", "enable-if", "requires"])
        if k in d and k != "requires" and r.random() < .5:
            del d[k]
        else:
            d[k] = {"optional": ["b", True], "plugin-api": S("tweak:x"), "enable-if": S("os_name == 'tweak'"), "requires": strs(["tweak"])}[k]
        f[1][:] = [list(i) for i in d.items()]
    lists = [x for x in lists if x[0] == "l" and x[1]]
    if lists:
        x = r.choice(lists)
        if r.random() < .6 and len(x[1]) > 1:
            x[1].reverse()
        elif how != "ns":
            x[1].append(S("tweak"))
    out = {"default-priorities": prio, "providers": provs, "static-properties": static}
    return [(k, D(list(out[k].items()))) for k in b]


def _fam(r):
    """A family of related documents for merging."""
    body = gen_common(r, "index")
    labels = r.sample(LABELS, 4)
    descs = {lab: (D([]) if lab == "null" else gen_desc(r)) for lab in labels}
    out = []
    for _ in range(r.choice([2, 3, 3, 4] + [9, 15] * bool(getattr(r, "big", 0)))):
        b = copy.deepcopy(body)
        kind = r.choice(["dist", "dist", "dist", "index"])
        labs = r.sample(labels, 1 if kind == "dist" else r.choice([1, 2, 3]))
        ds = {lab: copy.deepcopy(descs[lab]) for lab in labs}
        if r.random() < .15:     # a label with another meaning
            lab = r.choice(labs)
            if lab != "null":
                ds[lab] = gen_desc(r)
        if r.random() < .25:
            b = _tweak(r, b)
        r.shuffle(b)
        b.append(("variants", D(list(ds.items()))))
        if r.random() < .5:
            b = [(k, _shuffle(r, x)) for k, x in b]
        d = wrap(kind, b, r)
        if r.random() < .2:
            d = mutate(r, d)
        out.append({"what": "parse", "kind": kind, "doc": d, "exp": NOEXP})
    return out


def _edit(r):
    w = r.choice(["ns-append", "ns-clear", "feat-append", "feat-set", "feat-pop", "prop-append", "prop-set", "prop-pop", "static-append",
                  "static-set", "static-pop", "req-append", "req-append", "prov-opt", "prov-api", "prov-enif", "prov-pop", "var-put", "var-pop",
                  "feat-append", "prop-append", "static-append", "set-desc", "set-label"])
    e = {"what": w, "n": r.choice(NSS[:3]), "f": r.choice(FEATS[:2]), "v": r.choice(VALS)}
    if w.startswith("var"):
        e["n"] = r.choice(["w", "x", "x.1", "null"] if w == "var-pop" else ["w", "x", "v2"])
    if w in ("var-put", "set-desc"):
        e["d"] = sorted([n, f, r.choice(VALS)] for n in _some(r, NSS, 1, 2) for f in _some(r, FEATS, 1, 2))
    if w == "set-label":
        e["v"] = r.choice(["w", "x", "v2"])
    return e


def _session(r, prop):
    ops = []
    if prop == "C12" or (prop not in ("C15", "C14") and r.random() < .4):
        for _ in range(3):
            kind = r.choice(["index", "dist", "pyproject"])
            d = gen_doc(r, kind)
            if r.random() < .7:
                d = mutate(r, d)
            exp = {"has": r.random() < .5, "v": r.choice(LABELS)} if kind == "dist" and r.random() < .5 else NOEXP
            if exp["has"] and d[0] == "d":
                v = dict((k, x) for k, x in d[1]).get("variants")
                if v and v[0] == "d" and v[1] and r.random() < .6:
                    exp = {"has": True, "v": v[1][0][0]}
            ops.append({"what": "parse", "kind": kind, "doc": d, "exp": exp})
    else:
        ops += _fam(r)
        if r.random() < .4 or prop in ("C13", "C14", "C16"):
            ops.append({"what": "parse", "kind": "pyproject", "doc": gen_doc(r, "pyproject"), "exp": NOEXP})
    if prop == "C12":
        return ops
    if prop == "C16":
        ops = [{"what": "parse", "kind": k, "doc": gen_doc(r, k), "exp": NOEXP} for k in r.choice([["index"], ["pyproject"], ["dist", "index"]])]
    weights = {"C13": ["convert", "convert", "write", "write", "write", "merge", "distinfo", "edit"],
               "C14": ["convert", "convert", "merge", "edit", "edit", "edit", "edit", "distinfo"],
               "C15": ["merge", "merge", "merge", "merge", "write", "convert", "edit"],
               "C16": ["reqs", "reqs", "reqs", "ref", "ref", "edit"],
               "C07": ["convert", "merge", "write", "reqs", "distinfo"]}[prop]
    for _ in range(r.choice([3, 5, 7, 9])):
        w = r.choice(weights)
        o, p = r.randrange(8), r.randrange(8)
        if w == "convert":
            ops.append({"what": w, "o": o, "kind": r.choice(["index", "dist", "pyproject"])})
        elif w == "merge":
            ops.append({"what": w, "o": o, "p": p})
        elif w == "edit":
            ops.append({"what": w, "o": o, "e": _edit(r)})
        elif w == "write":
            ops.append({"what": w, "o": o})
        elif w == "reqs":
            ops.append({"what": w, "o": o, "all": r.random() < .3, "nss": _some(r, NSS, 0, 3), "aot": r.random() < .5,
                        "how": r.randrange(3)})
        elif w == "ref":
            ops.append({"what": w, "o": o, "n": r.choice(NSS)})
        elif w == "distinfo":
            null = r.random() < .2
            d = [] if null else sorted([n, f, r.choice(VALS)] for n in _some(r, NSS, 1, 2) for f in _some(r, FEATS, 1, 2))
            ops.append({"what": w, "o": o, "desc": d, "given": r.random() < .5, "label": r.choice(LABELS + ["Bad", "a b", "abcdefghijklmnopq"])})
    return ops


COUNT = {"quick": 900, "thorough": 9000}


def generate(prop, seed, tier):
    r = random.Random(f"{seed}/meta/{prop}")
    out = []
    for i in range(COUNT[tier] // (4 if prop == "C07" else 1)):
        r.big = 60 * (i % 25 == 7)
        out.append({"id": ["rand", i], "ops": _session(r, prop)})
    return out


def from_model(items):
    docs, out = None, []
    for m in items:
        if "docs" in m:
            docs = m["docs"]
    for i, m in enumerate(items):
        if "doc" in m:
            if m["kind"] == "pyproject" and m["doc"][0] != "d":
                continue
            out.append({"id": ["doc", i], "ops": [{"what": "parse", "kind": m["kind"], "doc": m["doc"], "exp": NOEXP}],
                        "want": {"res": ["ok" if m["ok"] else "ValidationError"],
                                 "store": [{"kind": m["kind"], "m": m["meta"][0]}] if m["ok"] else []}})
        elif "log" in m:
            ops = []
            for x in m["log"]:
                o = dict(x["op"])
                if o["what"] == "parse":
                    o = {"what": "parse", "kind": docs[o["doc"] - 1][0], "doc": docs[o["doc"] - 1][1], "exp": NOEXP}
                for k in ("o", "p"):
                    if k in o:
                        o[k] -= 1
                ops.append(o)
            out.append({"id": ["store", i], "ops": ops, "want": {"res": [x["res"] for x in m["log"]], "store": m["store"]}})
    return out


def _norm(m):
    fn = lambda p: {k: v for k, v in p}  # noqa: E731
    fn2 = lambda p: {k: fn(v) for k, v in p}  # noqa: E731
    return [m["ns"], fn(m["feat"]), fn2(m["prop"]), fn(m["provs"]), fn2(m["static"]), fn(m["variants"])]


def agrees(s, m):
    w = s["want"]
    ev = m["ev"]
    if len(ev) != len(w["res"]):
        return False
    for e, res in zip(ev, w["res"]):
        if ("ok" if e["out"]["ok"] else e["out"]["exc"]) != res or e["mut"] or not e["rep"]:
            return False
    got = ev[-1]["after"]
    return len(got) == len(w["store"]) and all(a["kind"] == b["kind"] and _norm(a["m"]) == _norm(b["m"]) for a, b in zip(got, w["store"]))


# ---------------------------------------------------------------- execution
def setup():
    import logging
    logging.disable(logging.CRITICAL)


BADMETA = {"ns": ["<unexpected shape>"], "feat": [], "prop": [], "provs": [], "static": [], "variants": []}


def dump(obj):
    import base as B
    ot = lambda x: {"has": x is not None, "v": "" if x is None else B.text(x)}  # noqa: E731
    try:
        return {"ns": B.lstr(obj.namespace_priorities), "feat": B.feats(obj.feature_priorities), "prop": B.props3(obj.property_priorities),
                "provs": B.pairs(obj.providers, lambda p: {
                    "req": B.lstr(p.requires), "opt": B.boolean(p.optional), "inst": B.boolean(p.install_time),
                    "api": ot(p.plugin_api), "enif": ot(p.enable_if)}),
                "static": B.props3(obj.static_properties),
                "variants": B.pairs(getattr(obj, "variants", {}), B.desc)}
    except (B.BadShape, AttributeError, TypeError):
        return BADMETA


def _classes():
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson
    return {"index": VariantsJson, "dist": VariantDistInfo, "pyproject": VariantPyProjectToml}


def _parse(kind, doc, exp, toml):
    """A call that reads the document, and its argument."""
    cls = _classes()[kind]
    data = untag(doc)
    if kind == "dist":
        t = json.dumps(data)
        t = t.encode() if toml else t
        return t, (lambda: cls(t, exp["v"])) if exp["has"] else (lambda: cls(t))
    if kind == "pyproject" and toml and isinstance(data, dict):
        import tomlkit
        import world as W
        try:
            text = tomlkit.dumps(data)
            import tomllib
            if tomllib.loads(text) == data:
                p = W.SCRATCH / "p.toml"
                p.write_text(text)
                return data, lambda: cls.from_path(p)
        except Exception:  # noqa: BLE001  (not expressible as TOML)
            pass
    return data, lambda: cls(data)


def _reorder(obj):
    """An equal object whose mappings were filled in the opposite order."""
    o = copy.deepcopy(obj)

    def rev(d, deep):
        return {k: rev(v, deep - 1) if deep and isinstance(v, dict) else v for k, v in reversed(list(d.items()))}
    o.feature_priorities = rev(o.feature_priorities, 0)
    o.property_priorities = rev(o.property_priorities, 1)
    o.providers = rev(o.providers, 0)
    o.static_properties = rev(o.static_properties, 1)
    o.variants = rev(o.variants, 0)
    return o


def _edit_real(o, e):
    from variantlib.models.variant import VariantDescription, VariantProperty
    w, n, f, v = e["what"], e["n"], e["f"], e["v"]
    mk = lambda: VariantDescription([VariantProperty(*p) for p in e["d"]])  # noqa: E731
    if w == "ns-append":
        o.namespace_priorities.append(v)
    elif w == "ns-clear":
        o.namespace_priorities.clear()
    elif w == "feat-append":
        o.feature_priorities[n].append(v)
    elif w == "feat-set":
        o.feature_priorities[n] = [v]
    elif w == "feat-pop":
        del o.feature_priorities[n]
    elif w == "prop-append":
        o.property_priorities[n][f].append(v)
    elif w == "prop-set":
        o.property_priorities.setdefault(n, {})[f] = [v]
    elif w == "prop-pop":
        del o.property_priorities[n][f]
    elif w == "static-append":
        o.static_properties[n][f].append(v)
    elif w == "static-set":
        o.static_properties.setdefault(n, {})[f] = [v]
    elif w == "static-pop":
        del o.static_properties[n]
    elif w == "req-append":
        o.providers[n].requires.append(v)
    elif w == "prov-opt":
        o.providers[n].optional = not o.providers[n].optional
    elif w == "prov-api":
        o.providers[n].plugin_api = v
    elif w == "prov-enif":
        o.providers[n].enable_if = v
    elif w == "prov-pop":
        del o.providers[n]
    elif w == "var-put":
        o.variants[n] = mk()
    elif w == "var-pop":
        del o.variants[n]
    elif w == "set-desc":
        o.variant_desc = mk()
    elif w == "set-label":
        o.variant_label = v


def _editable(kind, o, e):
    w, n, f = e["what"], e["n"], e["f"]
    if w.startswith("var") and kind == "pyproject":
        return False
    if w.startswith("set-"):
        return kind == "dist" and (w == "set-desc" or len(o.variants) == 1)
    if w in ("feat-append", "feat-pop"):
        return n in o.feature_priorities
    if w in ("prop-append", "prop-pop"):
        return f in o.property_priorities.get(n, {})
    if w == "static-append":
        return f in o.static_properties.get(n, {})
    if w == "static-pop":
        return n in o.static_properties
    if w in ("req-append", "prov-opt", "prov-api", "prov-enif", "prov-pop"):
        return n in o.providers
    if w == "var-pop":
        return n in o.variants
    return True


def execute(s):
    import base as B
    from variantlib.api import make_variant_dist_info
    from variantlib.models.variant import VariantDescription, VariantProperty
    objs, ev = [], []      # objs: (kind, object)
    snap = lambda: [{"kind": k, "m": dump(o)} for k, o in objs]  # noqa: E731
    model = "want" in s
    for n, op in enumerate(s["ops"]):
        w = op["what"]
        before = snap()
        mut, rep, out = [], True, None
        if w == "parse":
            if op["kind"] == "pyproject" and op["doc"][0] != "d":
                continue        # TOML documents are tables
            arg, f = _parse(op["kind"], op["doc"], op["exp"], n % 2 and not model)
            watch = B.Watch(arg=arg)
            out = B.call(f)
            mut = watch.changed()
            o2 = B.call(f)
            rep = out["ok"] == o2["ok"] and (not out["ok"] or dump(out["val"]) == dump(o2["val"])) and out.get("exc") == o2.get("exc")
            if out["ok"]:
                objs.append((op["kind"], out["val"]))
            inp = {"kind": op["kind"], "doc": op["doc"], "exp": op["exp"]}
            out = {"ok": out["ok"], "exc": out.get("exc", "")}
            name = "parse"
        else:
            if not objs:
                continue
            k = op["o"] if model else op["o"] % len(objs)
            if k >= len(objs):
                continue
            kind, o = objs[k]
            inp = {"o": k + 1}
            name = w
            if w == "convert":
                x = B.call(lambda: _classes()[op["kind"]](o))
                if x["ok"]:
                    objs.append((op["kind"], x["val"]))
                out = {"ok": x["ok"], "exc": x.get("exc", "")}
                inp["kind"] = op["kind"]
            elif w == "edit":
                if not _editable(kind, o, op["e"]):
                    continue
                x = B.call(lambda: _edit_real(o, op["e"]))
                out = {"ok": x["ok"], "exc": x.get("exc", "")}
                inp["e"] = op["e"]
            elif w == "merge":
                p = op["p"] if model else op["p"] % len(objs)
                if p >= len(objs) or p == k or "pyproject" in (kind, objs[p][0]):
                    continue
                x = B.call(lambda: o.merge(objs[p][1]))
                out = {"ok": x["ok"], "exc": x.get("exc", "")}
                inp["p"] = p + 1
            elif w == "write":
                if kind == "pyproject":
                    continue
                x = B.call(lambda: B.text(o.to_str()))
                out = {"ok": x["ok"], "exc": x.get("exc", "")}
                if x["ok"]:
                    y = B.call(lambda: tag(json.loads(x["val"])))
                    out["doc"] = y["val"] if y["ok"] else ["z"]
                    z = B.call(lambda: _reorder(o).to_str())
                    out["sametext"] = z["ok"] and z["val"] == x["val"]
                    cls = _classes()[kind]
                    b = B.call(lambda: cls(x["val"]) if kind == "dist" else cls(json.loads(x["val"])))
                    out["back"] = {"ok": True, "m": dump(b["val"])} if b["ok"] else {"ok": False, "exc": b["exc"]}
                    rep = B.call(lambda: o.to_str()).get("val") == x["val"]
            elif w == "reqs":
                nss = {0: set, 1: frozenset, 2: set}[op["how"]](op["nss"])
                kw = {} if op["all"] and op["how"] else {"namespaces": None if op["all"] else nss}
                if not (op["aot"] and op["how"] == 2):
                    kw["include_aot_plugins"] = op["aot"]
                watch = B.Watch(nss=nss)
                f = lambda: sorted(B.text(t) for t in o.get_provider_requires(**kw))  # noqa: E731
                x = B.call(f)
                mut = watch.changed()
                rep = x.get("val") == B.call(f).get("val")
                out = {"ok": x["ok"], "val": x.get("val", []), "exc": x.get("exc", "")}
                inp.update(all=op["all"], nss=op["nss"], aot=op["aot"])
            elif w == "ref":
                if op["n"] not in o.providers or not o.providers[op["n"]].requires:
                    continue
                x = B.call(lambda: B.text(o.providers[op["n"]].object_reference))
                out = {"ok": x["ok"], "val": x.get("val", ""), "exc": x.get("exc", "")}
                inp["n"] = op["n"]
            elif w == "distinfo":
                used = {d[0] for d in op["desc"]}
                if any(u in o.providers and not o.providers[u].install_time and o.providers[u].requires for u in used):
                    continue        # would query plugins (see the plugin suite)
                vd = VariantDescription([VariantProperty(*d) for d in op["desc"]])
                watch = B.Watch(vd=vd)
                f = lambda: B.text(make_variant_dist_info(vd, o, **({"variant_label": op["label"]} if op["given"] else {})))  # noqa: E731
                x = B.call(f)
                mut = watch.changed()
                out = {"ok": x["ok"], "exc": x.get("exc", "")}
                if x["ok"]:
                    y = B.call(lambda: tag(json.loads(x["val"])))
                    out["doc"] = y["val"] if y["ok"] else ["z"]
                    rep = B.call(f).get("val") == x["val"]
                inp.update(desc=op["desc"], given=op["given"], label=op["label"])
        ev.append({"op": name, "in": inp, "out": out, "before": before, "after": snap(), "mut": mut, "rep": rep})
    return ev


# -------------------------------------------------------------- attribution
def properties_of(clause, e):
    op = e["op"]
    if clause == "inputs-unchanged":
        return {"C07"}
    if clause == "repeatable":
        return {"C07"} | {"parse": {"C12"}, "write": {"C13"}, "reqs": {"C16"}, "distinfo": {"C13"}}.get(op, set())
    if clause in ("malformed-refused", "wellformed-accepted", "refusal-leaves-nothing"):
        return {"C12"}
    if clause == "read-as-written":
        return {"C12", "C13"}
    if clause in ("conversion-complete", "converts-without-error"):
        return {"C13"}
    if op in ("edit", "parse", "convert") or clause in ("unobserved-change", "generation-changes-nothing"):
        return {"C14"} | ({"C07"} if op == "distinfo" else set())
    if op == "merge":
        return {"C15", "C14"} if clause == "others-unchanged" else {"C15"}
    if op == "write":
        return {"C13", "C07"} if clause == "writing-changes-nothing" else {"C13"}
    if op in ("reqs", "ref"):
        return {"C16", "C07"} if clause == "listing-changes-nothing" else {"C16"}
    if clause == "bad-label-refused":
        return {"C10", "C13"}
    return {"C13"}


def corrupt(e):
    e = json.loads(json.dumps(e))
    o = e["out"]
    if e["op"] in ("parse", "merge") and not o["ok"]:
        o["exc"] = "TypeError"
    elif e["op"] in ("parse", "convert", "edit", "merge") and o["ok"] and e["after"]:
        e["after"][-1]["m"]["ns"] = e["after"][-1]["m"]["ns"] + ["corrupted"]
    elif e["op"] == "write" and o["ok"]:
        o["sametext"] = False
    elif e["op"] == "reqs" and o["ok"]:
        o["val"] = o["val"] + ["corrupted"]
    elif e["op"] == "ref":
        o["val"] += "x"
    elif e["op"] == "distinfo" and o["ok"]:
        o["doc"] = ["d", []]
    else:
        return None
    return e
