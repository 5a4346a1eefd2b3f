"""Provider plugins: loaders, queries, and what is built on them (spec: TracePlugin)."""
from __future__ import annotations

import copy
import json
import random
import re

import provgen
from provgen import NSS, some
from suite_meta import D, S, strs, tag, untag, wrap

TRACE = "TracePlugin"
MODEL_CAP = {"quick": 60, "thorough": 600}
INTERPS = ["d", "x"]
CANARY_RATE = .5


# ----------------------------------------------------------------- generation
def behaviours(r, ns, key, aot, bad, same=.5):
    """{interpreter: Plug} with the namespaces they report"""
    out = {}
    for i in INTERPS:
        if i != "d" and r.random() < same:
            out[i] = out["d"]
        else:
            out[i] = plug(r, ns, key, aot, bad)
    return out


def plug(r, ns, key, aot, bad):
    p = provgen.Plug(r, ns, key, aot, bad=bad)
    p.spec = dict(p.spec, ns=ns)
    return p


def freeze(beh):
    data = {"interps": {i: p.data for i, p in beh.items() if p.data is not None}}
    return json.loads(json.dumps([data, [[i, p.spec] for i, p in beh.items()]]))


def odd_namespace(r, p, others):
    """a plugin that reports the namespace of another one, or none at all"""
    if p.data is None or "namespace" not in p.data:
        return p
    q = copy.copy(p)
    if r.random() < .5 and others:
        ns = r.choice(others)
        q.data, q.spec = dict(p.data, namespace=ns), dict(p.spec, ns=ns)
    else:
        q.data, q.spec = dict(p.data, namespace=r.choice([3, None, "A", "", "a b", ["a"], "a-b", "a\n", True])), dict(p.spec, ns="")
    return q


def record(r, body, plugs):
    """the same as an index, in which ahead-of-time providers have recorded properties"""
    t = dict(body)
    provs = [(n, dict(p[1])) for n, p in t["providers"][1]]
    prio = dict(t["default-priorities"][1])
    feat = dict(prio["feature"][1]) if "feature" in prio else {}
    static = dict(t["static-properties"][1]) if "static-properties" in t else {}
    for n, p in provs:
        if p.get("install-time") == ["b", False] and n not in static:
            fs = provgen.feats(r)
            static[n] = D([(f, strs(provgen.vals(r))) for f in fs])
            if len(fs) > 1:
                feat[n] = strs(r.sample(fs, len(fs)))
    prio["feature"] = D(list(feat.items()))
    t["default-priorities"] = D(list(prio.items()))
    if static:
        t["static-properties"] = D(list(static.items()))
    return list(t.items())


def variants(r, plugs, static, n):
    out, used = [], []
    for i in range(n):
        d = provgen.desc(r, plugs, static, wild=.1)
        if sorted(d) in used:
            continue
        used.append(sorted(d))
        out.append([f"l{i}", d])
    if r.random() < .3:
        out.insert(r.randrange(len(out) + 1), ["null", []])
    return out


def vardoc(vs):
    out = []
    for lab, d in vs:
        t: dict = {}
        for n, f, v in d:
            t.setdefault(n, {}).setdefault(f, []).append(v)
        out.append((lab, D([(n, D([(f, strs(x)) for f, x in fs.items()])) for n, fs in t.items()])))
    return D(out)


def optional(r, nss):
    x = r.random()
    return {"mode": "all", "sel": []} if x < .3 else {"mode": "none", "sel": []} if x < .6 \
        else {"mode": "some", "sel": some(r, nss + ["zz"], 0, 3)}


class Project:
    def __init__(self, r, sid, bad, kinds, lo=1):
        name = re.sub(r"\W", "", "_".join(map(str, sid)))
        nss = r.sample(NSS, r.choice([lo, 2, 2, 3]))
        if getattr(r, "big", 0) and r.random() < .5:      # one of the few of unusual size
            nss = [*nss, *(f"ns{i}" for i in range(r.choice([5, 8, 12])))]
            r.shuffle(nss)
        self.body, self.plugs, self.static = provgen.project(r, name, bad=bad, nss=nss, kinds=kinds)
        self.nss = nss
        self.refs = [[p.ns, p.ref] for p in self.plugs]
        self.beh = {}
        for p in self.plugs:
            p.spec = dict(p.spec, ns=p.ns)
            b = {i: p if i == "d" or r.random() < .5 else plug(r, p.ns, p.key, p.aot, bad) for i in INTERPS}
            self.beh[p.key] = b
        self.apis = [[p.ref, p.key] for p in self.plugs]
        self.wraps = random.Random(r.random())

    def begin(self):
        return {"op": "begin", "keyof": self.apis, "beh": [[k, *freeze(b)] for k, b in self.beh.items()]}

    def pyproject(self, r):
        return "pyproject", wrap("pyproject", list(self.body), r)

    def index(self, r, vs):
        return "index", wrap("index", record(r, self.body, self.plugs) + [("variants", vardoc(vs))], r)


def change(r, p, bad):
    key = r.choice(list(p.beh))
    old = p.beh[key]["d"]
    b = behaviours(r, old.ns, key, old.spec["aot"] if r.random() < .8 else not old.spec["aot"], bad, .4)
    if r.random() < bad:
        b["d"] = odd_namespace(r, b["d"], [])
    p.beh[key] = b
    return {"op": "set", "key": key, "beh": freeze(b)}


def s_loader(r, sid, bad=None):
    """loaders entered, queried and left in any order, with plugins that change"""
    bad = r.choice([0, .1, .3]) if bad is None else bad
    p = Project(r, sid, bad, ("install", "install", "install", "static", "aot", "optional", "aotopt"))
    mine = {pl.key: pl.ref for pl in p.plugs}
    if r.random() < .5 or not p.beh:                      # a plugin outside of the project
        key = "q" + re.sub(r"\W", "", "_".join(map(str, sid)))
        ns = r.choice(p.nss) if r.random() < .25 else "zz"
        p.beh[key] = behaviours(r, ns, key, r.random() < .5, bad)
        p.apis.append([f"vplug_fake:{key}", key])
        mine[key] = f"vplug_fake:{key}"
    if r.random() < bad:
        key = r.choice(list(p.beh))
        p.beh[key]["d"] = odd_namespace(r, p.beh[key]["d"], [q["d"].ns for k, q in p.beh.items() if k != key])
    ops = [p.begin()]
    loaders = {}
    for j in range(r.choice([1, 2, 2, 3])):
        i = r.choice(["d", "d", "x", "x", "broken"] if r.random() < .15 else ["d", "d", "x"])
        x = r.random()
        if x < .45 and p.refs:
            vs = [] if r.random() < .7 else variants(r, p.plugs, p.static, 2)
            dk, doc = p.index(r, vs) if r.random() < .3 else p.pyproject(r)
            aot = r.random() < .6
            c = {"kind": "pkg", "dk": dk, "doc": doc, "opt": optional(r, p.nss), "aot": aot,
                 "only": {"has": r.random() < .3, "v": some(r, p.nss + ["zz"], 0, 3)}, "i": i}
        else:
            apis = some(r, list(mine.values()), 0, 3)
            c = {"kind": "list", "how": "entry" if x > .75 else "list", "apis": apis, "i": i,
                 "bad": r.choice(["", "a b", "a:b:c", "-x", ":x", "m\nn"]) if r.random() < bad / 3 else None,
                 "spaced": r.random() < .3}
        loaders[f"L{j}"] = c
    inside = set()
    for _ in range(r.randint(4, 10)):
        l = r.choice(list(loaders))
        c = loaders[l]
        x = r.random()
        if x < .14 and p.beh:
            ops.append(change(r, p, bad))
        elif x < .2:
            ops.append({"op": "attrs", "l": l})
        elif (x < .3) == (l in inside) and x < .36:      # (leaving what was not entered, at times)
            ops.append({"op": "leave", "l": l, "how": r.choice(["none", "exc", "with"])})
            inside.discard(l)
        elif (l in inside) == (x > .93):                 # (entering twice, at times)
            ops.append({"op": "enter", "l": l, "conf": c})
            inside.add(l)
        else:
            k = r.choice(["all", "sup"])
            if c["kind"] == "pkg" and not c["aot"]:
                k = "sup"
            ops.append({"op": "query", "l": l, "k": k, "fixed": k == "sup" and r.random() < .2, "spoil": r.random() < .4})
    return {"id": sid, "ops": ops, "marks": provgen.marks(), "refs": p.refs}


def s_cli(r, sid):
    """plugins and analyze-platform"""
    bad = r.choice([0, 0, 0, .15])
    p = Project(r, sid, bad, ("install",))
    ops = [p.begin()]
    apis = [a for a, _ in p.apis]
    for _ in range(r.randint(2, 4)):
        x = r.random()
        if x < .15:
            ops.append(change(r, p, bad))
            continue
        conf = {"kind": "list", "how": "entry", "apis": some(r, apis, 0 if r.random() < .2 else len(apis), max(3, len(apis))), "i": "d", "bad": None,
                "spaced": r.random() < .2}
        no = {"has": False, "v": ""}
        if x < .3:
            ops.append({"op": "plist", "conf": conf})
        elif x < .75:
            ops.append({"op": "pget", "conf": conf, "k": r.choice(["all", "sup"]),
                        "n": no if r.random() < .5 else {"has": True, "v": r.choice(p.nss + ["zz"])},
                        "f": no if r.random() < .5 else {"has": True, "v": r.choice(provgen.FEATS + ["zz"])}, "long": r.random() < .5})
        else:
            ops.append({"op": "platform", "conf": conf, "k": "sup", "n": no, "f": no})
    return {"id": sid, "ops": ops, "marks": provgen.marks(), "refs": p.refs}


def s_apply(r, sid):
    """resolution and single checks with plugins"""
    bad = r.choice([0, 0, .08, .2])
    p = Project(r, sid, bad, ("install", "optional", "install", "static", "aot", "aotopt", "optional"), lo=2)
    ops = [p.begin()]
    for _ in range(r.randint(2, 4)):
        if r.random() < .12 and p.beh:
            ops.append(change(r, p, bad))
            continue
        vs = variants(r, p.plugs, p.static, r.choice([1, 3, 5]))
        dk, doc = p.index(r, vs)
        i = r.choice(["d", "d", "d", "x"])
        if r.random() < .65:
            ops.append({"op": "resolve", "dk": dk, "doc": doc, "opt": optional(r, p.nss), "i": i, "form": r.choice(["dict", "obj"])})
        else:
            if r.random() < .5:
                dk, doc = p.pyproject(r)
            ops.append({"op": "support", "dk": dk, "doc": doc, "opt": optional(r, p.nss), "i": i,
                        "desc": provgen.desc(r, p.plugs, p.static)})
    return {"id": sid, "ops": ops, "marks": provgen.marks(), "refs": p.refs}


def s_validate(r, sid):
    bad = r.choice([0, 0, 0, .1, .25])
    p = Project(r, sid, bad, ("install", "install", "optional", "static", "aot", "aotopt"))
    ops = [p.begin()]
    for _ in range(r.randint(2, 4)):
        if r.random() < .1 and p.beh:
            ops.append(change(r, p, bad))
            continue
        dk, doc = p.pyproject(r) if r.random() < .7 else p.index(r, variants(r, p.plugs, p.static, r.choice([0, 1, 2])))
        d = provgen.desc(r, p.plugs, p.static, wild=.35)
        for q in list(d):
            if r.random() < .35:
                q2 = [q[0], q[1] if r.random() < .8 else r.choice(provgen.FEATS), r.choice(provgen.VALS + ["99"])]
                if q2 not in d:
                    d.append(q2)
        if r.random() < .1:
            d.append(["zz", "f", "1"])
            d = [list(x) for x in {tuple(x): 0 for x in d}]
        if r.random() < .05:
            d = []
        ops.append({"op": "validate", "dk": dk, "doc": doc, "desc": d, "i": r.choice(["d", "d", "d", "x"])})
    return {"id": sid, "ops": ops, "marks": provgen.marks(), "refs": p.refs}


def s_record(r, sid):
    bad = r.choice([0, 0, 0, .1])
    p = Project(r, sid, bad, ("aot", "aot", "aot", "static", "install", "aotopt"))
    ops = [p.begin()]
    aots = [q.ns for q in p.plugs if q.aot]
    for _ in range(r.randint(1, 3)):
        if r.random() < .1 and p.beh:
            ops.append(change(r, p, bad))
            continue
        dk, doc = p.pyproject(r) if r.random() < .75 else p.index(r, variants(r, p.plugs, p.static, r.choice([0, 1, 2])))
        d = provgen.desc(r, p.plugs, p.static, wild=.08)
        if r.random() < .8:              # use every provider, so that the result can be read back
            for q in p.plugs:
                have = [f for f in q.spec["sup"].get("v", []) if f[1] and re.fullmatch("[a-z0-9_]+", f[0])]
                if q.ns in aots and have and not any(x[0] == q.ns for x in d):
                    f = r.choice(have)
                    d.append([q.ns, f[0], r.choice(f[1])])
        d = [x for x in d if all(re.fullmatch("[a-z0-9_.]+", t) for t in x)]
        if not d:
            continue
        i = r.choice(["d", "d", "d", "x"])
        lab = r.choice([None, "lab", "x.1"])
        ops.append({"op": "distinfo", "dk": dk, "doc": doc, "desc": d, "lab": lab, "i": i})
        ops.append({"op": "replay", "dk": dk, "doc": doc, "desc": d, "opt": optional(r, p.nss), "i": i,
                    "variants": variants(r, p.plugs, p.static, 4)})
    return {"id": sid, "ops": ops, "marks": provgen.marks(), "refs": p.refs}


KINDS = {"C22": [(s_apply, 110), (s_loader, 50), (s_validate, 40)], "C23": [(s_loader, 170), (s_apply, 30)],
         "C24": [(s_loader, 190), (s_apply, 20), (s_cli, 15)], "C25": [(s_loader, 80), (s_cli, 110)],
         "C26": [(s_validate, 210)], "C27": [(s_record, 190)]}


def generate(prop, seed, tier):
    out = []
    for f, n in KINDS[prop]:
        for i in range(n if tier == "quick" else n * 8):
            r = random.Random(f"{seed}/plugin/{prop}/{f.__name__}/{i}")
            r.big = i % 20 == 7
            if prop == "C24" and f is s_loader:
                out.append(f(r, [f.__name__[2:], i], r.choice([.1, .3, .5])))
            elif prop in ("C23", "C25") and f is s_loader:
                out.append(f(r, [f.__name__[2:], i], r.choice([0, 0, .1])))
            else:
                out.append(f(r, [f.__name__[2:], i]))
    return out


# ------------------------------------------------------------ model behaviours
def _mplug(p, i, b):
    """a plugin of the model: its data and what it means for the specification"""
    fs = [["f", [f"{b}.{i}"], False]]
    bad = {"ok": False}
    spec = {"loads": b != "gone", "aot": False, "ns": p, "all": {"ok": True, "v": fs}, "sup": {"ok": True, "v": fs}}
    data = {"namespace": p, "get_all_configs": fs, "get_supported_configs": fs}
    if b == "gone":
        data = {"import": "raise"}
    if b in ("fail", "gone"):
        spec.update(all=bad, sup=bad)
    if b == "fail":
        data.update(get_all_configs={"kind": "raise"}, get_supported_configs={"kind": "_exit", "code": 1})
    return data, spec


MLOAD = {"L1": ("d", "p"), "L2": ("d", "pq"), "L3": ("x", "p"), "L4": ("d", "")}


def from_model(items):
    out = []
    for n, it in enumerate(items):
        beh = {(i, p): "v1" for i in INTERPS for p in "pq"}
        key = lambda p: f"m{n}{p}"  # noqa: E731,B023

        def frozen(p):
            both = {i: _mplug(p, i, beh[i, p]) for i in INTERPS}  # noqa: B023
            return json.loads(json.dumps([{"interps": {i: d for i, (d, _) in both.items()}}, [[i, sp] for i, (_, sp) in both.items()]]))
        ops = [{"op": "begin", "keyof": [[f"vplug_fake:{key(p)}", key(p)] for p in "pq"], "beh": [[key(p), *frozen(p)] for p in "pq"]}]
        want = [None]
        for h in it["hist"]:
            o = h["op"]
            if o["what"] == "set":
                beh[o["i"], o["p"]] = o["b"]
                ops.append({"op": "set", "key": key(o["p"]), "beh": frozen(o["p"])})
                want.append(None)
                continue
            i, ps = MLOAD[o["l"]]
            conf = {"kind": "list", "how": "entry" if n % 3 == 0 else "list", "apis": [f"vplug_fake:{key(p)}" for p in ps], "i": i, "bad": None, "spaced": n % 2 == 1}
            if o["what"] == "enter":
                ops.append({"op": "enter", "l": o["l"], "conf": conf})
            elif o["what"] == "leave":
                ops.append({"op": "leave", "l": o["l"], "how": "none"})
            else:
                ops.append({"op": "query", "l": o["l"], "k": o["k"], "fixed": False, "spoil": n % 2 == 0})
            # (leaving or querying a loader that was never made is not an operation of the real one)
            want.append({"op": o["what"], "ok": h["ok"], "ran": h["ran"], "v": sorted([p, [["f", [f"{b}.{i}"], False]]] for p, b in h["a"])})
        seen, keep = set(), [0]
        for j, o in enumerate(ops):
            if j == 0:
                continue
            if o["op"] == "enter":
                seen.add(o["l"])
            if o["op"] in ("leave", "query") and o["l"] not in seen:
                continue
            keep.append(j)
        out.append({"id": ["model", n], "ops": [ops[j] for j in keep], "want": [want[j] for j in keep], "marks": [], "refs": []})
    return out


def agrees(s, m):
    if len(m["ev"]) != len(s["want"]):
        return False
    for e, w in zip(m["ev"], s["want"]):
        if w is None:
            continue
        ran = any(sum(c.values()) for _, c in e["calls"])
        if e["out"]["ok"] != w["ok"] or (w["ok"] and ran != w["ran"]):
            return False
        if w["op"] == "query" and w["ok"] and sorted(e["out"]["v"]) != w["v"]:
            return False
    return True


# ------------------------------------------------------------------ execution
_docs: dict = {}


def _info(x):
    """the metadata object; the same one for the same document"""
    key = json.dumps([x["dk"], x["doc"]])
    if key not in _docs:
        from variantlib.pyproject_toml import VariantPyProjectToml
        from variantlib.variants_json import VariantsJson
        _docs[key] = (VariantsJson if x["dk"] == "index" else VariantPyProjectToml)(untag(x["doc"]))
    return _docs[key]


def cfgs(val, B):
    """reported configurations, and flattened"""
    B.need(isinstance(val, dict))
    v, flat = [], []
    for n, c in val.items():
        B.need(c.namespace == n)
        v.append([B.text(n), [[B.text(f.name), B.lstr(f.values), B.boolean(f.multi_value)] for f in c.configs]])
        flat.append([n, [B.prop(q) for q in c.to_list_of_properties()]])
    return {"v": v, "flat": flat}


def execute(s):
    import base as B
    import world as W
    from variantlib.api import check_variant_supported, get_variants_by_priority, make_variant_dist_info, validate_variant
    from variantlib.commands.main import main as cli
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader
    from variantlib.variant_dist_info import VariantDistInfo
    _docs.clear()
    objs: dict = {}
    keys, ev = [], []
    recorded = {}
    VD = lambda d: VariantDescription([VariantProperty(*p) for p in d])  # noqa: E731

    def spell(apis, spaced, bad):
        out = [a.replace(":", " : ") if spaced else a for a in apis]
        return out if bad is None else [*out[:1], bad, *out[1:]]

    def setdists(c):
        apis = spell(c["apis"], c["spaced"], c["bad"])
        return [[f"prov-{i}", "1.0", {"variant_plugins": [(f"ep{i}", a)]}] for i, a in enumerate(apis)], apis

    def optarg(o):
        return True if o["mode"] == "all" else False if o["mode"] == "none" else list(o["sel"])

    def confin(c):
        if c["kind"] == "list":
            return {"kind": "list", "apis": c["apis"], "bad": c["bad"] is not None, "i": c["i"]}
        return {**{k: c[k] for k in ("kind", "dk", "doc", "opt", "only", "aot", "i")}, "marks": s["marks"], "refs": s["refs"]}

    def make(c, n):
        i = W.interpreter(c["i"])
        if c["kind"] == "pkg":
            return PluginLoader(_info(c), venv_python_executable=i, enable_optional_plugins=optarg(c["opt"]),
                                filter_plugins=list(c["only"]["v"]) if c["only"]["has"] else None, include_aot_plugins=c["aot"])
        if c["how"] == "entry":
            return EntryPointPluginLoader(venv_python_executable=i)
        return ListPluginLoader(spell(c["apis"], c["spaced"], c["bad"]), venv_python_executable=i)

    for n, op in enumerate(s["ops"]):
        w = op["op"]
        before = {k: len(W.call_log(k)) for k in keys}
        inp: dict = {}
        out: dict = {"ok": True}
        W.dists([])
        interp = W.interpreter(op.get("i", "d"))
        if interp is not None and n % 2:
            interp = str(interp)
        if w == "begin":
            for k, data, _ in op["beh"]:
                W.plugin(k, data)
            keys = [k for k, _, _ in op["beh"]]
            before = {k: 0 for k in keys}
            inp = {"keyof": op["keyof"], "beh": [[k, b] for k, _, b in op["beh"]]}
        elif w == "set":
            W.plugin(op["key"], op["beh"][0])
            inp = {"key": op["key"], "beh": op["beh"][1]}
        elif w == "enter":
            l, c = op["l"], op["conf"]
            if c.get("how") == "entry":
                W.dists(setdists(c)[0])
            inp = {"l": l, "conf": confin(c)}

            def f():
                if l not in objs:
                    objs[l] = make(c, n)
                B.need(objs[l].__enter__() is objs[l])
            out = B.call(f)
            out.pop("val", None)
        elif w == "leave":
            l = op["l"]
            if l not in objs:
                continue
            inp = {"l": l}

            def f():
                if op["how"] == "exc":
                    e = ValueError("x")
                    return bool(objs[l].__exit__(ValueError, e, None))
                return bool(objs[l].__exit__(None, None, None))
            out = B.call(f)
            out["v"] = out.pop("val", False)
        elif w == "query":
            l = op["l"]
            if l not in objs:
                continue
            inp = {"l": l, "k": op["k"], "fixed": op["fixed"]}
            raw = None

            def f():
                nonlocal raw
                o = objs[l]
                raw = o.get_all_configs() if op["k"] == "all" else o.get_supported_configs(**({"require_fixed": op["fixed"]} if op["fixed"] or n % 2 else {}))
                return cfgs(raw, B)
            out = B.call(f)
            out.update(out.pop("val", {}))
            if out["ok"] and op["spoil"]:        # callers may do with an answer what they like
                for c in raw.values():
                    for q in c.configs:
                        q.values.append("spoilt")
                    c.configs.reverse()
                raw.clear()
        elif w == "attrs":
            l = op["l"]
            if l not in objs:
                continue
            o = objs[l]
            inp = {"l": l, "packages": []}

            def f():
                nss, apis = o.namespaces, o.plugin_api_values
                res = {"nss": B.lstr(nss), "apis": [[B.text(a), B.text(b)] for a, b in apis.items()], "packages": []}
                if isinstance(o, EntryPointPluginLoader):
                    res["packages"] = [[a, d.name] for a, d in o.plugin_provider_packages.items()]
                nss.append("spoilt")
                apis.clear()
                return res
            out = B.call(f)
            out.update(out.pop("val", {}))
            if isinstance(o, EntryPointPluginLoader):
                c = next(q["conf"] for q in s["ops"] if q["op"] == "enter" and q["l"] == l)
                inp["packages"] = [[a, f"prov-{i}"] for i, a in enumerate(c["apis"])]
        elif w in ("plist", "pget", "platform"):
            d, _ = setdists(op["conf"])
            W.dists([W.cli_dist(), *d])
            args = {"plist": ["plugins", "list"], "platform": ["analyze-platform"]}.get(w) or \
                ["plugins", "get-configs", {"all": "--all" if op["long"] else "-a", "sup": "--supported" if op["long"] else "-s"}[op["k"]]]
            if w == "pget":
                if op["n"]["has"]:
                    args += ["--namespace" if op["long"] else "-n", op["n"]["v"]]
                if op["f"]["has"]:
                    args += ["--feature" if op["long"] else "-f", op["f"]["v"]]
            inp = {"conf": confin(op["conf"]), **{k: op[k] for k in ("k", "n", "f") if k in op}}
            text = ""

            def f():
                nonlocal text
                with B.quiet() as (o, _):
                    cli(args)
                text = o.getvalue()
            out = B.call(f)
            out.pop("val", None)
            if out["ok"]:
                x = B.call(lambda: printed(w, text, B))
                out = {"ok": True, **x["val"]} if x["ok"] else {"ok": False, "exc": "BadShape", "msg": text[:300]}
        else:
            inp = {"dk": op["dk"], "doc": op["doc"], "i": op["i"], "marks": s["marks"], "refs": s["refs"]}
            if w == "validate":
                inp["desc"] = op["desc"]

                def f():
                    res = validate_variant(VD(op["desc"]), _info(op), **({"venv_python_executable": interp} if interp else {}))
                    name = {True: "valid", False: "invalid", None: "unknown"}
                    return {"results": [[B.prop(p), name[v]] for p, v in res.results.items()],
                            "over": [[q.namespace, q.feature] for q in res.multi_value_violations],
                            "valid": B.boolean(res.is_valid()), "strict": B.boolean(res.is_valid(allow_unknown_plugins=False)),
                            "invalid": [B.prop(p) for p in res.invalid_properties], "unknown": [B.prop(p) for p in res.unknown_properties]}
            elif w == "resolve":
                inp["opt"] = op["opt"]

                def f():
                    v = untag(op["doc"]) if op["form"] == "dict" else _info(op)
                    return {"v": B.lstr(get_variants_by_priority(variants_json=v, venv_python_executable=interp,
                                                                 enable_optional_plugins=optarg(op["opt"])))}
            elif w == "support":
                inp.update(opt=op["opt"], desc=op["desc"])

                def f():
                    return {"v": B.boolean(check_variant_supported(vdesc=VD(op["desc"]), variant_info=_info(op),
                                                                   venv_python_executable=interp, enable_optional_plugins=optarg(op["opt"])))}
            elif w == "distinfo":
                from variantlib.api import get_variant_label
                inp["desc"] = op["desc"]
                inp["label"] = get_variant_label(VD(op["desc"]), op["lab"])
                rk = json.dumps([op["doc"], op["desc"], op["i"]])
                recorded.pop(rk, None)

                def f():
                    t = B.text(make_variant_dist_info(VD(op["desc"]), _info(op), **({"variant_label": op["lab"]} if op["lab"] else {}),
                                                      venv_python_executable=interp))
                    doc = json.loads(t)
                    acc = B.call(lambda: VariantDistInfo(t))["ok"]
                    if acc:
                        recorded[rk] = t
                    return {"doc": tag(doc), "accepted": acc}
            elif w == "replay":
                rk = json.dumps([op["doc"], op["desc"], op["i"]])
                if rk not in recorded:
                    continue
                inp.update(desc=op["desc"], opt=op["opt"], variants=op["variants"])

                def f():
                    doc = json.loads(recorded[rk])
                    doc["variants"] = untag(vardoc(op["variants"]))
                    return {"v": B.lstr(get_variants_by_priority(variants_json=doc, venv_python_executable=interp,
                                                                 enable_optional_plugins=optarg(op["opt"])))}
            out = B.call(f, 60)
            out.update(out.pop("val", {}))
        calls = []
        for k in keys:
            got = W.call_log(k)[before[k]:]
            calls.append([k, {"load": got.count("load"), "all": got.count("get_all_configs"), "sup": got.count("get_supported_configs")}])
        ev.append({"op": w, "in": inp, "out": out, "calls": calls})
    return ev


def printed(w, text, B):
    if w == "plist":
        return {"nss": [l for l in text.splitlines() if l.strip()]}
    if w == "pget":
        got = json.loads(text)
        v = [[n, [[B.text(f["name"]), B.lstr(f["values"]), B.boolean(f["multi_value"])] for f in fs]] for n, fs in got.items()]
        return {"v": [p for p in v if p[1]]}
    import ast
    v = []
    for line in text.splitlines():
        m = re.match(r"#+ Provider Config: `(.*)` #+$", line)
        if m:
            v.append([m.group(1), []])
            continue
        m = re.match(r"\s*- Variant Config \[(\d+)\]: (\S+) :: (\[.*\])$", line)
        if m:
            B.need(int(m.group(1)) == len(v[-1][1]) + 1)
            v[-1][1].append([m.group(2), B.lstr(ast.literal_eval(m.group(3)))])
        else:
            B.need(not line.strip("#\t "), line)
    return {"v": v}


# ---------------------------------------------------------------- attribution
def properties_of(clause, e):
    op = e["op"]
    if clause == "unused-aot-providers-recorded":
        return {"C27"}
    base = {"validate": {"C26"}, "resolve": {"C22"}, "support": {"C22"}, "distinfo": {"C27"}, "replay": {"C27"},
            "plist": {"C25"}, "pget": {"C25"}, "platform": {"C25"}, "query": {"C25"}}.get(op, set())
    if clause in ("only-applicable-run", "applicable-run"):
        return base | {"C22", "C23"}
    if clause in ("error-reported", "works"):
        return base | {"C22", "C23", "C24"}
    if clause in ("loaded-namespaces", "loaded-plugins", "provider-packages"):
        return {"C22", "C24", "C25"}
    if clause == "exception-not-swallowed":
        return {"C24"}
    if op in ("query", "resolve", "support"):
        return base | {"C22", "C23", "C24", "C25"}
    return base


def finding(clause, e):
    return "unused-aot-providers-recorded" if clause == "unused-aot-providers-recorded" else None


def corrupt(e):
    if e["op"] in ("begin", "set"):
        return None
    e = json.loads(json.dumps(e))
    o = e["out"]
    if not o["ok"]:
        if e["op"] != "enter":
            return None
        e["out"] = {"ok": True}
        return e
    x = len(json.dumps(e)) % 3
    if x == 0 and e["calls"]:
        e["calls"][0][1]["load"] = 0 if e["calls"][0][1]["load"] else 1
        return e
    if e["op"] == "query" and o["v"]:
        if x == 1:
            o["v"][0][1][0][1].append("9")
        else:
            o["v"].pop()
        return e
    if e["op"] in ("resolve", "replay"):
        o["v"].append("l0")
        return e
    if e["op"] == "validate" and o["results"]:
        o["results"][0][1] = "valid" if o["results"][0][1] != "valid" else "unknown"
        return e
    if e["op"] == "distinfo":
        o["doc"][1] = [kv for kv in o["doc"][1] if kv[0] != "providers"]
        return e
    if e["op"] in ("pget", "platform") and o["v"]:
        o["v"].pop()
        return e
    return None
