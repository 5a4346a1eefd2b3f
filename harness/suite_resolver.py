"""Resolution: scenarios, execution and clause attribution (spec: TraceResolver)."""
from __future__ import annotations

import json
import random
from itertools import permutations

TRACE = "TraceResolver"

NSS = ["a", "b", "aa", "n_1", "z9"]
FEATS = ["f", "g", "ff", "x_1"]
VALS = ["1", "2", "10", "1.0", "v.a_b"]
VERSIONS = [("1.2.3", ["1", "2", "3"]), ("1", ["1", "0", "0"]), ("2.0rc1", ["2", "0", "0"]),
            ("1!4.5.post1", ["4", "5", "0"]), ("1.2.3.4+cu12", ["1", "2", "3"]), ("01.02", ["1", "2", "0"]),
            ("2024.10.1", ["2024", "10", "1"]), ("0.0.0", ["0", "0", "0"]), ("v3.1", ["3", "1", "0"]),
            ("1.10", ["1", "10", "0"]), ("2.1.dev3", ["2", "1", "0"])]
BADVER = ["", "abc", "1..2", "1.x", "=1.2", "1.0==2.0", "1.2.*", ">=1"]
PKGS = ["torch", "Torch", "foo-bar", "foo_bar", "Foo.Bar", "foo--bar", "pkg1", "a"]
BADPKG = ["bad name", "", "x+y"]


def version(r):
    """A version, or nearly one, with the numbers of its release."""
    num = lambda: r.choice(["0", "1", "2", "10", "007", "00", "2024", "99999999999"])  # noqa: E731
    sep = lambda: r.choice(["", "", ".", "-", "_"])  # noqa: E731
    rel = [num() for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5]))]
    t = r.choice(["", "", "", "v", "V"]) + r.choice(["", "", "", "0!", "1!", "12!"]) + ".".join(rel)
    for words, p in ((["a", "alpha", "b", "beta", "c", "rc", "pre", "preview", "RC"], .3), (["post", "rev", "r", "Post"], .25),
                     (["dev", "DEV"], .25)):
        if r.random() < p:
            t += sep() + r.choice(words) + r.choice(["", sep() + num()])
        elif words[0] == "post" and r.random() < .1:
            t += "-" + num()
    if r.random() < .2:
        t += "+" + r.choice([".", "-", "_"]).join(r.choice(["cu12", "1", "ubuntu", "G0", "abc"]) for _ in range(r.choice([1, 2, 3])))
    ok = True
    if r.random() < .25:        # one slip
        ok = False
        i = r.randrange(len(t) + 1)
        c = r.choice("0.-_+!avrx*~ ,")
        t = r.choice([t[:i] + t[i + 1:], t[:i] + c + t[i:], t[:i] + c + t[i + 1:]]).replace(",", "")
    a = [str(int(x)) for x in rel] + ["0", "0"]
    return t, a[:3], ok


# ----------------------------------------------------------------- generation
def _big(r):
    """Whether this scenario is one of the few of unusual size."""
    return bool(getattr(r, "big", 0))


LONGNAMES = ["n" * 65, "a_" * 130, "x" * 300]


def _world(r: random.Random, many=True):
    inst, env = [], []
    for k in range((r.choice([15, 40, 90]) if _big(r) else r.choice([0, 0, 1, 2, 3])) if many else 0):
        if _big(r) and r.random() < .8:
            v, rel = r.choice(VERSIONS)
            inst.append({"name": f"Pkg-{k}", "ver": v, "ok": True, "rel": rel})
        elif r.random() < 0.2:
            inst.append({"name": r.choice(PKGS + BADPKG), "ver": r.choice(BADVER), "ok": False, "rel": ["0", "0", "0"]})
        else:
            n = r.choice(PKGS + ([r.choice(BADPKG)] if r.random() < .1 else []))
            v, rel = r.choice(VERSIONS)
            if r.random() < .5:
                v, rel, ok = version(r)
                inst.append({"name": n, "ver": v.strip(), "ok": ok, "rel": rel})
                continue
            inst.append({"name": n, "ver": v, "ok": True, "rel": rel})
    raw = []
    for k in range((r.choice([9, 17, 40]) if _big(r) else r.choice([0, 0, 1, 2, 4])) if many else 0):
        x = r.random()
        if _big(r) and x < .8:
            v, rel = r.choice(VERSIONS)
            raw.append(f"pkg.{k + 5}=={v}")
            env.append({"name": f"pkg.{k + 5}", "ok": True, "rel": rel})
        elif x < .12:
            raw.append(r.choice(["torch", "", "torch=1.0", "torch>=1.0", "==", "==1.0"]))
            env.append({"name": "", "ok": False, "rel": ["0", "0", "0"]})
        elif x < .25:
            n, v = r.choice(PKGS), r.choice(BADVER)
            raw.append(f"{n}=={v}")
            env.append({"name": n, "ok": False, "rel": ["0", "0", "0"]})
        else:
            n = r.choice(PKGS + ([r.choice(BADPKG)] if r.random() < .1 else []))
            v, rel = r.choice(VERSIONS)
            if r.random() < .5:
                v, rel, ok = version(r)
                sp = r.choice(["", "", "", " ", "\t"])
                raw.append(f"{n}=={sp}{v}{sp}")
                env.append({"name": n, "ok": ok, "rel": rel})
                continue
            raw.append(f"{n}=={v}")
            env.append({"name": n, "ok": True, "rel": rel})
    return inst, env, (",".join(raw) if raw else r.choice([None, ""]))


def _abi_props(inst, env, r):
    out = []
    for e in inst + env:
        if e["ok"]:
            n = e["name"].lower().replace("--", "-").replace("-", "_").replace(".", "_")
            if n and all(c.isalnum() or c == "_" for c in n):
                a, b, c = e["rel"]
                out += [["abi_dependency", n, a], ["abi_dependency", n, f"{a}.{b}"], ["abi_dependency", n, f"{a}.{b}.{c}"]]
    out.append(["abi_dependency", r.choice(["torch", "foo_bar", "pkg1"]), r.choice(["1", "1.2", "9", "2.0.0", "1.2.3"])])
    return out


def _desc(r, props, junk, n=None):
    n = r.choice([0, 1, 1, 2, 2, 3, 4] + [6, 12, 25] * (2 * _big(r))) if n is None else n
    pool = list(props)
    out = []
    for _ in range(n):
        if pool and r.random() < .85:
            p = r.choice(pool)
        elif junk:
            p = r.choice(junk)
        else:
            continue
        if p not in out:
            out.append(p)
    if out and r.random() < .3:           # another value of a feature it uses already
        p = r.choice(out)
        q = [p[0], p[1], r.choice(junk)[2] if junk and r.random() < .5 else r.choice(VALS)]
        if q not in out:
            out.append(q)
    r.shuffle(out)
    return out


def _sub(r, xs, p=.6):
    xs = [x for x in xs if r.random() < p]
    r.shuffle(xs)
    return xs


def _prios(r, nss, feats, vals, rich=.6):
    feat = [[n, _sub(r, feats + ["zz"])] for n in nss + ["other"] if r.random() < rich]
    prop = [[n, [[f, _sub(r, vals + ["99"])] for f in feats if r.random() < rich]] for n in nss + ["other"]
            if r.random() < rich]
    return feat, prop


def _space(r):
    if _big(r):
        shapes = [(12, 1, 2), (1, 1, 110), (1, 20, 2), (2, 2, 17), (1, 2, 40), (2, 11, 3)]     # many of one of them
        if r.big % 2:
            a, b, c = shapes[r.big // 2 % len(shapes)]
        else:
            a, b, c = r.choice([5, 6]), r.choice([3, 4]), r.choice([3, 4])
        nss = [f"n{i}" for i in range(a)] if a > 1 else ["n"]
        feats = [f"f{i}" for i in range(b)]
        vals = [f"{i}" for i in range(c - 1)] + ["v.1_0"]
        if r.random() < .3:
            nss[0] = r.choice(LONGNAMES)
            feats[-1] = r.choice(LONGNAMES)
            vals[0] = r.choice(LONGNAMES)
        for x in (nss, feats, vals):
            r.shuffle(x)
        return nss, feats, vals
    if r.random() < .35:      # names that run into one another, or mean different things in different places
        n = r.choice([2, 3, 3, 5])
        return (r.sample(["a", "ab", "a_b", "b", "abc"], n), r.sample(["c", "bc", "b_c", "ab", "a"], n),
                r.sample(["d", "cd", "c_d", "c.d", "c", "a", "bcd"], n))
    nss = r.sample(NSS, r.choice([1, 1, 2, 2, 3]))
    feats = r.sample(FEATS, r.choice([1, 2, 2, 3]))
    vals = r.sample(VALS, r.choice([1, 2, 3]))
    return nss, feats, vals


def _sup(r, nss, feats, vals, group=True):
    """Supported properties, as providers would report them or in a freer order."""
    out = []
    for n in _sub(r, nss, .9):
        for f in _sub(r, feats, .8):
            for v in _sub(r, vals, .8):
                out.append([n, f, v])
    if not group:
        r.shuffle(out)
    return out


def sfs(r):
    nss, feats, vals = _space(r)
    inst, env, raw = _world(r, r.random() < .5)
    sup = _sup(r, nss, feats, vals, r.random() < .6)
    allp = [[n, f, v] for n in nss for f in feats for v in vals]
    abi = _abi_props(inst, env, r) if r.random() < .5 else []
    ds = [_desc(r, (sup or allp) + abi, allp + abi) for _ in range(r.choice([12, 20, 40] if _big(r) else [1, 2, 3, 4, 6, 8]))]
    if ds and r.random() < .4:
        d = list(r.choice(ds))
        r.shuffle(d)
        ds.insert(r.randrange(len(ds) + 1), d)
    ns = list(nss)
    r.shuffle(ns)
    if r.random() < .3:
        ns.insert(r.randrange(len(ns) + 1), "other")
    if r.random() < .2:
        ns.insert(r.randrange(len(ns) + 1), "abi_dependency")
    if r.random() < .08:
        ns = ns[1:]
    if r.random() < .1 and ns:
        ns.append(ns[0])
    feat, prop = _prios(r, nss + (["abi_dependency"] if r.random() < .2 else []),
                        feats + (["torch", "pkg1"] if r.random() < .2 else []), vals, r.choice([0, .4, .9]))
    mode = r.choice(["none", "none", "empty", "some", "some"])
    fn = ff = fp = None
    if mode == "empty":
        fn, ff, fp = [], [], []
    elif mode == "some" and r.random() < .3 and any(ds):
        # near misses of what the variants use
        p = r.choice([p for d in ds for p in d])
        fn = [x for x in {p[0][:-1], p[0] + "_", p[1], p[2].replace(".", "_")} if x and x != p[0]]
        joined = p[0] + p[1]
        ff = [[joined[:i], joined[i:]] for i in range(1, len(joined)) if joined[:i] != p[0]] + [[p[1], p[0]]]
        ff = [f for f in ff if f != p[:2]]
        tail = p[1] + p[2].replace(".", "_")
        fp = [[p[0], tail[:i], tail[i:]] for i in range(1, len(tail)) if tail[:i] != p[1]]
    elif mode == "some":
        fn = _sub(r, nss + ["abi_dependency", "q"], .25) if r.random() < .5 else None
        ff = _sub(r, [[n, f] for n in nss for f in feats] + [["abi_dependency", "torch"]], .25) if r.random() < .6 else None
        fp = _sub(r, allp, .25) if r.random() < .7 else None
    return {"op": "sfs", "ds": ds, "sup": sup, "ns": ns, "feat": feat, "prop": prop, "fn": fn, "ff": ff, "fp": fp,
            "inst": inst, "env": env, "raw": raw, "noprio": r.random() < .1}


def filt(r):
    s = sfs(r)
    s["op"] = "filter"
    s["which"] = r.choice(["dup", "ns", "feat", "prop", "all"])
    s["gen"] = r.random() < .5
    for k in ("fn", "ff", "fp"):
        s[k] = s[k] or []
    if s["which"] in ("ns", "feat") and r.random() < .8:
        used = [p for d in s["ds"] for p in d]
        if used:
            p = r.choice(used)
            s["fn"], s["ff"] = s["fn"] + [p[0]], s["ff"] + [[p[0], p[1]]]
    return s


def sortp(r):
    s = sfs(r)
    s["op"] = "sortp"
    return s


def sortd(r):
    s = sfs(r)
    s["op"] = "sortd"
    keep = list(s["sup"])
    r.shuffle(keep)
    s["sorted"] = keep
    if r.random() < .8:
        fs = {}
        for p in keep:
            fs.setdefault((p[0], p[1]), set()).add(p[2])
        ds = []
        for d in s["ds"]:
            d = [p for p in d if (p[0], p[1]) in fs]
            for p in list(d):
                if not any(q[2] in fs[(p[0], p[1])] for q in d if q[:2] == p[:2]):
                    d.append([p[0], p[1], sorted(fs[(p[0], p[1])])[0]])
            ds.append(d)
        s["ds"] = ds
    return s


def agg(r):
    kind = r.choice(["ns", "feat", "prop"])
    n = r.choice([1, 4, 7] if _big(r) else [1, 2, 2, 3])
    pool = [f"{c}{i}" for c in "abcd" for i in range(8)] if _big(r) else ["a", "b", "c", "d"]

    def lst():
        x = _sub(r, pool, .6)
        if r.random() < .1 and x:
            x.append(x[0])
        return x
    if kind == "ns":
        srcs = [lst() for _ in range(n)]
    elif kind == "feat":
        srcs = [[[k, lst()] for k in _sub(r, ["m", "n", "o"] + pool * _big(r))] for _ in range(n)]
    else:
        srcs = [[[k, [[f, lst()] for f in _sub(r, ["f", "g"] + pool[:9] * _big(r))]] for k in _sub(r, ["m", "n"])] for _ in range(n)]
    return {"op": "agg", "kind": kind, "srcs": srcs, "none": [i for i in range(n) if r.random() < .15]}


def inject(r):
    inst, env, raw = _world(r)
    nss, feats, vals = _space(r)
    return {"op": "inject", "sup": _sup(r, nss, feats, vals), "ns": nss, "inst": inst, "env": env, "raw": raw}


TRUE_MARKERS = ["python_version >= '3.8'", "sys_platform == 'linux'",
                "platform_system == \"Linux\" or os_name == 'nt'", "python_full_version < '4'"]
FALSE_MARKERS = ["python_version < '3'", "sys_platform == 'win32'",
                 "platform_system == 'Linux' and os_name == 'nt'"]


def api(r, plugins: bool, abi_focus=False):
    nss, feats, vals = _space(r)
    inst, env, raw = _world(r, abi_focus or r.random() < .5)
    provs, static, plug, feat = [], [], [], []
    enabled = r.choice(["all", "none", "none", "some"])
    sel = _sub(r, nss, .5)
    for n in nss:
        inst_time = plugins and r.random() < .6
        p = {"install": inst_time, "optional": r.random() < .35, "sel": sel}
        m = r.random()
        p["enable_if"] = None if m < .5 else r.choice(TRUE_MARKERS) if m < .75 else r.choice(FALSE_MARKERS)
        p["marker"] = p["enable_if"] is None or p["enable_if"] in TRUE_MARKERS
        conf = [[f, vs] for f in _sub(r, feats, .8) if (vs := _sub(r, vals, .8))]
        if inst_time:
            plug.append([n, conf])
        else:
            conf = conf or [[feats[0], [vals[0]]]]
            static.append([n, conf])
            if len(conf) > 1:
                fs = [c[0] for c in conf]
                r.shuffle(fs)
                if r.random() < .3:
                    fs.insert(r.randrange(len(fs) + 1), "zz")
                feat.append([n, fs])
        provs.append([n, p])
    r.shuffle(static)
    r.shuffle(plug)
    supp = [[n, f, v] for n, c in static + plug for f, vs in c for v in vs]
    allp = [[n, f, v] for n in nss for f in feats for v in vals] + [["unk", "f", "1"]]
    abi = _abi_props(inst, env, r) if abi_focus or r.random() < .4 else []
    variants, used = [], set()
    for i in range(r.choice([12, 20, 40] if _big(r) else [1, 2, 3, 4, 6])):
        d = _desc(r, (supp or allp) + abi * (3 if abi_focus else 1), allp)
        lab = "null" if not d else r.choice([f"l{i}", f"z{99 - i}", f"{i}.x_", "a" * min(16, 10 + i)])
        if lab in used:
            continue
        used.add(lab)
        variants.append([lab, d])
    if len(variants) > 1 and variants[0][1] and r.random() < .3:
        variants.append(["dup", list(reversed(variants[0][1]))])
    cfg = {"ns": [], "feat": [], "prop": []}
    if r.random() < .6:
        cf, cp = _prios(r, nss, feats, vals, r.choice([.3, .9]))
        cfg = {"ns": _sub(r, nss + ["other", "abi_dependency"], .5), "feat": cf, "prop": cp}
    pf, pp = _prios(r, [n for n in nss if n not in dict(feat)], feats, vals, r.choice([0, .6]))
    pf = [x for x in pf if x[0] != "other" or r.random() < .5]
    pp = [x for x in pp if x[1]]
    pns = list(nss)
    r.shuffle(pns)
    return {"op": "api", "variants": variants, "provs": provs, "static": static, "plug": plug, "enabled": enabled,
            "cfg": cfg, "pkg": {"ns": pns, "feat": feat + pf, "prop": pp}, "inst": inst, "env": env, "raw": raw,
            "form": r.choice(["dict", "dict", "obj"]), "plugins": plugins}


def collision_scenarios(r):
    """Variants with equal (truncated) hashes must not be confused."""
    out = []
    for i, (d1, d2) in enumerate(COLLIDING):
        props = d1 + d2
        sup_sets = [props, d1, d2]
        for k, sup in enumerate(sup_sets):
            ns = ["a"]
            out.append({"op": "sfs", "ds": [d1, d2] if k % 2 else [d2, d1], "sup": [list(x) for x in {tuple(p): 0 for p in sup}],
                        "ns": ns, "feat": [], "prop": [], "fn": None, "ff": None, "fp": None, "inst": [], "env": [],
                        "raw": None, "noprio": False})
        conf: dict = {}
        for p in props:
            conf.setdefault(p[1], [])
            if p[2] not in conf[p[1]]:
                conf[p[1]].append(p[2])
        out.append({"op": "api", "variants": [["one", d1], ["two", d2]],
                    "provs": [["a", {"install": False, "optional": False, "sel": [], "enable_if": None, "marker": True}]],
                    "static": [["a", [[f, v] for f, v in conf.items()]]], "plug": [], "enabled": "none",
                    "cfg": {"ns": [], "feat": [], "prop": []},
                    "pkg": {"ns": ["a"], "feat": [["a", list(conf)]], "prop": []}, "inst": [], "env": [], "raw": None,
                    "form": "dict", "plugins": False})
    return out


from collisions import COLLIDING  # noqa: E402

KINDS = {
    "C01": [("api", 500), ("apip", 130), ("sfs", 500), ("filter", 300)],
    "C02": [("sfs", 900), ("sortp", 400), ("sortd", 400), ("api", 250), ("apip", 60)],
    "C03": [("agg", 900), ("api", 500), ("apip", 100), ("sortp", 300)],
    "C04": [("sfs", 1100), ("filter", 900)],
    "C05": [("abi", 500), ("inject", 700), ("sfs", 400), ("apip", 30)],
    "C06": [("api", 450), ("apip", 150), ("abi", 200)],
    "C07": [("sfs", 400), ("filter", 350), ("sortp", 200), ("sortd", 150), ("agg", 300), ("api", 250), ("apip", 40)],
}
GEN = {"api": lambda r: api(r, False), "apip": lambda r: api(r, True), "abi": lambda r: api(r, False, True),
       "sfs": sfs, "filter": filt, "sortp": sortp, "sortd": sortd, "agg": agg, "inject": inject}


def generate(prop: str, seed: int, tier: str) -> list[dict]:
    r = random.Random(f"{seed}/{prop}/resolver")
    mult = 1 if tier == "quick" else 8
    out = []
    for kind, n in KINDS[prop]:
        for i in range(n * mult):
            r.big = 1 + i // 40 if i % 40 == 7 else 0
            s = GEN[kind](r)
            s["id"] = f"{kind}-{i}"
            out.append(s)
    if prop in ("C01", "C04", "C02", "C06"):
        for i, s in enumerate(collision_scenarios(r)):
            s["id"] = f"collision-{i}"
            out.append(s)
    return out


def from_model(states: list[dict]) -> list[dict]:
    """Scenarios out of terminal states printed by TLC (MCResolver)."""
    out, texts = [], []
    for i, st in enumerate(states):
        if "src" in st:                    # MCVersion: a text, and whether it is a version
            texts.append(st)
            continue
        x = st["inp"]
        inst = [{"name": p[1], "ver": p[2], "ok": True, "rel": p[2].split(".")} for p in x["abi"][2::3]]
        out.append({"id": f"model-{i}", "op": "sfs", "ds": x["ds"], "sup": x["sup"], "ns": x["pr"]["ns"],
                    "feat": x["pr"]["feat"], "prop": x["pr"]["prop"], "fn": x["fn"], "ff": x["ff"], "fp": x["fp"],
                    "inst": inst, "env": [], "raw": None, "noprio": False, "want": st["out"]})
    for k in range(0, len(texts), 40):
        want, raw = [], []
        for i, st in enumerate(texts[k:k + 40]):
            raw.append(f"p{i:02}==" + "".join(map(chr, st["src"])))
            if st["ok"]:
                a, b, c = ([str(int("".join(map(chr, n)))) for n in st["nums"]] + ["0", "0"])[:3]
                want += [["abi_dependency", f"p{i:02}", v] for v in (a, f"{a}.{b}", f"{a}.{b}.{c}")]
        out.append({"id": f"versions-{k}", "op": "inject", "sup": [["a", "b", "c"]], "ns": ["a"], "inst": [], "env": [],
                    "raw": ",".join(raw), "want": want})
    return out


def agrees(s: dict, session: dict) -> bool:
    o = session["ev"][0]["out"]
    if s["op"] == "inject":
        return o["ok"] and o["val"]["sup"][1:] == s["want"]
    return o["ok"] and o["val"] == s["want"] and not session["ev"][0]["mut"] and session["ev"][0]["rep"]


# ------------------------------------------------------------------ execution
def execute(s):
    import base as B
    import world as W
    from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty

    P = lambda ps: [VariantProperty(*p) for p in ps]  # noqa: E731
    D = lambda ds: [VariantDescription(P(d)) for d in ds]  # noqa: E731
    F = lambda fs: [VariantFeature(*f) for f in fs]  # noqa: E731
    op = s["op"]
    if "inst" in s:
        W.dists([(i["name"] if (i["name"] or i["ok"]) else None, i["ver"]) for i in s["inst"]])
        W.abi_env(s["raw"])
    cps = lambda t: [ord(c) for c in t]  # noqa: E731
    inst = [{"has": bool(i["name"] or i["ok"]), "name": cps(i["name"]), "ver": cps(i["ver"])} for i in s.get("inst", [])]
    env = cps(s.get("raw") or "")

    def twice(fn, args):
        w = B.Watch(**args())
        o1 = B.call(lambda: fn(**w.args))
        mut = w.changed()
        o2 = B.call(lambda: fn(**w.args))
        o3 = B.call(lambda: fn(**args()))
        key = lambda o: (o["ok"], o.get("val"), o.get("exc"))  # noqa: E731
        return o1, sorted(set(mut + w.changed())), key(o1) == key(o2) == key(o3)

    if op == "sfs":
        from variantlib.resolver.lib import sort_and_filter_supported_variants as f

        def args():
            return {"vdescs": D(s["ds"]), "supported_vprops": P(s["sup"]), "namespace_priorities": list(s["ns"]),
                    "feature_priorities": None if s["noprio"] else B.undict(s["feat"]),
                    "property_priorities": None if s["noprio"] else B.undict3(s["prop"]),
                    "forbidden_namespaces": None if s["fn"] is None else list(s["fn"]),
                    "forbidden_features": None if s["ff"] is None else F(s["ff"]),
                    "forbidden_properties": None if s["fp"] is None else P(s["fp"])}
        o, mut, rep = twice(lambda **a: [B.desc(d) for d in f(**a)], args)
        return [{"op": "sfs", "in": {"ds": s["ds"], "sup": s["sup"], "ns": s["ns"],
                                     "feat": [] if s["noprio"] else s["feat"], "prop": [] if s["noprio"] else s["prop"],
                                     "fn": s["fn"] or [], "ff": s["ff"] or [], "fp": s["fp"] or [],
                                     "inst": inst, "env": env}, "out": o, "mut": mut, "rep": rep}]
    if op == "filter":
        from variantlib.resolver import filtering as fl
        from variantlib.resolver.lib import filter_variants
        which = s["which"]

        def run(**a):
            ds = (d for d in a["ds"]) if s["gen"] and which != "all" else a["ds"]
            if which == "dup":
                res = fl.remove_duplicates(ds)
            elif which == "ns":
                res = fl.filter_variants_by_namespaces(ds, a["fn"])
            elif which == "feat":
                res = fl.filter_variants_by_features(ds, a["ff"])
            elif which == "prop":
                res = fl.filter_variants_by_property(ds, a["sup"], a["fp"])
            else:
                res = filter_variants(ds, a["sup"], a["fn"], a["ff"], a["fp"])
            return [B.desc(d) for d in res]
        o, mut, rep = twice(run, lambda: {"ds": D(s["ds"]), "sup": P(s["sup"]), "fn": list(s["fn"]),
                                          "ff": F(s["ff"]), "fp": P(s["fp"])})
        return [{"op": "filter", "in": {k: s[k] for k in ("which", "ds", "sup", "fn", "ff", "fp")},
                 "out": o, "mut": mut, "rep": rep}]
    if op == "sortp":
        from variantlib.resolver.sorting import sort_variant_properties as f
        o, mut, rep = twice(lambda **a: [B.prop(p) for p in f(**a)],
                            lambda: {"vprops": P(s["sup"]), "namespace_priorities": list(s["ns"]),
                                     "feature_priorities": None if s["noprio"] else B.undict(s["feat"]),
                                     "property_priorities": None if s["noprio"] else B.undict3(s["prop"])})
        return [{"op": "sortp", "in": {"sup": s["sup"], "ns": s["ns"], "feat": [] if s["noprio"] else s["feat"],
                                       "prop": [] if s["noprio"] else s["prop"]}, "out": o, "mut": mut, "rep": rep}]
    if op == "sortd":
        from variantlib.resolver.sorting import sort_variants_descriptions as f
        o, mut, rep = twice(lambda **a: [B.desc(d) for d in f(**a)],
                            lambda: {"vdescs": D(s["ds"]), "property_priorities": P(s["sorted"])})
        return [{"op": "sortd", "in": {"ds": s["ds"], "sorted": s["sorted"]}, "out": o, "mut": mut, "rep": rep}]
    if op == "agg":
        from variantlib import utils
        f = {"ns": utils.aggregate_namespace_priorities, "feat": utils.aggregate_feature_priorities,
             "prop": utils.aggregate_property_priorities}[s["kind"]]
        dec = {"ns": list, "feat": B.undict, "prop": B.undict3}[s["kind"]]
        enc = {"ns": B.lstr, "feat": B.feats, "prop": B.props3}[s["kind"]]
        srcs = [([] if i in s["none"] else x) for i, x in enumerate(s["srcs"])]

        def scribble(x):
            if isinstance(x, dict):
                for v in x.values():
                    scribble(v)
            else:
                x.append("scribble")

        def run(**a):
            res = f(*a["srcs"])
            out = json.loads(json.dumps(enc(res)))
            scribble(res)
            return out
        o, mut, rep = twice(run, lambda: {"srcs": [None if i in s["none"] else dec(x) for i, x in enumerate(s["srcs"])]})
        return [{"op": "agg", "in": {"kind": s["kind"], "srcs": srcs}, "out": o, "mut": mut, "rep": rep}]
    if op == "inject":
        from variantlib.resolver.lib import inject_abi_dependency as f

        def run(sup, ns):
            sup, ns = list(sup), list(ns)
            f(sup, ns)
            return {"sup": [B.prop(p) for p in sup], "ns": B.lstr(ns)}
        o, mut, rep = twice(run, lambda: {"sup": P(s["sup"]), "ns": list(s["ns"])})
        return [{"op": "inject", "in": {"sup": s["sup"], "ns": s["ns"], "inst": inst, "env": env}, "out": o,
                 "mut": mut, "rep": rep}]
    if op == "api":
        return _api(s, inst, env, B, W)
    raise AssertionError(op)


def index_dict(s, key):
    provs = {}
    for n, p in s["provs"]:
        d = {}
        if p["install"]:
            d["requires"] = [f"fake-{n[:20]}"]
            d["plugin-api"] = f"vplug_fake:{key}_{n[:20]}"
        else:
            d["install-time"] = False
        if p["optional"]:
            d["optional"] = True
        if p["enable_if"] is not None:
            d["enable-if"] = p["enable_if"]
        provs[n] = d
    variants = {}
    for lab, d in s["variants"]:
        v: dict = {}
        for n, f, x in d:
            v.setdefault(n, {}).setdefault(f, []).append(x)
        variants[lab] = v
    doc = {"$schema": "x", "default-priorities": {"namespace": list(s["pkg"]["ns"])}, "providers": provs,
           "variants": variants}
    if s["pkg"]["feat"]:
        doc["default-priorities"]["feature"] = {n: list(f) for n, f in s["pkg"]["feat"]}
    if s["pkg"]["prop"]:
        doc["default-priorities"]["property"] = {n: {f: list(v) for f, v in fs} for n, fs in s["pkg"]["prop"]}
    if s["static"]:
        doc["static-properties"] = {n: {f: list(v) for f, v in c} for n, c in s["static"]}
    return doc


def _api(s, inst, env, B, W):
    from variantlib.api import check_variant_supported, get_variants_by_priority
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.variants_json import VariantsJson
    key = W.unique()
    for n, conf in s["plug"]:
        W.plugin(f"{key}_{n[:20]}", {"namespace": n, "get_supported_configs": [[f, v, False] for f, v in conf],
                                "get_all_configs": [[f, v, False] for f, v in conf]})
    c = s["cfg"]
    W.local_config(W.config_toml(c["ns"], c["feat"], c["prop"]) if any(c.values()) else None)
    doc = index_dict(s, key)
    sel = s["provs"][0][1]["sel"]
    enabled = {"all": True, "none": False, "some": list(sel)}[s["enabled"]]

    def args():
        d = json.loads(json.dumps(doc))
        return {"variants_json": VariantsJson(d) if s["form"] == "obj" else d,
                "enable_optional_plugins": list(enabled) if isinstance(enabled, list) else enabled}

    def one(o, f):
        return ("yes" if o["val"] is True else "no" if o["val"] is False else "?") if o["ok"] else o["exc"]
    w = B.Watch(**args())
    o1 = B.call(lambda: B.lstr(get_variants_by_priority(**w.args)))
    mut = w.changed()
    o2 = B.call(lambda: B.lstr(get_variants_by_priority(**w.args)))
    o3 = B.call(lambda: B.lstr(get_variants_by_priority(**args())))
    k = lambda o: (o["ok"], o.get("val"), o.get("exc"))  # noqa: E731
    rep = k(o1) == k(o2) == k(o3)
    checks = []
    if o1["ok"]:
        vj = VariantsJson(json.loads(json.dumps(doc)))
        w2 = B.Watch(variant_info=vj, en=enabled)
        for lab, d in s["variants"]:
            vd = VariantDescription([VariantProperty(*p) for p in d])
            o = B.call(lambda: check_variant_supported(vdesc=vd, variant_info=vj, enable_optional_plugins=enabled))
            checks.append([lab, one(o, None)])
        imp = one(B.call(lambda: check_variant_supported(variant_info=vj, enable_optional_plugins=enabled)), None)
        mut = sorted(set(mut + w.changed() + w2.changed()))
        o1.update(checks=checks, implicit=imp)
    return [{"op": "api", "in": {"variants": s["variants"],
                                 "provs": [[n, {"install": p["install"], "optional": p["optional"], "marker": p["marker"],
                                                "sel": p["sel"]}] for n, p in s["provs"]],
                                 "static": s["static"], "plug": s["plug"], "enabled": s["enabled"], "cfg": c,
                                 "pkg": s["pkg"], "inst": inst, "env": env},
             "out": o1, "mut": mut, "rep": rep}]


# --------------------------------------------------------------- attribution
def properties_of(clause: str, e: dict) -> set[str]:
    op, x = e["op"], e["in"]
    cfg = op == "api" and any(x["cfg"].values())
    prio = cfg or op in ("sfs", "sortp") and (x["feat"] or x["prop"])
    abi = op in ("api", "sfs") and bool(x["inst"] or x["env"])
    forb = op in ("sfs", "filter") and bool(x["fn"] or x["ff"] or x["fp"])
    if clause in ("inputs-unchanged", "repeatable"):
        return {"C07"} | ({"C03"} if op == "agg" and clause == "inputs-unchanged" else set())
    if clause == "resolves-without-error":
        return {"C01", "C02"} | ({"C05"} if abi else set()) | ({"C04"} if forb else set()) | ({"C03"} if prio else set()) \
            | ({"C06"} if op == "api" else set())
    if clause in ("only-supported-offered", "every-supported-offered"):
        return {"C01"} | ({"C05"} if abi else set())
    if clause in ("only-labels-of-the-index", "each-once", "null-offered", "null-label"):
        return {"C01"} | ({"C04"} if op == "sfs" and clause == "each-once" else set())
    if clause in ("null-last", "preference-order", "ties-keep-listing-order", "unranked-namespace-reported",
                  "description-order", "unfiltered-reported", "property-order", "exact-answer", "sorts-without-error"):
        res = {"C02"}
        if prio:
            res.add("C03")
        if abi and clause != "exact-answer":
            res.add("C05")
        return res
    if clause in ("single-check-agrees", "single-implicit"):
        return {"C06"} | ({"C05"} if abi else set())
    if clause in ("only-allowed-offered", "every-allowed-offered", "exclusion-keeps-order"):
        return ({"C04"} if forb else {"C01"}) | ({"C05"} if abi else set())
    if clause.startswith("filter"):
        return {"C04"} | ({"C01"} if clause in ("filter-prop", "filter-all", "filter-dup", "filters-without-error") else set())
    if clause.startswith("aggregate"):
        return {"C03"}
    if clause.startswith("abi-") or clause == "injects-without-error":
        return {"C05"}
    return {"C01"}


def corrupt(e: dict):
    """A wrong outcome the specification has to reject (guards against a vacuous trace specification)."""
    e = json.loads(json.dumps(e))
    o = e["out"]
    if e["op"] in ("sfs", "api") and o["ok"] and len(o["val"]) >= 2:
        o["val"] = o["val"][::-1]
        return e
    if e["op"] in ("filter", "sortp", "sortd") and o["ok"] and o["val"]:
        o["val"] = o["val"][1:]
        return e
    if e["op"] == "agg" and o["ok"] and e["in"]["kind"] == "ns" and len(o["val"]) >= 2:
        o["val"] = o["val"][1:]
        return e
    if e["op"] == "inject" and o["ok"] and len(o["val"]["sup"]) > len(e["in"]["sup"]):
        o["val"]["sup"] = o["val"]["sup"][:-1]
        return e
    return None
