"""Generation of projects with provider plugins, and of what their plugins answer."""
from __future__ import annotations

from suite_meta import D, S, strs

NSS = ["a", "b", "c", "n_1"]
FEATS = ["f", "g", "f1"]
VALS = ["1", "2", "3", "1.0"]
MARKS = {"python_version >= '3'": "t", "os_name == 'posix' or os_name == 'nt'": "t", "os_name == 'nonesuch'": "f",
         "python_version < '3' and os_name == 'posix'": "f", "python_version >=": "bad", "x": "bad",
         "platform_python_implementation != ''": "t", "extra == 'x'": "f"}


def some(r, xs, lo=0, hi=3):
    return r.sample(xs, min(len(xs), r.randint(lo, hi)))


MOREFEATS = FEATS + ["a_1", "z", "f_2", "e", "f10"]
MOREVALS = VALS + ["10", "9", "v5", "a.b_c", "0", "x", "_", "01", "2.0"]


def feats(r):
    if getattr(r, "big", 0) and r.random() < .2:
        return [f"feat{i}" for i in r.sample(range(60), r.choice([11, 17, 40]))]
    return some(r, FEATS, 1, 2) if r.random() < .93 else some(r, MOREFEATS, 3, 8)


def vals(r):
    if getattr(r, "big", 0) and r.random() < .2:
        k = r.choice([17, 33, 150])
        return r.sample([f"{i}" for i in range(k)] if r.random() < .7 else [f"{i}." + "v" * 700 for i in range(k)], k)
    return some(r, VALS, 1, 3) if r.random() < .93 else some(r, MOREVALS, 4, 13)


def answer(r, multi=.4, bad=.0):
    fs = [[f, vals(r), r.random() < multi] for f in feats(r)]
    if r.random() < bad:
        x = r.randrange(5)
        if x == 0:
            fs[0][1] = []
        elif x == 1:
            fs[0][1] = fs[0][1] + fs[0][1][:1]
        elif x == 2:
            fs[0][0] = r.choice(["F", "", "a b", "f\n"])
        elif x == 3:
            fs[0][1] = fs[0][1] + [r.choice(["V", "", "x y", "1\n"])]
        else:
            fs = fs + [fs[0]]
    return {"ok": True, "v": fs}


FAILS = [{"kind": "raise"}, {"kind": "_exit", "code": 3}, {"kind": "kill"}, {"kind": "exit", "code": 1}, {"kind": "_exit", "code": 0},
         {"kind": "value", "value": None}, {"kind": "value", "value": 3}, {"kind": "value", "value": "text"},
         {"kind": "value", "value": {"f": ["1"]}}, {"kind": "value", "value": ["f"]}, "missing"]


class Plug:
    """What a plugin is told to do, with what that means for the specification."""

    def __init__(self, r, ns, key, aot, *, bad=.1, kinds=None):
        self.ns, self.key = ns, key
        self.loads = r.random() >= bad / 2
        al = answer(r, bad=bad)
        if aot:
            for f in al["v"]:
                f[2] = False if r.random() < .9 else f[2]
        sup = {"ok": True, "v": [[f, some(r, vs, 1, 3 if len(vs) < 4 else len(vs)) if vs else [], m] for f, vs, m in al["v"] if r.random() < .9]}
        if aot and not sup["v"]:
            sup = {"ok": True, "v": [list(f) for f in al["v"]]}
        self.aot = aot if r.random() >= bad else not aot
        data = {"namespace": ns}
        if self.aot or r.random() < .3:
            data["is_aot_plugin"] = self.aot
        for m, a in (("get_all_configs", al), ("get_supported_configs", sup)):
            data[m] = a["v"]
            x = r.random()
            if x < bad:
                a.clear()
                a["ok"] = False
                data[m] = r.choice([f for f in FAILS if f != "missing"])
            elif x < bad * 1.2:          # an answer mixed with other output is no answer
                data[m] = {"kind": "print", "text": r.choice(["noise\n", "{}", "[]\n", "\x00"]), "then": list(a["v"])}
                a.clear()
                a["ok"] = False
            elif x < bad * 1.2 + .1:
                data[m] = {"kind": r.choice(["print", "stderr"]), "text": "\n", "then": a["v"]}
            elif x < bad * 1.5 and a["v"]:   # a configuration that is not valid
                fs = [list(f) for f in a["v"]]
                fs[-1][1 + (x > bad * 1.35)] = r.choice(["yes", None, 1, [3], ["A B"], "abc", [None], {}, 0, [["1"]]])
                data[m] = fs
                a["v"] = [*a["v"][:-1], ["", *a["v"][-1][1:]]]
        if not self.loads:
            x = r.randrange(4)
            if x == 0:
                data["import"] = r.choice(["raise", "exit", "none", "print"])
            elif x == 1:
                data = None               # no such attribute
            elif x == 2:
                data[r.choice(["get_all_configs", "get_supported_configs"])] = "missing"
            else:
                data.pop("namespace")
        self.data = data
        self.spec = {"loads": self.loads, "aot": self.aot, "all": al, "sup": sup}


def project(r, sid, *, bad=.1, nss=None, kinds=("install", "install", "static", "aot", "optional", "aotopt")):
    """(metadata body, plugins, marks): providers with plugins named after sid"""
    nss = nss if nss is not None else some(r, NSS, 1, 3)
    provs, static, feat, plugs = [], [], [], []
    for j, n in enumerate(nss):
        kind = r.choice(kinds)
        e = []
        if kind == "static":
            e.append(("install-time", ["b", False]))
            fs = [(f, strs(vals(r))) for f in feats(r)]
            static.append((n, D(fs)))
            if len(fs) > 1:
                feat.append((n, strs([f for f, _ in fs])))
            if r.random() < .3:
                e.append(("plugin-api", S("vplug_fake:nonexistent")))
            if r.random() < .2:
                e.append(("optional", ["b", True]))
        else:
            aot = kind.startswith("aot")
            if aot:
                e.append(("install-time", ["b", False]))
            if kind in ("optional", "aotopt"):
                e.append(("optional", ["b", True]))
            p = Plug(r, n, f"p{sid}_{j}", aot, bad=bad)
            plugs.append(p)
            x = r.random()
            if x < .12:                   # named after its requirement
                p.ref = f"vpm_{p.key}" if r.random() < .6 else f"vpk.{p.key}"
                e.append(("requires", strs([p.ref.replace("_", "-") + r.choice(["", " >= 1", "[x]", "; os_name != ''"])])))
            else:
                p.ref = f"vplug_fake:{p.key}" if x < .9 else f"vplug_fake:nest.{p.key}"
                e.append(("requires", strs(["some-req"])))
                e.append(("plugin-api", S(p.ref if r.random() < .8 else p.ref.replace(":", r.choice([" : ", " :", ": "])))))
            if r.random() < .15:
                feat.append((n, strs(some(r, FEATS, 0, 2))))
        if r.random() < .3:
            e.append(("enable-if", S(r.choice(list(MARKS)[:4] + ([] if r.random() > bad else list(MARKS)[4:6]) + list(MARKS)[6:]))))
        r.shuffle(e)
        provs.append((n, D(e)))
    prio = [("namespace", strs(r.sample(nss, len(nss))))]
    if feat:
        prio.append(("feature", D(feat)))
    body = [("default-priorities", D(prio)), ("providers", D(provs))]
    if static:
        body.append(("static-properties", D(static)))
    return body, plugs, static


def marks():
    return [[k, v] for k, v in MARKS.items()]


def desc(r, plugs, static, *, wild=.15, lo=1):
    """properties of a variant, mostly known ones"""
    known = []
    for p in plugs:
        for f, vs, _ in p.spec["sup"].get("v", []) if r.random() < .7 else p.spec["all"].get("v", []):
            known += [[p.ns, f, v] for v in vs]
    for n, t in static:
        for f, vs in t[1]:
            known += [[n, f, v[1]] for v in vs[1]]
    import re
    known = [k for k in known if all(re.fullmatch("[a-z0-9_.]+", x) for x in k)]
    out = some(r, known, lo, 3) if known else []
    if r.random() < wild or not out:
        out.append([r.choice(NSS + ["zz"]), r.choice(FEATS), r.choice(VALS)])
    uniq = []
    for p in out:
        if p not in uniq:
            uniq.append(p)
    return uniq
