"""User configuration files: precedence, validity, changes over time, showing (spec: TraceConfig)."""
from __future__ import annotations

import json
import os
import pickle
import random
import subprocess
import sys
import tomllib
from pathlib import Path

TRACE = "TraceConfig"
MODEL_CAP = {"quick": 3000, "thorough": 30000}
CANARY_RATE = .5
LOCS = ["LOCAL", "VIRTUALENV", "USER", "GLOBAL"]

NSS = ["a", "b", "n_1", "0", "_"]
BADNS = ["A", "a-b", "", "a b", "a\n", "é", "a.b", "a::b", " a", "ª"]
TEXTS = ["f", "1", "f1", "v.1", "F", "a b", "x.y", "é", "\"q\"", "'s'", "a\\b", "l1\nl2", "", "#c", "[t]", "=", "\t", "日本", "a::b",
         "\x7f", "\u2028", "x=1,2", "true", "1.5", "'''", '"""', "😀"]


# -------------------------------------------------------------------- texts
def enc(s: str) -> str:
    """ASCII form of any text; names are unchanged"""
    return s.encode("unicode_escape").decode("ascii")


def tag(x):
    if isinstance(x, bool):
        return ["b", x]
    if isinstance(x, str):
        return ["s", enc(x)]
    if isinstance(x, int):
        return ["i", 1]
    if isinstance(x, list):
        return ["l", [tag(i) for i in x]]
    if isinstance(x, dict):
        return ["d", [[enc(k), tag(v)] for k, v in x.items()]]
    return ["f"]


class Raw(str):
    """TOML source of a value"""


def toml_key(r, k):
    bare = k and all(c.isascii() and (c.isalnum() or c in "_-") for c in k)
    return k if bare and r.random() < .8 else toml_text(r, k)


def toml_text(r, s):
    if r.random() < .25 and all(c.isprintable() and c != "'" for c in s):
        return f"'{s}'"
    return '"' + "".join(c if c.isprintable() and c not in '"\\' else f"\\u{ord(c):04x}" if ord(c) < 65536 else f"\\U{ord(c):08x}"
                         for c in s) + '"'


def toml_value(r, v):
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return toml_text(r, v)
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, list):
        if v and r.random() < .3:
            return "[\n" + "".join(f"  {toml_value(r, x)}, # {i}\n" for i, x in enumerate(v)) + "]"
        return "[" + ", ".join(toml_value(r, x) for x in v) + "]"
    return "{" + ", ".join(f"{toml_key(r, k)} = {toml_value(r, x)}" for k, x in v.items()) + "}"


def toml_doc(r, doc):
    """one of many ways to write a document"""
    out, tables = [], []
    for k, v in doc.items():
        if isinstance(v, dict) and r.random() < .8:
            tables.append((k, v))
        else:
            out.append(f"{toml_key(r, k)} = {toml_value(r, v)}\n")
    r.shuffle(tables)
    for k, v in tables:
        way = r.random()
        if any(isinstance(x, dict) for x in v.values()) and way < .5:
            out.append(f"[{toml_key(r, k)}]\n" if not v or r.random() < .4 else "")
            for n, fs in v.items():
                if isinstance(fs, dict):
                    out.append(f"[{toml_key(r, k)}.{toml_key(r, n)}]\n"
                               + "".join(f"{toml_key(r, f)} = {toml_value(r, x)}\n" for f, x in fs.items()))
                else:
                    return "".join(f"{toml_key(r, a)} = {toml_value(r, b)}\n" for a, b in doc.items())
        elif way < .7 and v:
            head = []
            for n, fs in v.items():
                if isinstance(fs, dict) and fs:
                    head += [f"{toml_key(r, k)}.{toml_key(r, n)}.{toml_key(r, f)} = {toml_value(r, x)}\n" for f, x in fs.items()]
                else:
                    head.append(f"{toml_key(r, k)}.{toml_key(r, n)} = {toml_value(r, fs)}\n")
            out = head + out
        else:
            out.append(f"[{toml_key(r, k)}]\n" + "".join(f"{toml_key(r, n)} = {toml_value(r, x)}\n" for n, x in v.items()))
    s = "".join(out)
    if r.random() < .2:
        s = "# comment\n" + s
    if r.random() < .15:
        s = s.replace("\n", "\r\n")
    return s


def big(r):
    """Whether this scenario is one of the few of unusual size."""
    return bool(getattr(r, "big", 0))


def texts(r, lo=0, hi=3):
    if big(r) and r.random() < .3:
        return r.choice([[f"t{i}" for i in range(r.choice([11, 33, 60]))], TEXTS, ["x" * 300, "y" * 5000]])
    return r.sample(TEXTS[:3] if r.random() < .5 else TEXTS, r.randint(lo, 3))[:hi]


def valid_doc(r):
    doc = {}
    NSS = globals()["NSS"] + [f"ns{i}" for i in range(30)] + ["n" * 300] if big(r) else globals()["NSS"]
    lots = r.choice([7, 20, 35]) if big(r) else 3
    if r.random() < .85:
        ns = r.sample(NSS, r.randint(0, lots))
        doc["namespace_priorities"] = ns + ns[:1] if r.random() < .1 else ns
    if r.random() < .5:
        doc["feature_priorities"] = {n: texts(r) for n in r.sample(NSS, r.randint(0, lots))}
    if r.random() < .5:
        doc["property_priorities"] = {n: {f: texts(r) for f in texts(r, 0)} for n in r.sample(NSS, r.randint(0, 2))}
    items = list(doc.items())
    r.shuffle(items)
    return dict(items)


WRONG = [1, 0, True, False, "a", "", 1.5, Raw("2020-01-01"), Raw("0.0"), Raw("nan"), Raw("12:00:00")]


def invalid_doc(r):
    doc = valid_doc(r)
    w = r.randrange(9)
    if w == 0:
        doc[r.choice(["x", "namespace", "namespace-priorities", "namespaces_priorities", "Namespace_priorities", "", "variants",
                      "default-priorities", "feature_priority", "cls"])] = r.choice([[], ["a"], 1, {}, "a"])
    elif w == 1:
        doc[r.choice(["namespace_priorities", "feature_priorities", "property_priorities"])] = r.choice(WRONG)
    elif w == 2:
        doc["namespace_priorities"] = r.choice([{}, {"a": ["f"]}, "ab"])
    elif w == 3:
        doc[r.choice(["feature_priorities", "property_priorities"])] = r.choice([[], ["a"], [["a"]], [{}]])
    elif w == 4:
        ns = doc.setdefault("namespace_priorities", [])
        ns.insert(r.randint(0, len(ns)), r.choice(BADNS + WRONG + [[], ["a"], {}]) )
    elif w == 5:
        doc.setdefault("feature_priorities", {})[r.choice(BADNS)] = texts(r)
    elif w == 6:
        doc.setdefault("property_priorities", {})[r.choice(BADNS)] = {"f": texts(r)}
    elif w == 7:
        x = texts(r)
        x.insert(r.randint(0, len(x)), r.choice(WRONG + [[], {}, ["f"]]))
        doc.setdefault("feature_priorities", {})[r.choice(NSS)] = x if r.random() < .5 else r.choice(WRONG + [{}, {"f": ["1"]}])
    else:
        x = texts(r)
        x.insert(r.randint(0, len(x)), r.choice(WRONG + [[], {}, ["f"]]))
        doc.setdefault("property_priorities", {})[r.choice(NSS)] = r.choice(
            [{"f": x}, {"f": {}}, {"f": "1"}, ["f"], [], "f", 1, {"f": ["1"], "g": {"h": ["1"]}}, {"f": ""}, {"f": False}])
    return doc


BROKEN = ["a = ", "[", "namespace_priorities = [a]", "namespace_priorities = ['a'", "x = 1\nx = 2\n", "= 1", "namespace_priorities: ['a']",
          "{}", "[feature_priorities]\na = ['f']\n[feature_priorities]\nb = ['f']\n", "namespace_priorities = ['a'] b = 1",
          "namespace_priorities = []\nnamespace_priorities = ['a']\n", "\x00", "feature_priorities = {a = ['f']\n}\n", "\ufeff"]
BROKEN_BYTES = ["ff", "6e616d657370616365 5f7072696f726974696573203d205b22e9225d"]


def gen_file(r, p=(.25, .5, .12, .08, .05)):
    k = r.choices(["absent", "doc", "bad", "broken", "dir"], p)[0]
    if k == "absent":
        return {"k": "absent"}
    if k == "dir":
        return {"k": r.choice(["dir", "dir", "dangling"])}
    if k == "broken":
        if r.random() < .15:
            return {"k": "broken", "hex": r.choice(BROKEN_BYTES).replace(" ", "")}
        return {"k": "broken", "text": r.choice(BROKEN)}
    doc = valid_doc(r) if k == "doc" else invalid_doc(r)
    return {"k": "doc", "text": toml_doc(r, doc), "link": r.random() < .1}


def gen_index(r):
    """an index whose resolution shows the priorities in force"""
    nss = r.sample(["a", "b", "n_1"], r.randint(1, 3))
    static = {n: {f: r.sample(["1", "2", "v.1"], r.randint(1, 3)) for f in r.sample(["f", "1", "f1"], r.randint(1, 2))} for n in nss}
    feat = {n: r.sample(list(fs), len(fs)) for n, fs in static.items() if len(fs) > 1 or r.random() < .2}
    prop = {n: {f: r.sample(["1", "2", "v.1"], 2) for f in fs} for n, fs in static.items() if r.random() < .3}
    vs = {"null": {}} if r.random() < .2 else {}
    for i in range(r.randint(2, 6)):
        d = {}
        for n in r.sample(nss, r.randint(1, len(nss))):
            d[n] = {f: r.sample(v, r.choice([1, 1, min(2, len(v))])) for f, v in static[n].items() if r.random() < .7}
        d = {n: fs for n, fs in d.items() if fs}
        if d and d not in vs.values():
            vs[f"l{i}"] = d
    prio = {"namespace": r.sample(nss, len(nss))}
    if feat:
        prio["feature"] = feat
    if prop:
        prio["property"] = prop
    return {"default-priorities": prio, "providers": {n: {"install-time": False} for n in nss},
            "static-properties": static, "variants": vs}


def gen_ops(r, n):
    ops = []
    for _ in range(n):
        w = r.random()
        if w < .38:
            ops.append({"w": "set", "loc": r.choice(LOCS), "file": gen_file(r)})
        elif w < .58:
            ops.append({"w": "get", "how": r.choice(["api", "attrs"])})
        elif w < .66:
            ops.append({"w": "file"})
        elif w < .80:
            ops.append({"w": "show", "loc": r.choice([None, None, None] + LOCS + ["NONE", "local", ""][:1])})
        elif w < .86:
            ops.append({"w": "paths", "v": r.random() < .5})
        elif w < .90:
            ops.append({"w": "read", "file": gen_file(r, (.1, .5, .3, .1, .0))})
        else:
            ops.append({"w": "resolve", "doc": gen_index(r)})
    return ops


def generate(prop, seed, tier):
    r = random.Random(f"config/{seed}/{prop}")
    m = 1 if tier == "quick" else 12
    out = []
    for i in range(900 * m):
        r.big = i % 30 == 7
        ops = [{"w": "set", "loc": loc, "file": gen_file(r, (.5, .3, .1, .06, .04))} for loc in LOCS]
        if prop == "C28":
            more = gen_ops(r, r.randint(3, 9))
        else:       # configurations to be shown
            more = []
            for _ in range(r.randint(1, 3)):
                loc = r.choice(LOCS)
                if r.random() < .7:
                    more.append({"w": "set", "loc": loc, "file": gen_file(r, (.05, .85, .05, .03, .02))})
                more.append({"w": "show", "loc": r.choice([None, None, loc, r.choice(LOCS)])})
                if r.random() < .2:
                    more.append({"w": "paths", "v": r.random() < .5})
                if r.random() < .2:
                    more.append({"w": "get", "how": "api"})
        out.append({"id": [prop, i], "ops": ops + more, "xdg": r.random() < .7, "real": i % 60 == 7})
    return out


# --------------------------------------------------------------- the model
CONTENT = {"absent": {"k": "absent"}, "dir": {"k": "dir"},
           "a": {"k": "doc", "text": 'namespace_priorities = ["a", "b"]\nfeature_priorities.a = ["f"]\n', "link": False},
           "b": {"k": "doc", "text": 'namespace_priorities = ["b", "a"]\nproperty_priorities.b.f = ["2"]\n', "link": False},
           "bad": {"k": "doc", "text": 'namespace_priorities = ["A"]\n', "link": False}}
INDEX = {"default-priorities": {"namespace": ["n_1", "a", "b"]},
         "providers": {n: {"install-time": False} for n in ("a", "b", "n_1")},
         "static-properties": {n: {"f": ["1", "2"]} for n in ("a", "b", "n_1")},
         "variants": {"va": {"a": {"f": ["1"]}}, "vb": {"b": {"f": ["1"]}}, "vn": {"n_1": {"f": ["1"]}}}}
ORDER = {"a": ["va", "vb", "vn"], "b": ["vb", "va", "vn"], "": ["vn", "va", "vb"]}


def from_model(items):
    out = []
    for n, m in enumerate(items):
        ops = [{"w": "set", "loc": loc, "file": CONTENT[m["first"][loc]]} for loc in LOCS if m["first"][loc] != "absent"]
        for h in m["hist"]:
            o = h["op"]
            w = o["what"]
            if w == "set":
                ops.append({"w": "set", "loc": o["l"], "file": CONTENT[o["c"]]})
            elif w == "get":
                ops.append({"w": "get", "how": "api" if n % 2 else "attrs"})
            elif w == "show":
                ops.append({"w": "show", "loc": None})
            elif w == "showat":
                ops.append({"w": "show", "loc": o["l"]})
            else:
                ops.append({"w": "resolve", "doc": INDEX})
        out.append({"id": ["model", n], "ops": ops, "xdg": True, "real": False, "hist": m["hist"]})
    return out


def agrees(s, m):
    hist = s["hist"]
    for h, e in zip(hist, m["ev"][-len(hist):]):
        w, o = h["op"]["what"], e["out"]
        if w == "set":
            continue
        if o["ok"] != h["ok"]:
            return False
        if o["ok"] and w == "resolve":
            if [x for x in o["v"] if x != "null"] != ORDER[h["v"]]:
                return False
        elif o["ok"]:
            v = o["again"]["v"] if "again" in o else o["v"]
            if v["ns"] != {"a": ["a", "b"], "b": ["b", "a"], "": []}[h["v"]]:
                return False
    return True


# --------------------------------------------------------------- execution
def setup():
    import variantlib.api  # noqa: F401
    import variantlib.commands.config.list_paths  # noqa: F401
    import variantlib.commands.config.show  # noqa: F401
    import variantlib.configuration  # noqa: F401
    import world
    world.dists([world.cli_dist()])
    world.abi_env(None)


def put(path: Path, f: dict, aside: Path):
    if path.is_symlink() or path.is_file():
        path.unlink()
    elif path.is_dir():
        path.rmdir()
    path.parent.mkdir(parents=True, exist_ok=True)
    if f["k"] == "dir":
        path.mkdir()
    elif f["k"] == "dangling":
        path.symlink_to(aside / "nowhere")
    elif f["k"] != "absent":
        data = bytes.fromhex(f["hex"]) if "hex" in f else f["text"].encode()
        if f.get("link"):
            aside.mkdir(exist_ok=True)
            path.unlink(missing_ok=True)
            t = aside / f"t{len(list(aside.iterdir()))}"
            t.write_bytes(data)
            path.symlink_to(t)
        else:
            path.write_bytes(data)


def file_tag(f):
    if f["k"] in ("absent", "dangling"):       # there is no file behind a dangling link
        return ["absent"]
    if f["k"] == "dir":
        return ["dir"]
    if f["k"] == "broken":
        return ["broken"]
    return ["doc", tag(tomllib.loads(f["text"]))]


def cfg_out(c):
    import base as B
    esc = lambda l: [enc(x) for x in B.lstr(l)]  # noqa: E731
    emap = lambda d, f: [[enc(k), f(v)] for k, v in d.items()]  # noqa: E731
    B.need(isinstance(c.feature_priorities, dict) and isinstance(c.property_priorities, dict))
    return {"ns": esc(c.namespace_priorities), "feat": emap(c.feature_priorities, esc),
            "prop": emap(c.property_priorities, lambda d: emap(d, esc))}


def child(s, base: Path):
    import base as B
    import variantlib.configuration as C
    from variantlib.api import get_variants_by_priority
    from variantlib.commands.main import main
    from variantlib.variants_json import VariantsJson
    VC = C.VariantConfiguration
    dirs = layout(s, base)
    os.chdir(base / "cwd")
    sys.prefix = str(base / "venv")
    os.environ.update(env_of(s, base))
    if not s["xdg"]:
        os.environ.pop("XDG_CONFIG_HOME", None)

    def cli(*args):
        with B.quiet() as (out, _):
            main(list(args))
        return out.getvalue()

    def ask(op):
        w = op["w"]
        if w == "get":
            if op["how"] == "api":
                return cfg_out(VC.get_config())
            VC.reset()
            try:
                return cfg_out(VC)
            finally:
                VC.reset()
        if w == "file":
            return {v: k for k, v in dirs.items()}.get(str(VC.get_config_file()), "other")
        if w == "read":
            p = base / "any.toml"
            put(p, op["file"], base / "aside")
            return cfg_out(VC.get_config_from_file(p))
        if w == "resolve":
            VC.reset()
            return B.lstr(get_variants_by_priority(variants_json=VariantsJson(op["doc"]), venv_python_executable=None))
        raise AssertionError(w)

    def show(op):
        return cli("config", "show", *([op["loc"]] if op["loc"] is not None else []))

    def again(text):
        p = base / "again.toml"
        p.write_text(text, encoding="utf-8")
        return cfg_out(VC.get_config_from_file(p))
    return session(s, dirs, base, ask, show, lambda v: cli("config", "list-paths", *(["-v"] if v else [])), again)


def layout(s, base):
    user = base / "xdg" if s["xdg"] else base / "home" / ".config"
    for d in ("cwd", "venv", "home"):
        (base / d).mkdir(parents=True, exist_ok=True)
    return {"LOCAL": str(base / "cwd" / "variants.toml"), "VIRTUALENV": str(base / "venv" / "variants.toml"),
            "USER": str(user / "variantlib" / "variants.toml"), "GLOBAL": str(base / "site" / "variantlib" / "variants.toml")}


def env_of(s, base):
    e = {"HOME": str(base / "home"), "XDG_CONFIG_DIRS": f"{base / 'site'}:{base / 'site2'}"}
    if s["xdg"]:
        e["XDG_CONFIG_HOME"] = str(base / "xdg")
    return e


def session(s, dirs, base, ask, show, paths, again):
    import base as B
    from suite_meta import tag as plain_tag
    ev = []
    for op in s["ops"]:
        w = op["w"]
        if w == "set":
            put(Path(dirs[op["loc"]]), op["file"], base / "aside")
            ev.append({"op": "set", "in": {"loc": op["loc"], "file": file_tag(op["file"])}, "out": {"ok": True}})
            continue
        inp = {}
        if w == "show":
            inp = {"loc": {"has": op["loc"] is not None, "v": op["loc"] or ""}}
            x = B.call(lambda: show(op))
            out = {"ok": x["ok"], "exc": x.get("exc", "")}
            if x["ok"]:
                y = B.call(lambda: tag(tomllib.loads(x["val"])))
                out["tree"] = y.get("val", ["z"])
                y = B.call(lambda: again(x["val"]))
                out["again"] = {"ok": y["ok"], "v": y.get("val", "")}
        elif w == "paths":
            inp = {"dirs": [[k, v] for k, v in dirs.items()], "verbose": op["v"]}

            def lines():
                res = []
                for line in paths(op["v"]).splitlines():
                    name, _, rest = line.partition(": ")
                    found = True
                    if op["v"]:
                        found = not rest.endswith(" (not found)")
                        rest = rest.rpartition(" (")[0]
                    res.append([name, rest, found])
                return res
            x = B.call(lines)
            out = {"ok": x["ok"], "exc": x.get("exc", "")}
            if x["ok"]:
                out["v"] = x["val"]
        else:
            if w == "read":
                inp = {"file": file_tag(op["file"])}
            elif w == "resolve":
                inp = {"doc": plain_tag(op["doc"])}
            x = B.call(lambda: ask(op))
            out = {"ok": x["ok"], "exc": x.get("exc", "")}
            if x["ok"]:
                out["v"] = x["val"]
        ev.append({"op": w, "in": inp, "out": out})
    return ev


REAL = r'''
import json, sys
sys.path.insert(0, sys.argv[1])
import suite_config as S
from variantlib.configuration import VariantConfiguration as C
what, arg = sys.argv[2:4]
if what == "get":
    v = S.cfg_out(C.get_config() if arg == "api" else C)
elif what == "file":
    v = str(C.get_config_file())
elif what == "read":
    from pathlib import Path
    v = S.cfg_out(C.get_config_from_file(Path(arg)))
else:
    from variantlib.api import get_variants_by_priority
    from variantlib.variants_json import VariantsJson
    v = get_variants_by_priority(variants_json=VariantsJson(json.loads(arg)), venv_python_executable=None)
print(json.dumps(v))
'''


def real(s, base):
    """the same with separate processes in a real virtual environment"""
    dirs = layout(s, base)
    venv = base / "venv"
    (venv / "bin").mkdir()
    (venv / "pyvenv.cfg").write_text(f"home = {Path(sys._base_executable).parent}\ninclude-system-site-packages = false\n")
    py = venv / "bin" / "python"
    py.symlink_to(sys._base_executable)
    env = {k: v for k, v in os.environ.items() if k not in ("XDG_CONFIG_HOME", "PYTHONPATH")}
    env.update(env_of(s, base))
    site = [p for p in sys.path if p.endswith("site-packages")]
    env["PYTHONPATH"] = os.pathsep.join(["/repo", *site])
    here = str(Path(__file__).resolve().parent)

    def run(*args):
        p = subprocess.run([str(py), *args], env=env, cwd=base / "cwd", capture_output=True, text=True, encoding="utf-8",
                           stdin=subprocess.DEVNULL, timeout=60)
        if p.returncode:
            raise RuntimeError(p.stderr[-500:])
        return p.stdout

    def api(what, arg):
        v = json.loads(run("-c", REAL, here, what, arg))
        return {b: a for a, b in dirs.items()}.get(v, "other") if what == "file" else v

    def ask(op):
        if op["w"] == "read":
            put(base / "any.toml", op["file"], base / "aside")
            return api("read", str(base / "any.toml"))
        return api(op["w"], op.get("how") or (json.dumps(op["doc"]) if op["w"] == "resolve" else ""))

    def cli(*args):
        return run("-c", "import sys; from variantlib.commands.main import main; main()", *args)

    def again(text):
        (base / "again.toml").write_text(text, encoding="utf-8")
        return api("read", str(base / "again.toml"))
    return session(s, dirs, base, ask, lambda op: cli("config", "show", *([op["loc"]] if op["loc"] is not None else [])),
                   lambda v: cli("config", "list-paths", *(["-v"] if v else [])), again)


def execute(s):
    import shutil
    import world
    base = world.SCRATCH / world.unique()
    base.mkdir()
    try:
        if s["real"]:
            return real(s, base)
        # locations are worked out once per process, hence a process for every session
        res = base / "result"
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                ev = child(s, base)
                res.write_bytes(pickle.dumps(ev))
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise RuntimeError("the child failed")
        return pickle.loads(res.read_bytes())
    finally:
        shutil.rmtree(base, ignore_errors=True)


# -------------------------------------------------------------- attribution
def properties_of(clause, e):
    op = e["op"]
    if op == "show":
        # what is in force is not the business of showing it
        return {"C29"} if clause.startswith("shown") or e["in"]["loc"]["has"] else {"C28", "C29"}
    if op == "paths":
        return {"C29"}
    return {"C28"}


def corrupt(e):
    e = json.loads(json.dumps(e))
    o = e["out"]
    if e["op"] == "set":
        return None
    if not o["ok"]:
        if e["op"] == "show":
            o.update(ok=True, tree=["d", []], again={"ok": True, "v": {"ns": [], "feat": [], "prop": []}})
        elif e["op"] in ("get", "read"):
            o.update(ok=True, v={"ns": [], "feat": [], "prop": []})
        else:
            return None
    elif e["op"] == "show":
        o["again"]["v"] = {"ns": ["corrupted"], "feat": [], "prop": []}
    elif e["op"] in ("get", "read"):
        o["v"]["ns"] = o["v"]["ns"] + ["corrupted"]
    elif e["op"] == "file":
        o["v"] = "other"
    elif e["op"] == "paths":
        o["v"].reverse()
    else:
        o["v"] = o["v"][::-1] + ["x"]
    return e
