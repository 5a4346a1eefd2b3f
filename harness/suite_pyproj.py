"""update-pyproject-toml: sequences of edits of pyproject files (spec: TracePyproj)."""
from __future__ import annotations

import json
import os
import random
import re
import sys
import tomllib
from pathlib import Path

from suite_config import tag, toml_key, toml_text, toml_value

TRACE = "TracePyproj"
MODEL_CAP = {"quick": 1200, "thorough": 12000}
CANARY_RATE = .5

NSS = ["a", "b", "c", "n_1", "x"]
# installed plugins: entry point value, namespace, distribution, version
WORLDS = {
    "none": [],
    "ab": [("vplug_fake:pya", "a", "prov-a", "1.2.3"), ("vpm_pyb", "b", "Prov.B", "0.1.dev5+gabc123")],
    "abc": [("vplug_fake:pya2", "a", "prov_a", "2!1.0rc1"), ("vplug_fake:nest.pyb2", "b", "p-b", "1.0.post1"),
            ("vplug_fake:pyc", "c", "p-c", "1!2.0+local.1"), ("vplug_fake:pyn", "n_1", "p-n", "3")],
    "x": [("vplug_fake:pyx", "x", "px", "0")],
    "broken": [("vplug_fake:pya", "a", "prov-a", "1.2.3"), ("vplug_fake:missing", "b", "p-b", "1")],
    "twice": [("vplug_fake:pya", "a", "prov-a", "1.2.3"), ("vplug_fake:pya3", "a", "p-b", "1")],
    "many": [(f"vplug_fake:pym{i}", f"ns{i}", f"prov-{i}", f"{i}.1") for i in range(14)],
}
MANY = [f"ns{i}" for i in range(14)]


# ----------------------------------------------------------------- generation
class Doc:
    """TOML text whose lines and comments have owners"""

    def __init__(self, r):
        self.r, self.lines, self.comments, self.n = r, [], [], 0
        self.rate = r.choice([0, .1, .3])

    def comment(self, owner):
        self.n += 1
        c = f"# c{self.n}"
        self.comments.append([owner, c])
        return c

    def line(self, owner, text, inside=None):
        """inside: owner of comments put within a multi-line value"""
        if self.r.random() < self.rate:
            # before a header, it still belongs to the table above
            self.lines.append([None, self.comment(last_section(self) if type(text) is str and text.startswith("[") else owner)])
        elif self.r.random() < .05:
            self.lines.append([None, ""])
        if isinstance(text, list):          # a multi-line array: [head, items, tail]
            head, items, tail = text
            self.lines.append([None, head])
            last = len(items) - 1
            for i, it in enumerate(items):
                s = "  " + it + ("," if i < last or self.r.random() < .6 else "")
                if self.r.random() < self.rate:
                    s += "  " + self.comment(inside)
                self.lines.append([None, s])
                if self.r.random() < self.rate / 2:
                    self.lines.append([None, "  " + self.comment(inside)])
            text, owner = tail, None
        *more, text = text.split("\n")
        self.lines += [[owner, x] for x in more]
        if self.r.random() < self.rate:
            # the text proper does not include the trailing comment
            self.lines.append([owner, text, self.comment(inside or owner)])
        else:
            self.lines.append([owner, text])

    def text(self):
        return "".join(" ".join(x for x in ln[1:]) + "\n" for ln in self.lines)


def array(d, key, items, owner, multi=.3):
    r = d.r
    if items and r.random() < multi:
        return [f"{key} = [", [toml_text(r, i) for i in items], "]"]
    pad = r.choice(["", "", " "])
    return f"{key} = [{pad}" + ", ".join(toml_text(r, i) for i in items) + f"{pad}]"


def other_tables(r):
    out = []
    if r.random() < .8:
        out.append(("[project]", ['name = "pkg"', 'version = "1.0"', r.choice(['dependencies = ["x>=1", "y # no comment"]', 'dynamic = []'])]))
    if r.random() < .6:
        out.append(("[build-system]", ['requires = ["setuptools"]', 'build-backend = "setuptools.build_meta"']))
    if r.random() < .4:
        out.append(("[tool.ruff]", ["line-length = 88", 'select = ["A", "B"]']))
        if r.random() < .5:
            out.append(("[tool.ruff.lint.variant]", ['providers = { a = 1 }']))
    things = []
    if r.random() < .3:
        things = [("[[tool.things]]", ["x = 1"]), ("[[tool.things]]", ["x = 2", "when = 2020-01-01T00:00:00Z"])]
    if r.random() < .3:
        out.append(("[variants]", ['a = "variant"', "f = 1.5"]))
    if r.random() < .2:
        out.append(('["quoted é"]', ['"k k" = """multi\n# not a comment\nline"""']))
    r.shuffle(out)
    split = things and r.random() < .15      # not next to each other
    at = r.randint(0, len(out))
    out[at:at] = things[:1]
    at = r.randint(0, len(out)) if split else at + 1
    out[at:at] = things[1:]
    return out, bool(split)


def provider_lines(d, n, p, prefix=""):
    r = d.r
    own = ["prov", n]
    keys = list(p.items())
    r.shuffle(keys)
    for k, v in keys:
        if isinstance(v, list):
            d.line(own, array(d, prefix + k, v, own), own)
        else:
            d.line(["api", n] if k == "plugin-api" else own, f"{prefix}{k} = {toml_value(r, v)}", own)


def gen_variant(r, world):
    nss = r.sample(NSS, r.randint(0, 4))
    if world == "many":
        nss = r.sample(NSS + MANY, r.choice([6, 9, 15]))
    rank = list(nss)
    odd = r.random()
    if odd < .06 and rank:
        rank.pop()
    elif odd < .12:
        rank.append(r.choice(NSS))
    elif odd < .16 and rank:
        rank.insert(r.randrange(len(rank)), rank[-1])
    r.shuffle(rank)
    provs, static, feat = {}, {}, {}
    aots = r.random() < .35
    for n in nss:
        inst = not (aots and r.random() < .6)
        p = {}
        if inst or r.random() < .3:
            p["requires"] = r.sample(["pkg", "pkg >=1.0", "foo-bar[x]==1.2", "p; python_version > '3'"], r.randint(1, 2))
        if r.random() < .5:
            p["plugin-api"] = r.choice(["m:o", "old.mod", "vplug_fake:pya"])
        if r.random() < .3:
            p["enable-if"] = "python_version >= '3.11'"
        if r.random() < .2:
            p["optional"] = True
        if not inst:
            p["install-time"] = False
        elif r.random() < .15:
            p["install-time"] = True
        provs[n] = p
        if not p.get("requires") and not inst and r.random() < .3 or r.random() < .02:
            p["requires"] = []
        if not inst and not p.get("requires") and r.random() < .9:
            static[n] = {f: r.sample(["1", "2"], r.randint(1, 2)) for f in r.sample(["f", "g"], r.randint(1, 2))}
            if len(static[n]) > 1:
                feat[n] = list(static[n])
    if odd > .97 and nss:
        provs.pop(nss[0])
    for n in r.sample(NSS, r.choice([0, 0, 1, 2])):
        feat.setdefault(n, ["f"])
    prop = {n: {"f": ["1"]} for n in r.sample(NSS, r.choice([0, 0, 1]))}
    return rank, provs, static, feat, prop


def gen_doc(r, world):
    """(text, line owners, comment owners)"""
    d = Doc(r)
    oth = ["other", ""]
    others, split = other_tables(r)
    rank, provs, static, feat, prop = gen_variant(r, world)
    style = r.choice(["tables", "tables", "tables", "nested", "nested", "dotted", "inline", "root", "scattered", "absent"])
    blocks = []      # functions that write a block

    def w_other(head, lines):
        def f():
            d.line(oth, head)
            for ln in lines:
                d.line(oth, ln)
        return f
    ob = [w_other(*o) for o in others]

    def prios(prefix=""):
        own = ["rank", ""]
        if rank or r.random() < .5:
            d.line(own, array(d, prefix + "namespace", rank, own, .45), own)

    def prio_rest():
        out = []
        if feat and r.random() < .8:
            def f():
                d.line(oth, "[variant.default-priorities.feature]")
                for n, fs in feat.items():
                    d.line(oth, f"{toml_key(r, n)} = {toml_value(r, fs)}" if r.random() < .9 else f"{n} = {json.dumps(fs)}")
            out.append(f)
        if prop:
            def g():
                for n, fs in prop.items():
                    d.line(oth, f"[variant.default-priorities.property.{n}]")
                    for k, v in fs.items():
                        d.line(oth, f"{k} = {json.dumps(v)}")
            out.append(g)
        return out

    def statics():
        out = []
        for n, fs in static.items():
            def f(n=n, fs=fs):
                own = ["static", n]
                d.line(own, f"[variant.static-properties.{toml_key(r, n)}]")
                for k, v in fs.items():
                    d.line(own, array(d, k, v, own), own)
            out.append(f)
        return out
    if style == "absent":
        blocks = ob
    elif style == "inline":
        def top():
            v = {"default-priorities": {"namespace": rank}, "providers": provs}
            if static:
                v["static-properties"] = static
            d.line(["mixed", ""], f"variant = {toml_inline(r, v)}")
        blocks = [top] + ob
    elif style == "root":
        def top():
            prios("variant.default-priorities.")
            for n, p in provs.items():
                provider_lines(d, n, p, f"variant.providers.{n}.")
            for n, fs in static.items():
                for k, v in fs.items():
                    d.line(["static", n], f"variant.static-properties.{n}.{k} = {json.dumps(v)}")
        blocks = [top] + ob
    elif style == "dotted":
        def vt():
            d.line(oth, "[variant]")
            prios("default-priorities.")
            for n, p in provs.items():
                provider_lines(d, n, p, f"providers.{n}.")
        blocks = ob
        blocks.insert(r.randint(0, len(ob)), vt)
        at = blocks.index(vt)
        blocks[at + 1:at + 1] = statics()
    else:
        vb = []
        head = r.random()
        if head < .3:
            vb.append(lambda: d.line(oth, "[variant]"))

        def pr():
            d.line(oth, "[variant.default-priorities]")
            prios()
        rest = [pr] + (prio_rest() if style != "scattered" or r.random() < .5 else [])
        if style == "nested":
            def pv():
                d.line(oth, "[variant.providers]")
                for n, p in provs.items():
                    if r.random() < .5:
                        d.line(["api", n], f"{toml_key(r, n)} = {toml_inline(r, p)}", ["prov", n])
                    else:
                        provider_lines(d, n, p, f"{n}.")
            pvs = [pv]
        else:
            pvs = []
            if r.random() < .3:
                pvs.append(lambda: d.line(oth, "[variant.providers]"))
            for n, p in provs.items():
                def f(n=n, p=p):
                    d.line(["prov", n], f"[variant.providers.{toml_key(r, n)}]")
                    provider_lines(d, n, p)
                pvs.append(f)
        parts = [rest, pvs, statics()]
        r.shuffle(parts)
        vb += [x for p in parts for x in p]
        if style == "scattered":
            blocks = vb
            for o in ob:
                blocks.insert(r.randint(0, len(blocks)), o)
        else:
            at = r.randint(0, len(ob))
            blocks = ob[:at] + vb + ob[at:]
    if r.random() < d.rate:
        d.lines.append([None, d.comment(oth)])
    for b in blocks:
        b()
    if r.random() < d.rate:
        d.lines.append([None, d.comment(last_section(d))])
    text = d.text()
    if r.random() < .1 and text.endswith("\n"):
        text = text[:-1]
    exotic = split or style in ("root", "dotted", "scattered") or (things_apart(text))
    return text, [[o, t] for o, t, *_ in d.lines if o], d.comments, style, exotic


def things_apart(text):
    heads = [ln for ln in text.split("\n") if ln.startswith("[") and not ln.startswith("[ ")]
    at = [i for i, h in enumerate(heads) if h.startswith("[[tool.things]]")]
    return len(at) == 2 and at[1] != at[0] + 1


def last_section(d):
    for ln in reversed(d.lines):
        if ln[0]:
            return ln[0] if ln[0][0] in ("prov", "static") else ["prov", ln[0][1]] if ln[0][0] == "api" else ["other", ""]
    return ["other", ""]


def toml_inline(r, v):
    if isinstance(v, dict):
        return "{" + ", ".join(f"{toml_key(r, k)} = {toml_inline(r, x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(toml_inline(r, x) for x in v) + "]"
    return toml_value(r, v)


def gen_req(r, world):
    have = [p[1] for p in WORLDS[world]]
    names = have + NSS
    if world == "many" and r.random() < .5:
        a, b = r.choice([(0, 9), (7, 0), (5, 8), (0, 14)])
        return r.sample(MANY + NSS, a), r.sample(MANY, b)

    def some(lo):
        xs = [r.choice(have) if have and r.random() < .75 else r.choice(names) for _ in range(r.randint(lo, 2))]
        return xs
    w = r.random()
    if w < .4:
        return [], some(1)
    if w < .7:
        return [r.choice(NSS) for _ in range(r.randint(1, 3))], []
    if w < .98:
        return [r.choice(NSS) for _ in range(r.randint(1, 2))], some(1)
    return [], []


def generate(prop, seed, tier):
    r = random.Random(f"pyproj/{seed}/{prop}")
    m = 1 if tier == "quick" else 12
    out = []
    for i in range(1200 * m):
        world = r.choices(list(WORLDS), [1, 6, 6, 1, .4, .4, .4])[0]
        while True:
            text, lines, comments, style, exotic = gen_doc(r, world)
            try:
                tomllib.loads(text)
                break
            except tomllib.TOMLDecodeError:
                continue        # (dotted keys and headers may clash)
        x = r.random()
        state = "ok"
        if x < .01:
            state = "missing"
        elif x < .02:
            state, text, lines, comments = "broken", text + "[", [], []
        elif x < .05:
            text, lines, comments = odd(r), [], []
        crlf = state == "ok" and r.random() < .1
        if crlf:
            text = text.replace("\n", "\r\n")
        ops = []
        for _ in range(r.randint(1, 4)):
            dels, adds = gen_req(r, world)
            ops.append({"dels": dels, "adds": adds, "form": r.randrange(4),
                        "fault": {"kind": "none"} if r.random() < .95 else
                                 {"kind": "fsize", "at": r.random(), "kill": r.random() < .4}})
            if r.random() < .15:
                world2 = r.choice(list(WORLDS))
                ops[-1]["world"] = world2
        out.append({"id": [prop, i], "state": state, "text": text, "lines": lines, "comments": comments, "world": world, "ops": ops,
                    "style": style, "exotic": exotic, "link": r.random() < .05})
    return out


def odd(r):
    """tables of the wrong shape"""
    return r.choice([
        "variant = 1\n", "variant = []\n", "[[variant]]\nx = 1\n", "[variant]\nproviders = 1\n", "[variant]\nproviders = ['a']\n",
        "[variant]\ndefault-priorities = 'x'\n", "[variant.default-priorities]\nnamespace = 'abc'\n",
        "[variant.default-priorities]\nnamespace = {a = 1}\n", "[variant.providers]\na = 1\n", "[variant.providers]\na = ['x']\nb = 'x'\n",
        "[variant]\nstatic-properties = ['a']\n", "[variant]\nstatic-properties = 'a'\n"]) + r.choice(["", "[project]\nname = 'x'\n"])


# --------------------------------------------------------------- the model
def from_model(items):
    out = []
    r = random.Random("pyproj-model")
    for n, m in enumerate(items):
        d = Doc(r)
        first = m["first"]
        provs = [(k, dict(v)) for k, v in first["provs"]]
        own = ["rank", ""]
        d.line(["other", ""], "[variant.default-priorities]")
        d.line(own, array(d, "namespace", first["rank"], own), own)
        for k, v in provs:
            p = {}
            if v["req"]:
                p["requires"] = ["mine >=1"]
            if v["api"]:
                p["plugin-api"] = "old:api"
            if not v["inst"]:
                p["install-time"] = False
            d.line(["prov", k], f"[variant.providers.{k}]")
            provider_lines(d, k, p)
        for k, v in provs:
            if not v["inst"] and not v["req"]:
                d.line(["static", k], f"[variant.static-properties.{k}]")
                d.line(["static", k], 'f = ["1"]')
        d.line(["other", ""], "[project]")
        d.line(["other", ""], 'name = "p"')
        ops = [{"dels": h["dels"], "adds": h["adds"], "form": r.randrange(4), "fault": {"kind": "none"}} for h in m["hist"]]
        out.append({"id": ["model", n], "state": "ok", "text": d.text(), "lines": [[x[0], x[1]] for x in d.lines if x[0]],
                    "comments": d.comments, "world": "ab", "ops": ops, "style": "model", "exotic": False, "link": False, "hist": m["hist"]})
    return out


def agrees(s, m):
    from suite_meta import untag
    for h, e in zip(s["hist"], m["ev"][1:]):
        o = e["out"]
        if o["ok"] != h["ok"] or o["file"]["state"] != "ok":
            return False
        v = untag(o["file"]["tree"]).get("variant", {})
        provs = v.get("providers", {})
        if v.get("default-priorities", {}).get("namespace", []) != h["rank"]:
            return False
        if {n for n, p in provs.items() if p.get("requires") == ["mine >=1"]} != set(h["mine"]):
            return False
        if {n for n, p in provs.items() if p.get("plugin-api", "old:api") != "old:api"} != set(h["new"]):
            return False
    return True


# --------------------------------------------------------------- execution
def setup():
    import variantlib.commands.update_pyproject_toml  # noqa: F401
    import variantlib.pyproject_toml  # noqa: F401
    import world
    world.abi_env(None)
    for w in WORLDS.values():
        for val, ns, *_ in w:
            key = re.sub(r".*[:.]", "", val).removeprefix("vpm_")
            if key != "missing":
                world.plugin(key, {"namespace": ns, "get_all_configs": [["f", ["1"], False]], "get_supported_configs": [["f", ["1"], False]]})


def install(name):
    import world
    from packaging.version import Version
    by = {}
    for val, ns, dist, ver in WORLDS[name]:
        by.setdefault((dist, ver), []).append((ns + "_ep", val))
    world.dists([world.cli_dist()] + [(dn, v, {"variant_plugins": eps}) for (dn, v), eps in by.items()])
    return [{"ns": ns, "api": val, "loads": "missing" not in val, "req": f"{dn} >={Version(ver).public}"}
            for val, ns, dn, ver in WORLDS[name]]


COMMENT = re.compile(r"# c\d+")


def snap(p: Path):
    if not p.exists():
        return {"state": "missing", "tree": ["d", []]}, False
    try:
        t = tomllib.loads(p.read_bytes().decode("utf-8"))
    except (tomllib.TOMLDecodeError, UnicodeDecodeError):
        return {"state": "broken", "tree": ["d", []]}, True
    return {"state": "ok", "tree": tag(t)}, False


def pieces(p: Path):
    if not p.exists():
        return [], []
    text = p.read_bytes().decode("utf-8", "replace").replace("\r\n", "\n")
    lines, comments = [], []
    for ln in text.split("\n"):
        m = re.search(r"# c\d+$", ln)
        if m:
            comments.append(m.group())
            ln = ln[:m.start()]
        ln = ln.rstrip()
        if ln:
            lines.append(ln)
    return lines, comments


def req_ok(p: Path):
    from packaging.requirements import InvalidRequirement, Requirement
    try:
        for e in tomllib.loads(p.read_text(encoding="utf-8")).get("variant", {}).get("providers", {}).values():
            for q in e.get("requires", []):
                Requirement(q)
    except (InvalidRequirement, tomllib.TOMLDecodeError, AttributeError, TypeError, UnicodeDecodeError, OSError):
        return False
    return True


def execute(s):
    import shutil
    import base as B
    import world
    from variantlib.commands.main import main
    from variantlib.pyproject_toml import VariantPyProjectToml
    top = world.SCRATCH / world.unique()
    (top / "d").mkdir(parents=True)
    here = os.getcwd()
    ev = []
    try:
        f = top / "d" / "pyproject.toml"
        if s["state"] != "missing":
            if s["link"]:
                (top / "real.toml").write_bytes(s["text"].encode())
                f.symlink_to(top / "real.toml")
            else:
                f.write_bytes(s["text"].encode())
        plugs = install(s["world"])
        ev.append({"op": "begin", "in": {}, "out": {"ok": True, "file": snap(f)[0]}})
        owners = [s["lines"], s["comments"]]
        for op in s["ops"]:
            if "world" in op:
                plugs = install(op["world"])
            before, _ = snap(f)
            raw = f.read_bytes() if f.exists() else None
            names = listing(top)
            argv = argv_of(op, f)
            fault = op["fault"]["kind"] != "none"

            def run():
                os.chdir(top / "d")
                try:
                    with B.quiet():
                        main(argv)
                finally:
                    os.chdir(here)
            x = faulted(run, op["fault"], len(raw or b"")) if fault else B.call(run)
            after, broken = snap(f)
            lines, comments = pieces(f)
            acc = B.call(lambda: VariantPyProjectToml.from_path(f))["ok"]
            killed = x.get("exc") == "killed"
            ev.append({"op": "edit",
                       "in": {"dels": op["dels"], "adds": op["adds"], "plugs": plugs, "file": before, "fault": fault, "exotic": s["exotic"],
                              "lines": norm(owners[0]), "comments": owners[1]},
                       "out": {"ok": x["ok"], "exc": x.get("exc", ""), "file": after, "broken": broken,
                               "same": (f.read_bytes() if f.exists() else None) == raw,
                               "strays": not killed and listing(top) != names,
                               "lines": lines, "comments": comments, "accepted": acc, "reqok": req_ok(f)}})
            if killed:
                for q in listing(top) - names:
                    (top / q).unlink()
            # what is left keeps its owner; the rest of the text is nobody's
            owners = [left(distinct(owners[0]), lines), left(owners[1], comments)]
            if broken:
                break
        return ev
    finally:
        os.chdir(here)
        shutil.rmtree(top, ignore_errors=True)


def norm(lines):
    return [[o, t.rstrip()] for o, t in lines if t.strip()]


def distinct(owned):
    """the pieces that cannot be taken for others"""
    texts = [t.rstrip() for _, t in owned]
    return [[o, t] for o, t in owned if o[0] != "api" and texts.count(t.rstrip()) == 1]


def left(owned, now):
    """the owned pieces still there, in their order"""
    res, j = [], 0
    for o, t in owned:
        k = j
        while k < len(now) and now[k] != t.rstrip():
            k += 1
        if k < len(now):
            res.append([o, t])
            j = k + 1
    return res


def listing(top):
    return {str(p.relative_to(top)) for p in top.rglob("*")}


def argv_of(op, f):
    d = ["-d", *op["dels"]] if op["dels"] else []
    a = ["-a", *op["adds"]] if op["adds"] else []
    if op["form"] & 1:
        d = [y for n in op["dels"] for y in ("--delete", n)]
        a = [y for n in op["adds"] for y in ("--add", n)]
    rest = a + d if op["form"] & 2 else d + a
    return ["update-pyproject-toml", *([] if op["form"] == 3 else ["-f", str(f)]), *rest]


def faulted(run, fault, size):
    import resource
    import signal
    import base as B
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault["kill"] else signal.SIG_IGN)
            k = int(fault["at"] * (size + 200))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
            x = B.call(run)
            os._exit(0 if x["ok"] else 7)
        except BaseException:
            os._exit(9)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return {"ok": False, "exc": "killed"}
    if os.WEXITSTATUS(st) == 9:
        raise RuntimeError("faulted child")
    return {"ok": os.WEXITSTATUS(st) == 0, "exc": "fault"}


# -------------------------------------------------------------- attribution
def properties_of(clause, e):
    return {"C30"}


def corrupt(e):
    if e["op"] != "edit":
        return None
    e = json.loads(json.dumps(e))
    o = e["out"]
    if o["ok"]:
        o["file"]["tree"] = ["d", [["corrupted", ["b", True]]]]
        o["same"] = False
    else:
        o["same"] = False
    return e
