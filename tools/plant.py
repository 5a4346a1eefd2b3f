#!/usr/bin/env python3
"""Planted bugs.

plant.py make SPECFILE   define a bug: SPECFILE is a Python file with ID, PROPERTY, NEEDS, BREAKS,
                         EDITS = [(file, old, new)], DEMO (Python source; exits 0 iff the property holds)
plant.py verify ID...    apply to /repo, build, run the tests, the demo and the property's quick check, undo
"""
import json
import os
import pathlib
import subprocess
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
SEED = pathlib.Path(os.environ.get("PLANT_SEED", VERIF / "seeded"))
PLANT_JSON = os.environ.get("PLANT_JSON", "/tmp/plant.json")


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def clean():
    sh("git", "-C", "/repo", "checkout", "--", ".")
    out = sh("git", "-C", "/repo", "status", "--short").stdout
    assert not out.strip(), out


def make(path):
    ns = {}
    exec(pathlib.Path(path).read_text(), ns)
    clean()
    try:
        for f, old, new in ns["EDITS"]:
            p = REPO / f
            t = p.read_text()
            assert t.count(old) == 1, (ns["ID"], f, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = sh("git", "-C", "/repo", "diff").stdout
    finally:
        clean()
    d = SEED / ns["ID"]
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                               'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
                                             "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    return ns["ID"]


def demo(i):
    return sh("bash", str(SEED / i / "demo.sh"), cwd="/repo", timeout=300)


def stable(path):
    d = json.load(open(path))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = set(base["stable"]) if "stable" in base else set(base.get("pass", base.get("passed", [])))
    got = set(d.get("pass", d.get("passed", [])))
    return sorted(names - got)


def verify(i, checks=True):
    prop = json.loads((SEED / i / "meta.json").read_text())["property"]
    clean()
    r = demo(i)
    if r.returncode != 0:
        return f"{i} {prop}: demo fails on the clean tree: {(r.stdout + r.stderr)[-600:]}"
    try:
        a = sh("git", "-C", "/repo", "apply", str(SEED / i / "patch.diff"))
        if a.returncode:
            return f"{i}: does not apply {a.stderr}"
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode:
            return f"{i}: does not build {b.stderr[-500:]}"
        sh("bash", "/opt/vp/test.sh", PLANT_JSON)
        bad = stable(PLANT_JSON)
        if bad:
            return f"{i}: breaks tests {bad[:4]}"
        r = demo(i)
        if r.returncode == 0:
            return f"{i}: demo passes with the patch"
        if not checks:
            return f"{i} {prop}: valid"
        t = time.time()
        c = sh("bash", str(VERIF / "check.sh"), prop, cwd=str(VERIF))
        line = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
        cl = [x for x in c.stdout.splitlines() if "clause" in x]
        return (f"{i} {prop}: rc={c.returncode} {'CAUGHT' if c.returncode == 1 and line else 'MISSED'} "
                f"{time.time() - t:.0f}s {cl[:2]} {c.stderr[-600:] if c.returncode not in (0, 1) else ''}")
    finally:
        clean()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ids = [make(p) for p in sys.argv[2:]]
        for i in ids:
            print(verify(i), flush=True)
    elif sys.argv[1] == "valid":
        for i in sys.argv[2:]:
            print(verify(i, False), flush=True)
    else:
        ids = sys.argv[2:] or sorted(p.name for p in SEED.iterdir() if (p / "patch.diff").exists())
        for i in ids:
            print(verify(i), flush=True)
