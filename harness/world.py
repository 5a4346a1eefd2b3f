"""The environment the code under test sees: installed distributions, provider
plugins, configuration files.  Everything lives in a scratch directory."""
from __future__ import annotations

import importlib.metadata as md
import json
import os
import re
import sys
from pathlib import Path

SCRATCH: Path
CWD: Path
PLUG: Path
_dists: list = []
_count = 0


class FakeDist(md.Distribution):
    def __init__(self, name, version, entry_points=""):
        self._n, self._v, self._e = name, version, entry_points

    def read_text(self, filename):
        if filename in ("METADATA", "PKG-INFO"):
            t = "Metadata-Version: 2.1\n"
            if self._n is not None:
                t += f"Name: {self._n}\n"
            if self._v is not None:
                t += f"Version: {self._v}\n"
            return t + "\n"
        if filename == "entry_points.txt":
            return self._e
        return None

    def locate_file(self, path):
        return Path("/nonexistent") / path


def _find(context=md.DistributionFinder.Context(), *_a, **_k):
    name = getattr(context, "name", None)
    norm = lambda n: re.sub(r"[-_.]+", "-", n or "").lower()  # noqa: E731
    return iter([d for d in _dists if name is None or norm(d._n) == norm(name)])


def dists(items):
    """items: (name, version) or (name, version, {group: {ep: value}})"""
    _dists[:] = []
    for it in items:
        e = ""
        if len(it) > 2:
            for group, eps in it[2].items():
                e += f"[{group}]\n" + "".join(f"{k} = {v}\n" for k, v in eps) + "\n"
        _dists.append(FakeDist(it[0], it[1], e))


def abi_env(text):
    if text is None:
        os.environ.pop("VARIANT_ABI_DEPENDENCY", None)
    else:
        os.environ["VARIANT_ABI_DEPENDENCY"] = text


VARIANTLIB_EPS: dict = {}


def cli_dist():
    """The real entry points of variantlib, for the dispatch of commands."""
    return ("variantlib", "0.0.3", VARIANTLIB_EPS)


def setup(scratch: Path):
    global SCRATCH, CWD, PLUG
    SCRATCH = scratch
    CWD = scratch / "cwd"
    CWD.mkdir()
    PLUG = scratch / "plug"
    PLUG.mkdir()
    (PLUG / "conf").mkdir()
    (PLUG / "mods").mkdir()
    os.chdir(CWD)
    # entry points as declared by the tree under test
    import tomllib
    proj = tomllib.loads(Path("/repo/pyproject.toml").read_text())["project"]
    VARIANTLIB_EPS.update({g: list(e.items()) for g, e in proj.get("entry-points", {}).items()})
    for real in md.distributions():
        real.metadata  # noqa: B018  (load what packaging-like imports need before isolation)
        break
    md.MetadataPathFinder.find_distributions = staticmethod(_find)
    here = str(Path(__file__).resolve().parent / "fake")
    os.environ["PYTHONPATH"] = os.environ.get("PYTHONPATH", "") + ":" + here + ":" + str(PLUG / "mods")
    os.environ["VPLUG_DIR"] = str(PLUG)
    sys.path.append(here)
    import variantlib
    root = Path(variantlib.__file__).resolve()
    if not str(root).startswith("/repo/"):
        raise RuntimeError(f"variantlib comes from {root}")


def unique() -> str:
    global _count
    _count += 1
    return f"u{os.getpid()}_{_count}"


def plugin(key: str, data: dict) -> str:
    """Define a fake plugin; returns its object reference."""
    (PLUG / "conf" / f"{key}.json").write_text(json.dumps(data))
    (PLUG / "mods" / "vpk").mkdir(exist_ok=True)
    for name in (f"vpm_{key}", f"vpk/{key}"):     # the same as a module, and as one inside a package
        mod = PLUG / "mods" / f"{name}.py"
        if not mod.exists():
            mod.write_text(f"import sys, vplug_fake\nsys.modules[__name__] = vplug_fake.{key}\n")
    return f"vplug_fake:{key}"


def interpreter(name: str):
    """Path of an interpreter whose plugins may behave differently."""
    if name == "d":
        return None
    p = PLUG / f"env-{name}" / "python"
    if name != "broken" and not p.exists():
        p.parent.mkdir(exist_ok=True)
        p.write_text(f'#!/bin/sh\nVPLUG_INTERP={name} exec {sys.executable} "$@"\n')
        p.chmod(0o755)
    return p


class Installer:
    """Stands in for the parts of build's isolated environments that need a network.

    An environment is a directory with an interpreter; a plugin can be imported
    there once all the requirements in needs[its key] were installed."""

    def __init__(self, needs: dict, fail: str):
        self.needs, self.fail, self.log = needs, fail, []

    def __enter__(self):
        import shutil
        import subprocess

        from build.env import DefaultIsolatedEnv as E
        me, envs = self, {}
        self._saved = {k: E.__dict__[k] for k in ("__init__", "__enter__", "__exit__", "install", "python_executable")}
        self._cls = E

        def init(env, *, installer="pip"):
            env.installer = installer

        def enter(env):
            if me.fail == "create":
                raise OSError(28, "No space left on device")
            d = PLUG / f"env-{unique()}"
            (d / "has").mkdir(parents=True)
            (d / "python").write_text(f'#!/bin/sh\nVPLUG_INTERP=env VPLUG_ENV={d} exec {sys.executable} "$@"\n')
            (d / "python").chmod(0o755)
            envs[id(env)] = (d, set())
            me.log.append(["enter", [env.installer]])
            return env

        def leave(env, *_exc):
            me.log.append(["exit", []])
            shutil.rmtree(envs.pop(id(env))[0])

        def install(env, requirements):
            d, have = envs[id(env)]
            requirements = list(requirements)
            me.log.append(["install", sorted(requirements)])
            if me.fail == "install":
                raise subprocess.CalledProcessError(1, ["pip", "install"], b"", b"cannot install")
            have.update(requirements)
            for key, reqs in me.needs.items():
                if have.issuperset(reqs):
                    (d / "has" / key).touch()

        E.__init__, E.__enter__, E.__exit__, E.install = init, enter, leave, install
        E.python_executable = property(lambda env: str(envs[id(env)][0] / "python"))
        return self

    def __exit__(self, *_exc):
        for k, v in self._saved.items():
            setattr(self._cls, k, v)


def places(key: str) -> list[str]:
    """The interpreters in which a plugin was loaded or asked."""
    p = PLUG / f"{key}.where"
    return p.read_text().splitlines() if p.exists() else []


def calls(key: str) -> int:
    p = PLUG / f"{key}.calls"
    return len(p.read_text().splitlines()) if p.exists() else 0


def call_log(key: str) -> list[str]:
    p = PLUG / f"{key}.calls"
    return p.read_text().splitlines() if p.exists() else []


def toml_str(s: str) -> str:
    return json.dumps(s)


def toml_list(x) -> str:
    return "[" + ", ".join(toml_str(i) for i in x) + "]"


def config_toml(ns, feat, prop) -> str:
    out = f"namespace_priorities = {toml_list(ns)}\n"
    if feat:
        out += "[feature_priorities]\n" + "".join(f"{toml_str(n)} = {toml_list(f)}\n" for n, f in feat)
    for n, fs in prop:
        out += f"[property_priorities.{toml_str(n)}]\n" + "".join(f"{toml_str(f)} = {toml_list(v)}\n" for f, v in fs)
    return out


def local_config(textv: str | None):
    p = CWD / "variants.toml"
    if textv is None:
        p.unlink(missing_ok=True)
    else:
        p.write_text(textv, encoding="utf-8")
