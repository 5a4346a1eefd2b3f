"""Helpers of the workers: calling the code under test and recording the outcome."""
from __future__ import annotations

import copy
import contextlib
import io
import logging
import signal


class BadShape(Exception):
    """A call returned something of an unexpected type."""


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout


@contextlib.contextmanager
def limit(seconds: float):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def exc_name(e: BaseException) -> str:
    from variantlib.errors import ValidationError
    if isinstance(e, ValidationError):
        return "ValidationError"
    return type(e).__name__


def call(fn, seconds: float = 20):
    """Outcome of a call as {ok, val} or {ok, exc}."""
    try:
        with limit(seconds):
            return {"ok": True, "val": fn()}
    except Timeout:
        return {"ok": False, "exc": "Timeout"}
    except SystemExit as e:
        return {"ok": False, "exc": "SystemExit" if e.code else "SystemExit0"}
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: BLE001
        return {"ok": False, "exc": exc_name(e), "msg": str(e)[:300].encode("ascii", "replace").decode()}


def need(cond, what=""):
    if not cond:
        raise BadShape(what)


def lstr(x):
    need(isinstance(x, (list, tuple)) and all(type(i) is str for i in x), f"list of text: {x!r}")
    return list(x)


def text(x):
    need(type(x) is str, f"text: {x!r}")
    return x


def boolean(x):
    need(isinstance(x, bool), f"bool: {x!r}")
    return x


def prop(p):
    return [text(p.namespace), text(p.feature), text(p.value)]


def desc(d):
    return [prop(p) for p in d.properties]


def pairs(d, f=lambda v: v):
    need(isinstance(d, dict), f"dict: {d!r}")
    return [[text(k), f(v)] for k, v in d.items()]


def feats(d):
    return pairs(d, lstr)


def props3(d):
    return pairs(d, feats)


def undict(p):
    """list of pairs -> dict"""
    return {k: list(v) for k, v in p}


def undict3(p):
    return {k: undict(v) for k, v in p}


class Watch:
    """Notices modifications of arguments."""

    def __init__(self, **args):
        self.args = args
        self.before = {k: copy.deepcopy(v) for k, v in args.items()}
        self.reprs = {k: repr(v) for k, v in args.items()}

    def changed(self) -> list[str]:
        res = []
        for k, v in self.args.items():
            try:
                same = (v == self.before[k] and type(v) is type(self.before[k]) and repr(v) == self.reprs[k])
            except Exception:  # noqa: BLE001
                same = False
            if not same:
                res.append(k)
        return sorted(res)


@contextlib.contextmanager
def quiet():
    out, err = io.StringIO(), io.StringIO()
    log = logging.getLogger("variantlib")
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            yield out, err
        finally:
            for h in list(log.handlers):
                log.removeHandler(h)
