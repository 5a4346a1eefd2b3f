"""Provider plugins whose behaviour is read from $VPLUG_DIR/conf/<attribute>.json"""
import json
import os
import sys
from dataclasses import dataclass


@dataclass
class Feat:
    name: object
    values: object
    multi_value: object = False


class Plugin:
    def __init__(self, key, data):
        self._key, self._data = key, data
        if "namespace" in data:
            self.namespace = data["namespace"]
        if "is_aot_plugin" in data:
            self.is_aot_plugin = data["is_aot_plugin"]
        for m in ("get_supported_configs", "get_all_configs"):
            if data.get(m, None) == "missing":
                continue
            setattr(self, m, lambda m=m: self._run(m))

    def _run(self, method):
        _note(self._key, method)
        what = self._data.get(method, [])
        if isinstance(what, dict):
            kind = what["kind"]
            if kind == "raise":
                raise RuntimeError("plugin failure")
            if kind == "exit":
                sys.exit(what["code"])
            if kind == "_exit":
                os._exit(what["code"])
            if kind == "print":          # pollutes the answer
                print(what["text"])
                what = what["then"]
            elif kind == "value":        # an arbitrary answer
                return what["value"]
            elif kind == "tuple":
                return tuple(Feat(*f) for f in what["then"])
            elif kind == "counter":      # a different answer on every query
                n = sum(1 for _ in open(_calls(self._key)))
                return [Feat("f", [str(n)], False)]
            elif kind == "interp":       # an answer that depends on the interpreter
                return [Feat("f", [os.environ.get("VPLUG_INTERP", "default")], False)]
            elif kind == "failfirst":    # fails once
                n = sum(1 for _ in open(_calls(self._key)))
                if n <= what["n"]:
                    raise RuntimeError("temporary failure")
                what = what["then"]
            elif kind == "stderr":
                sys.stderr.write("noise\n")
                what = what["then"]
            elif kind == "kill":
                os.kill(os.getpid(), 9)
        return [Feat(*f) for f in what]


def _calls(key):
    return os.path.join(os.environ["VPLUG_DIR"], key + ".calls")


def _note(key, what):
    with open(_calls(key), "a") as f:
        f.write(what + "\n")
    with open(_calls(key)[:-5] + "where", "a") as f:
        f.write(os.environ.get("VPLUG_INTERP", "d") + "\n")


def _load(key):
    try:
        with open(os.path.join(os.environ["VPLUG_DIR"], "conf", key + ".json")) as f:
            data = json.load(f)
    except OSError:
        raise AttributeError(key) from None
    if "interps" in data:                # a behaviour for each interpreter
        data = data["interps"].get(os.environ.get("VPLUG_INTERP", "d"))
        if data is None:
            raise AttributeError(key)
        env = os.environ.get("VPLUG_ENV")
        if env is not None and not os.path.exists(os.path.join(env, "has", key)):
            raise AttributeError(key)    # not installed there
    return data


class _Nest:
    def __getattr__(self, key):
        return _get(key)


def __getattr__(key):
    if key == "nest":                    # plugins as attributes of an attribute
        return _Nest()
    return _get(key)


def _get(key):
    if key.startswith("_"):
        raise AttributeError(key)
    data = _load(key)
    _note(key, "load")
    if data.get("import") == "raise":
        raise RuntimeError("cannot import")
    if data.get("import") == "exit":
        sys.exit(3)
    if data.get("import") == "none":
        return None
    if data.get("import") == "print":
        print("imported")
    return Plugin(key, data)
