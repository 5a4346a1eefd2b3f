"""Executes scenarios of one suite against the real code: worker.py SUITE IN OUT SCRATCH"""
from __future__ import annotations

import importlib
import json
import os
import sys
import traceback
from pathlib import Path

import world


def main() -> int:
    suite, inp, outp, scratch = sys.argv[1:]
    world.setup(Path(scratch))
    mod = importlib.import_module(f"suite_{suite}")
    if hasattr(mod, "setup"):
        mod.setup()
    with open(inp) as fin, open(outp, "w") as fout:
        for line in fin:
            s = json.loads(line)
            try:
                ev = mod.execute(s)
            except BaseException:
                sys.stderr.write(f"scenario {json.dumps(s)[:3000]}\n{traceback.format_exc()}")
                return 3
            fout.write(json.dumps({"id": s["id"], "ev": ev}) + "\n")
            fout.flush()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.exit(main())
