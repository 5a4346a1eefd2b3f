"""Runs scenarios of a suite against the code under test in several processes."""
from __future__ import annotations

import json
import os
import shutil
import subprocess
import tempfile
import time
from pathlib import Path

from tlc import Machinery

HERE = Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"
REPO = "/repo"


def clean_env(scratch: Path) -> dict:
    keep = {k: v for k, v in os.environ.items()
            if k in ("PATH", "LANG", "LC_ALL", "VERIF_SEED", "VERIF_TIER", "TERM")}
    home = scratch / "home"
    home.mkdir(parents=True, exist_ok=True)
    keep.update(HOME=str(home), XDG_CONFIG_HOME=str(home / "xdg"), XDG_CONFIG_DIRS=str(home / "site"),
                TMPDIR=str(scratch), PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=str(scratch / "pyc"),
                PYTHONPATH=f"{REPO}:{HERE}", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", PYTHONUTF8="1")
    return keep


def run(suite: str, scenarios: list[dict], procs: int = 8, timeout: float = 600) -> list[dict]:
    """Execute scenarios; returns sessions [{id, ev}] in the order of the scenarios."""
    if not scenarios:
        return []
    top = Path(tempfile.mkdtemp(prefix="vrun"))
    try:
        # interleave, so that costly kinds spread evenly
        procs = max(1, min(procs, len(scenarios)))
        running = []
        for w in range(procs):
            scratch = top / f"w{w}"
            scratch.mkdir()
            inp, outp = scratch / "in.ndjson", scratch / "out.ndjson"
            with inp.open("w") as f:
                for s in scenarios[w::procs]:
                    f.write(json.dumps(s) + "\n")
            err = open(scratch / "err", "w+")
            p = subprocess.Popen([PY, str(HERE / "worker.py"), suite, str(inp), str(outp), str(scratch)],
                                 env=clean_env(scratch), cwd=scratch, stdin=subprocess.DEVNULL,
                                 stdout=err, stderr=subprocess.STDOUT, start_new_session=True)
            running.append((p, outp, err, len(scenarios[w::procs])))
        end = time.monotonic() + timeout
        res: dict = {}
        fail = None
        for p, outp, err, n in running:
            try:
                rc = p.wait(timeout=max(1, end - time.monotonic()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = "timeout"
            got = []
            if outp.exists():
                for line in outp.read_text().splitlines():
                    with_s = json.loads(line)
                    got.append(with_s)
                    res[json.dumps(with_s["id"])] = with_s
            if rc != 0 or len(got) != n:
                err.seek(0)
                fail = f"worker of suite {suite} ended with {rc} after {len(got)} of {n}:\n{err.read()[-4000:]}"
            err.close()
        if fail:
            raise Machinery(fail)
        return [res[json.dumps(s["id"])] for s in scenarios]
    finally:
        shutil.rmtree(top, ignore_errors=True)
