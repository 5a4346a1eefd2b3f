"""Running TLC and reading what the specification prints."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"


class Machinery(Exception):
    """The check itself failed (exit status 2)."""


class TLCResult:
    def __init__(self, out: str, rc: int):
        self.out = out
        self.rc = rc
        self.generated = self.distinct = 0
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        if m:
            self.generated = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))

    def tagged(self, tag: str) -> list:
        res = []
        for line in self.out.splitlines():
            i = line.find(f"@@{tag} ")
            if i < 0:
                continue
            text = line[i + len(tag) + 3:]
            if text.endswith('"'):
                text = text[:-1]
            text = text.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(text))
        return res


class TLC:
    """A TLC run, started at once; .wait() gives the result."""

    def __init__(self, module: str, cfg: str | None = None, workers: int = 4, env: dict | None = None,
                 cfg_text: str | None = None, args: list[str] | None = None, heap: str | None = None,
                 timeout: float = 800):
        self.dir = Path(tempfile.mkdtemp(prefix="vtlc"))
        self.timeout = timeout
        if cfg_text is not None:
            cfgp = self.dir / f"{module}.cfg"
            cfgp.write_text(cfg_text)
        else:
            cfgp = SPEC / (cfg or f"{module}.cfg")
        e = dict(os.environ, **(env or {}))
        e["JAVA_TOOL_OPTIONS"] = "-Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8" + (f" -Xmx{heap}" if heap else "") \
            + " -XX:+UseParallelGC -Xss64m"
        self.outf = open(self.dir / "out", "w+", encoding="utf-8")
        self.proc = subprocess.Popen(
            ["tlc", "-workers", str(workers), "-metadir", str(self.dir / "meta"), "-noGenerateSpecTE",
             "-config", str(cfgp), *(args or []), str(SPEC / f"{module}.tla")],
            stdout=self.outf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=self.dir, env=e)
        self.module = module

    def wait(self) -> TLCResult:
        try:
            rc = self.proc.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            raise Machinery(f"TLC on {self.module} ran out of time") from None
        finally:
            self.outf.flush()
        self.outf.seek(0)
        out = self.outf.read()
        self.outf.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        return TLCResult(out, rc)

    def stop(self):
        if self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def check_clean(res: TLCResult, what: str) -> TLCResult:
    if res.rc != 0 or "No error has been found" not in res.out:
        text = "\n".join(l for l in res.out.splitlines() if "@@" not in l)
        tail = text[max(text.find("Error:"), 0):][:3000] + "\n...\n" + text[-2000:]
        raise Machinery(f"TLC failed on {what} (status {res.rc}):\n{tail}")
    return res


def validate(module: str, sessions: list[dict], workers: int = 8, env: dict | None = None,
             timeout: float = 800) -> tuple[list[dict], TLCResult]:
    """Judge recorded sessions with a trace specification; returns its verdicts."""
    tmp = Path(tempfile.mkdtemp(prefix="vtrace"))
    try:
        path = tmp / "trace.ndjson"
        with path.open("w") as f:
            for s in sessions:
                f.write(json.dumps(s, ensure_ascii=True) + "\n")
        res = check_clean(TLC(module, cfg="Trace.cfg", workers=workers, timeout=timeout,
                              env={"TRACE": str(path), **(env or {})}).wait(), module)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    want = sum(len(s["ev"]) + 1 for s in sessions)
    if res.distinct != want:
        raise Machinery(f"{module}: {res.distinct} states for {want} recorded steps")
    return res.tagged("V"), res
