"""Run TLC on a specification module over a batch of cases and collect total verdicts."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self) -> None:
        self.ok: dict[str, int] = {}
        self.fail: dict[str, list[dict]] = {}
        self.notes: dict[str, list[dict]] = {}
        self.states = 0
        self.distinct = 0
        self.wall = 0.0
        self.runs = 0
        self.coverage: dict[str, int] = {}

    def merge(self, o: "Result") -> None:
        for k, v in o.ok.items():
            self.ok[k] = self.ok.get(k, 0) + v
        for k, v in o.fail.items():
            self.fail.setdefault(k, []).extend(v)
        for k, v in o.notes.items():
            self.notes.setdefault(k, []).extend(v)
        self.states += o.states
        self.distinct += o.distinct
        self.wall += o.wall
        self.runs += o.runs
        for k, v in o.coverage.items():
            self.coverage[k] = self.coverage.get(k, 0) + v


_RE_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
_RE_COV = re.compile(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+(?: \([^)]*\))?>: (\d+):(\d+)", re.M)


def _invoke(module: str, cases_path: str | None, workers: int, timeout: float, env: dict | None, coverage: bool,
            cfg: str | None, extra: list[str] | None, heap: str):
    meta = tempfile.mkdtemp(prefix="vh-tlc-")
    try:
        e = dict(os.environ)
        if cases_path:
            e["CASES"] = cases_path
        if env:
            e.update(env)
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-config", cfg or f"{module}.cfg"]
        if coverage:
            cmd += ["-coverage", "60"]
        cmd += (extra or []) + [f"{module}.tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            return 124, (ex.stdout or b"").decode("utf-8", "replace")
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _parse(out: str, res: Result) -> None:
    seen = set()
    exist: dict[tuple[str, str], list[dict]] = {}
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            try:
                rec = json.loads(json.loads(line))
            except ValueError:
                continue
            if not isinstance(rec, dict) or "v" not in rec:
                continue
            if rec["v"] == "E":
                exist.setdefault((rec["id"], rec["ao"]), []).append(rec)
            elif rec["v"] == "K":
                res.ok[rec["id"]] = res.ok.get(rec["id"], 0) + 1
            elif line not in seen:
                seen.add(line)
                (res.fail if rec["v"] == "F" else res.notes).setdefault(rec["id"], []).append(rec)
    for (cid, _ao), recs in exist.items():
        if any(r["c"] == "ok" for r in recs):
            res.ok[cid] = res.ok.get(cid, 0) + 1
        else:
            res.fail.setdefault(cid, []).append({**recs[0], "v": "F", "c": "no-branch"})
    m = None
    for m in _RE_STATES.finditer(out):
        pass
    if m:
        res.states += int(m.group(1))
        res.distinct += int(m.group(2))
    for m in _RE_COV.finditer(out):
        res.coverage[m.group(1)] = max(res.coverage.get(m.group(1), 0), int(m.group(3)))


def run_batch(module: str, cases: list[dict], workers: int = 8, timeout: float = 600, env: dict | None = None,
              coverage: bool = False, cfg: str | None = None, heap: str = "12g", chunk: int | None = None) -> Result:
    """Every case gets a verdict: K (accepted) and/or F (rejected, with the failing clause)."""
    total = Result()
    if chunk and len(cases) > chunk:
        for i in range(0, len(cases), chunk):
            total.merge(run_batch(module, cases[i:i + chunk], workers, timeout, env, coverage, cfg, heap))
        return total
    if not cases:
        return total
    t0 = time.time()
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    d = tempfile.mkdtemp(prefix="vh-cases-")
    try:
        path = os.path.join(d, "cases.json")
        with open(path, "w") as f:
            json.dump(cases, f)
        rc, out = _invoke(module, path, workers, timeout, env, coverage, cfg, None, heap)
        res = Result()
        _parse(out, res)
        res.runs += 1
        missing = [c for c in cases if c["id"] not in res.ok and c["id"] not in res.fail]
        clean = rc == 0 and "No error has been found" in out
        if not clean or missing:
            if "Parsing or semantic analysis failed" in out or "*** Errors" in out:
                raise TLCError(f"{module}: specification does not parse\n{out[-3000:]}")
            if rc == 124:
                raise TLCError(f"{module}: TLC timed out after {timeout}s on {len(cases)} cases")
            if len(cases) == 1:
                tail = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))[-1500:]
                res.fail.setdefault(ids[0], []).append({"v": "F", "id": ids[0], "c": "spec-evaluation", "detail": tail})
            else:
                # The specification could not be evaluated on some case: isolate it.
                res = Result()
                h = len(cases) // 2
                for part in (cases[:h], cases[h:]):
                    res.merge(run_batch(module, part, workers, timeout, env, coverage, cfg, heap))
        total.merge(res)
        total.wall = time.time() - t0
        return total
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_model(module: str, cfg: str, workers: int = 8, timeout: float = 600, env: dict | None = None,
              extra: list[str] | None = None, heap: str = "12g", coverage: bool = False):
    """Plain model checking; returns (ok, Result, output)."""
    rc, out = _invoke(module, None, workers, timeout, env, coverage, cfg, extra, heap)
    res = Result()
    _parse(out, res)
    res.runs = 1
    if rc == 124:
        raise TLCError(f"{module}/{cfg}: TLC timed out after {timeout}s")
    if "Parsing or semantic analysis failed" in out:
        raise TLCError(out[-3000:])
    return rc == 0 and "No error has been found" in out, res, out


def generate(module: str, conf, cfg: str | None = None, workers: int = 8, timeout: float = 600, heap: str = "12g"):
    """Let TLC enumerate behaviours: returns (records printed with v = "G", Result). Fails if any invariant of the model fails."""
    d = tempfile.mkdtemp(prefix="vh-cases-")
    try:
        path = os.path.join(d, "cases.json")
        with open(path, "w") as f:
            json.dump(conf, f)
        rc, out = _invoke(module, path, workers, timeout, None, True, cfg, None, heap)
        if rc != 0 or "No error has been found" not in out:
            raise TLCError(f"{module}: {out[-3000:]}")
        res = Result()
        recs = []
        for line in out.splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                recs.append(json.loads(json.loads(line)))
        _parse("\n".join(l for l in out.splitlines() if not l.startswith('"{')), res)
        res.runs = 1
        return recs, res
    finally:
        shutil.rmtree(d, ignore_errors=True)
