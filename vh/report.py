"""Verdicts, known findings, evidence files."""
from __future__ import annotations

import glob
import json
import os
import re
import time

from .tlc import ROOT, Result

KNOWN = os.path.join(ROOT, "known_findings.json")


class Check:
    def __init__(self, prop: str, tier: str, seed: int, level: str) -> None:
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        for f in glob.glob(os.path.join(ROOT, "evidence", f"replay-{prop}-*.json")):
            os.remove(f)
        self.violations: list[dict] = []
        self.known: list[str] = []
        self.samples: list = []
        self.cov: dict = {}
        self.assumptions: list[str] = []
        self.states = self.distinct = self.traces = 0
        self.cases: dict[str, dict] = {}
        self.skipped = 0
        self.clauses: dict[str, int] = {}
        self.actions: dict[str, int] = {}

    # -- known findings
    def _known_for(self, vid: str, clause: str) -> dict | None:
        try:
            with open(KNOWN) as f:
                entries = json.load(f)
        except FileNotFoundError:
            return None
        for e in entries:
            if e.get("status") == "known" and e["property"] == self.prop and e["case"] == vid and e["clause"] == clause:
                return e
        return None

    def violate(self, vid: str, clause: str, data) -> None:
        k = self._known_for(vid, clause)
        if k is not None:
            if k["what"] not in self.known:
                self.known.append(k["what"])
            return
        self.violations.append({"id": vid, "clause": clause, "data": data})

    def affordable(self, c: dict, per_case: int = 60_000) -> bool:
        """Keep a case only if its exhaustive run touches a bounded number of amplitudes; counts the ones left out."""
        from .dump import case_cost

        if case_cost(c) > per_case * (1 if self.tier == "quick" else 20):
            self.skipped += 1
            return False
        self.amps = getattr(self, "amps", 0) + case_cost(c)
        return True

    def absorb(self, res: Result, cases: list[dict], meta: dict[str, dict] | None = None) -> None:
        """Record TLC's verdict on a batch of recorded behaviours."""
        self.states += res.states
        self.distinct += res.distinct
        self.traces += len(cases)
        for k, v in res.coverage.items():
            self.actions[k] = self.actions.get(k, 0) + v
        by_id = {c["id"]: c for c in cases}
        for cid, recs in res.fail.items():
            for clause in dict.fromkeys(r["c"] for r in recs):
                self.violate(cid, clause, {"case": by_id.get(cid), "verdict": [r for r in recs if r["c"] == clause][:3],
                                           "origin": (meta or {}).get(cid)})
        for c in cases[:3]:
            if len(self.samples) < 12:
                self.samples.append((meta or {}).get(c["id"]) or {"case": c["id"]})

    def finish(self, coverage: dict | None = None) -> int:
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        rc = 0
        seen = set()
        for i, v in enumerate(self.violations):
            key = (v["clause"].split(" ")[0])
            if key in seen and i > 20:
                continue
            seen.add(key)
            if i < 25:
                name = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{self.prop}-{v['id']}-{v['clause']}")[:120]
                path = os.path.join(ev, f"replay-{name}.json")
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, default=str)
                print(f"VIOLATION property={self.prop} replay={path} case={v['id']} clause={v['clause']}")
            rc = 1
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        cov = {"states": self.distinct, "transitions": self.states, "traces_validated_against_impl": self.traces,
               "amplitudes_evaluated": getattr(self, "amps", 0), "samples": self.samples[:12] or ["(none)"], "skipped": self.skipped}
        if self.actions:
            cov["spec_action_counts"] = self.actions
        cov.update(self.cov)
        cov.update(coverage or {})
        rec = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
               "assumptions": self.assumptions}
        with open(os.path.join(ev, f"{self.prop}.json"), "w") as f:
            json.dump(rec, f, indent=1, default=str)
        print(f"{self.prop} {self.tier}: {self.traces} behaviours of the implementation checked, {self.distinct} spec states, "
              f"{len(self.violations)} violations, {rec['wall_s']} s")
        return rc
