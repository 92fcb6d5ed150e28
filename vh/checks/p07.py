"""P07: the runnability check accepts exactly the runnable patterns."""
from __future__ import annotations

import random

from .. import gen
from ..tlc import generate
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ model (Runnable.tla) enumerated by TLC; every generated command sequence replayed into the real check"
NOTE = ("TLC enumerates every command sequence over small alphabets up to a length bound (model invariants checked on the way) and each is replayed into the "
        "implementation: verdict, reason, node, offending command and outputs must be the model's. Bounded to 2-4 nodes and short sequences.")


def build(rec, rename, inputs):
    from graphix import Pattern, command
    from graphix.clifford import Clifford
    from graphix.fundamentals import Axis
    from graphix.measurements import Measurement, PauliMeasurement

    p = Pattern(input_nodes=[rename[i] for i in inputs])
    for i, c in enumerate(rec):
        n = rename[c["n"]]
        k = c["k"]
        if k == "N":
            cmd = command.N(n)
        elif k == "E":
            cmd = command.E((n, rename[c["m"]]))
        elif k == "M":
            s, t = ({rename[x] for x in c[d]} for d in "st")
            cmd = command.M(n, Measurement.XY(0.25) if i % 2 else PauliMeasurement(Axis.Z), s, t)
        elif k == "C":
            cmd = command.C(n, Clifford.H)
        else:
            cmd = {"X": command.X, "Z": command.Z}[k](n, {rename[x] for x in c["d"]})
        p.add(cmd)
    return p


def run(chk):
    from graphix.pattern import RunnabilityError

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed + 7)
    E0 = [[]]
    confs = [
        {"inputs": [0], "nodes": [0, 1], "len": 4, "doms": [[], [0], [1]], "kinds": ["N", "E", "M", "X", "Z", "C"]},
        {"inputs": [], "nodes": [0, 1, 2], "len": 3, "doms": [[], [0], [1, 2]], "kinds": ["N", "E", "M", "X", "Z", "C"]},
        {"inputs": [0, 1], "nodes": [0, 1, 2], "len": 3, "doms": [[], [0], [1], [0, 1]], "kinds": ["N", "E", "M", "X", "Z", "C"]},
        {"inputs": [0, 1, 2], "nodes": [0, 1, 2], "len": 4, "doms": [[], [0], [0, 1]], "kinds": ["M", "X"]},
        {"inputs": [0], "nodes": [0, 1, 2], "len": 6, "doms": E0, "kinds": ["N", "M", "E"]},
    ]
    if not quick:
        confs += [
            {"inputs": [0], "nodes": [0, 1], "len": 5, "doms": [[], [0], [1], [0, 1]], "kinds": ["N", "E", "M", "X", "Z", "C"]},
            {"inputs": [0, 1], "nodes": [0, 1, 2], "len": 4, "doms": [[], [0], [1], [0, 1]], "kinds": ["N", "E", "M", "X", "Z", "C"]},
        ]
    total = 0
    for k, conf in enumerate(confs):
        recs, res = generate("Runnable", [conf], timeout=800 if quick else 5000, heap="14g")
        chk.states += res.states
        chk.distinct += res.distinct
        for a, v in res.coverage.items():
            chk.actions[a] = chk.actions.get(a, 0) + v
        names = rng.sample(range(40), len(conf["nodes"]))
        rename = dict(zip(conf["nodes"], names))
        inv = {v: k for k, v in rename.items()}
        for i, r in enumerate(recs):
            p, err = observe(chk, f"c{k}", lambda: build(r["s"], rename, conf["inputs"]), r)
            if err:
                continue
            total += 1
            try:
                p.check_runnability()
                got = None
            except RunnabilityError as e:
                got = e
            except Exception as e:  # noqa: BLE001
                chk.violate(f"c{k}-{i}", f"raised-{type(e).__name__}", {"sequence": r["s"]})
                continue
            info = {"sequence": r["s"], "model": r, "code": repr(got)}
            if (got is None) != (r["ok"] == 1):
                chk.violate(f"c{k}-{i}", "wrong-verdict", info)
            elif got is None:
                if sorted(p.output_nodes) != sorted(rename[x] for x in r["l"]) or len(set(p.output_nodes)) != len(p.output_nodes):
                    chk.violate(f"c{k}-{i}", "outputs", info)
            else:
                if got.cmd != p[len(p) - 1]:
                    chk.violate(f"c{k}-{i}", "wrong-command", info)
                why = [got.reason.name, inv.get(got.node)]
                ok = why in [list(x) for x in r["r"]]
                if not ok:
                    chk.violate(f"c{k}-{i}", "wrong-reason", info)
                if not str(got):
                    chk.violate(f"c{k}-{i}", "no-message", info)
        chk.samples += [{"config": conf, "sequences": len(recs), "example": recs[len(recs) // 2] if recs else None}]
    chk.traces = total
    chk.assumptions.append("alphabets of 2-3 nodes, sequences up to the stated lengths; exhaustive within them")
