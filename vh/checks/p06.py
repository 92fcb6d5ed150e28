"""P06: rescheduling."""
from __future__ import annotations

import itertools
import random

from .. import dump, gen
from ..tlc import run_batch
from ..util import observe
from .p02 import pair, refused, structure

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC on each recorded (pattern, rescheduled pattern) pair, all branches; multiset of commands compared"
NOTE = ("Random runnable patterns and compiled circuits through every space heuristic, space-optimal emission and parallelisation; TLC decides runnability of every "
        "command and equality of all branch maps, the harness compares command multisets and live-node counts. Trusts TLC and the generator's reach.")


def key(c, edges=True):
    if c["k"] == "E":
        return ("E", min(c["a"], c["b"]), max(c["a"], c["b"]))
    return (c["k"], c["n"], c.get("st"), c.get("pl"), c.get("a"), tuple(c.get("s", ())), tuple(c.get("t", ())), tuple(c.get("d", ())), str(c.get("m")))


def multiset(prog):
    out = {}
    for c in prog["cmds"]:
        if c["k"] in "XZ" and not c["d"]:
            continue
        if c["k"] == "C" and c["m"] == [[1, 0], [0, 0], [0, 0], [1, 0]]:
            continue
        out[key(c)] = out.get(key(c), 0) + 1
    return out


def live_peak(prog):
    live = best = len(prog["inputs"])
    for c in prog["cmds"]:
        live += (c["k"] == "N") - (c["k"] == "M")
        best = max(best, live)
    return best


def layered(prog) -> int:
    """Depth in measurement rounds, read from the emitted measurement order."""
    depth = {}
    for c in prog["cmds"]:
        if c["k"] == "M":
            depth[c["n"]] = 1 + max([depth[x] for x in c["s"] + c["t"]], default=0)
    return depth


def run(chk):
    from graphix import command
    from graphix.optimization import StandardizedPattern
    from graphix.space_minimization import SpaceMinimizationHeuristics as H

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 32452843 + 6)
    n = 1100 if quick else 10000
    cases, meta = [], {}

    def ops():
        yield "minimize_space", lambda p: (p.minimize_space(), p)[1]
        yield "minimize_space copy", lambda p: p.minimize_space(copy=True)
        yield "greedy_degree", lambda p: p.minimize_space([H.greedy_degree], copy=True)
        yield "order_unchanged", lambda p: p.minimize_space([H.order_unchanged], copy=True)
        yield "causal_flow", lambda p: p.minimize_space([H.causal_flow], copy=True)
        yield "two heuristics", lambda p: p.minimize_space([H.order_unchanged, H.greedy_degree], copy=True)
        yield "to_space_optimal_pattern", lambda p: StandardizedPattern.from_pattern(p).to_space_optimal_pattern()
        yield "std.minimize_space", lambda p: StandardizedPattern.from_pattern(p).minimize_space().to_space_optimal_pattern()
        yield "parallelize", lambda p: (p.parallelize_pattern(), p)[1]

    allops = list(ops())
    for i in range(n):
        if large := i % 25 == 11:
            p = gen.large_pattern(rng)
        elif i % 5 == 4:
            p = gen.compiled_pattern(rng, rng.choice([1, 2, 2, 3]), rng.randrange(1, 5), ccx=0)
            if rng.random() < 0.5:      # edges between outputs, after the corrections
                outs = list(p.output_nodes)
                for a, b in itertools.combinations(outs, 2):
                    if rng.random() < 0.6:
                        p.add(command.E((a, b) if rng.random() < 0.5 else (b, a)))
            if rng.random() < 0.5:
                p.standardize()
        else:
            p = gen.small_pattern(rng, cliffords=rng.choice([0, 0, 0.1]), plus_only=rng.random() < 0.7, n_meas=rng.choice([1, 2, 3, 4]))
        cid, org = f"p{i}", repr(p)
        if refused(p):
            chk.skipped += 1
            continue
        name, op = allops[i % len(allops)]
        src = gen.rebuild(p)
        std, err = observe(chk, cid, lambda: StandardizedPattern.from_pattern(gen.rebuild(p)), org)
        if err:
            continue
        q, err = observe(chk, cid, lambda: op(src), {"pattern": org, "op": name},
                         expect=(ValueError,) if name == "parallelize" and any(c["k"] == "N" and c["st"] != "PLUS" for c in dump.pattern(p, False)["cmds"]) else ())
        if err:
            chk.skipped += 1
            continue
        A, B = dump.pattern(q), dump.pattern(p)
        info = {"pattern": org, "op": name, "result": repr(q)}
        if not structure(chk, cid, p, q, info):
            continue
        S = dump.std_pattern(std, False)
        if multiset(S) != multiset(dump.pattern(q, False)):
            chk.violate(cid, "commands-changed", info)
        peak = live_peak(A)
        if name != "greedy_degree" and peak > live_peak(S):
            chk.violate(cid, "space-increased", info)
        if name in ("minimize_space", "minimize_space copy", "two heuristics", "std.minimize_space"):
            base, err = observe(chk, cid, lambda: std.to_space_optimal_pattern(), info)
            if err is None and peak > live_peak(dump.pattern(base, False)):
                chk.violate(cid, "worse-than-unchanged-order", info)
        if name == "to_space_optimal_pattern" and std.max_space() != peak:
            chk.violate(cid, "predicted-space", {**info, "predicted": std.max_space(), "actual": peak})
        if name == "parallelize":
            d = layered(A)
            seq = [d[c["n"]] for c in A["cmds"] if c["k"] == "M"]
            if seq != sorted(seq):
                chk.violate(cid, "not-parallel", info)
        c = pair(cid, p, q, rng, 4 if large else 16, a=A, b=B)
        if not chk.affordable(c):
            continue
        meta[cid] = info
        cases.append(c)
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())))
    chk.assumptions.append("patterns with at most 6 nodes (compiled ones up to ~15), exhaustive up to 16 outcome branches; larger ones (8 to 20 measurements) on 4 sampled branches")
