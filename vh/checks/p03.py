"""P03: signal shifting."""
from __future__ import annotations

import random

from .. import dump, gen
from ..tlc import run_batch
from ..util import observe, rel
from .p02 import pair, refused, structure

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC on each recorded (pattern, shifted pattern, signal dictionary), all branches"
NOTE = ("Random runnable patterns with arbitrary s/t domains in all planes and Pauli axes, both shifting methods; TLC runs the shifted pattern on every branch "
        "and the original pattern on the outcomes related to it by the returned signals, comparing maps and weights exactly. Trusts TLC and the generator's reach.")

DEP = {"XY": "t", "YZ": "s", "XZ": "s"}


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 15485863 + 3)
    n = 1300 if quick else 12000
    cases, meta = [], {}
    from graphix.pattern import shift_outcomes

    for i in range(n):
        if large := i % 25 == 11:
            p = gen.large_pattern(rng)
        elif i % 10 == 9:
            p = gen.compiled_pattern(rng, rng.choice([1, 2]), rng.randrange(1, 4))
        else:
            p = gen.small_pattern(rng, cliffords=rng.choice([0, 0.2]), dom=rng.choice([0.3, 0.6, 0.9]), n_meas=rng.choice([2, 3, 3, 4]))
        cid, org = f"p{i}", repr(p)
        method = rng.choice(["direct", "mc", "default"])
        B = dump.pattern(p)
        q = gen.rebuild(p)
        if rng.random() < 0.3:
            if refused(p):
                chk.skipped += 1
                continue
            _, err = observe(chk, cid, q.standardize, org)
            if err:
                continue
            B = dump.pattern(q)
        sig, err = observe(chk, cid, lambda: q.shift_signals() if method == "default" else q.shift_signals(method), org)
        if err:
            continue
        A = dump.pattern(q)
        info = {"origin": org, "method": method, "signals": {k: sorted(v) for k, v in sig.items()}, "result": repr(q)}
        if not structure(chk, cid, p, q, info):
            continue
        meas_a = {c["n"]: c for c in A["cmds"] if c["k"] == "M"}
        meas_b = {c["n"]: c for c in B["cmds"] if c["k"] == "M"}
        if meas_a.keys() != meas_b.keys() or any((meas_a[k]["pl"], meas_a[k]["a"]) != (meas_b[k]["pl"], meas_b[k]["a"]) for k in meas_a):
            chk.violate(cid, "measurements-changed", info)
            continue
        left = [k for k, c in meas_a.items() if c[DEP[c["pl"]]]]
        if left:
            chk.violate(cid, "removable-dependency-left", {**info, "nodes": left})
        rels = [rel(k, {k} ^ set(sig.get(k, ()))) for k in meas_b]
        # the documented outcome conversion must agree with the expansion of the signals
        for _ in range(2):
            o = {k: rng.randrange(2) for k in meas_b}
            got, err = observe(chk, cid, lambda: shift_outcomes(o, sig), info)
            if err is None and {k: int(v) for k, v in got.items()} != {k: sum(o[x] for x in {k} ^ set(sig.get(k, ()))) % 2 for k in meas_b}:
                chk.violate(cid, "outcome-conversion", {**info, "outcomes": o, "got": got})
        if method == "mc":
            # the original algorithm expresses each signal over the outcomes of the unshifted pattern
            c = pair(cid, p, q, rng, 4 if large else 16, a=B, b=A, rels=rels)
        else:
            c = pair(cid, p, q, rng, 4 if large else 16, a=A, b=B, rels=rels)
        if not chk.affordable(c):
            continue
        meta[cid] = info
        cases.append(c)
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())))
    chk.assumptions.append("patterns with at most 6 nodes (compiled ones more), exhaustive up to 16 outcome branches; larger ones (8 to 20 measurements) on 4 sampled branches")
