"""P01: compiled patterns implement their circuit on every measurement branch."""
from __future__ import annotations

import random

from .. import dump, gen
from ..tlc import run_batch
from ..util import branches, case, observe, rel

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC on every recorded circuit/pattern pair and branch"
NOTE = ("Each generated circuit and the pattern the code compiled from it are executed by the TLA+ machine on every branch (sampled beyond 8) "
        "over an exact finite-field amplitude domain on all inputs at once (Choi state); trusts TLC, the field homomorphism and the generator's reach.")


def compiled_case(cid, circ, tp, rng, cap):
    prog = dump.pattern(tp.pattern)
    cprog, measured = dump.circuit(circ)
    cl = [int(n) for n in tp.classical_outputs]
    rels = [rel(q, [n]) for q, n in zip(measured, cl)]
    free = len(dump.measured(prog)) - len(cl)
    return case(cid, prog, cprog, rels, branches(rng, dump.measured(prog), cap), ka=max(free, 0), kb=0), len(cl) == len(measured)


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 7919 + 1)
    n = 170 if quick else 2500
    cap = 8 if quick else 32
    src = list(gen.each_gate())
    for i in range(n):
        w = rng.choice([1, 2, 2, 2, 3, 3]) if quick else rng.choice([1, 2, 2, 3, 3, 3, 4])
        d = rng.randrange(1, 8 if quick else 12)
        src.append((f"r{i}", gen.circuit(rng, w, d, measure=rng.choice([0, 0, 0.15]), swap=0.15 if i % 5 == 0 else 0, ccx=0.02)))
    cases, meta = [], {}
    for name, circ in src:
        for opt in (True, False):
            if not opt and name.startswith("r") and rng.random() < 0.7:
                continue
            cid = f"{name}-{'swaps' if opt else 'plain'}"
            before = repr(circ)
            tp, err = observe(chk, cid, lambda: circ.transpile(transpile_swaps=opt), before)
            if err:
                continue
            c, ok = compiled_case(cid, circ, tp, rng, cap)
            meta[cid] = {"circuit": before, "transpile_swaps": opt}
            if not ok:
                chk.violate(cid, "classical-output-arity", meta[cid])
                continue
            if not chk.affordable(c):
                continue
            cases.append(c)
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())))
    chk.assumptions.append("angles are multiples of pi/2048; widths up to 4, pattern branches exhaustive up to the stated cap")
