"""P02: standardization."""
from __future__ import annotations

import random

from .. import dump, gen
from ..tlc import run_batch
from ..util import branches, case, observe, rel

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC on each recorded (pattern, standardized pattern) pair, all branches"
NOTE = ("Random runnable patterns with arbitrarily interleaved N/E/M/X/Z/C commands over all planes, Pauli axes, preparation states and node names; "
        "TLC runs original and rewritten pattern on every branch from a Choi state in exact finite-field arithmetic and checks standard order. "
        "Trusts TLC and the generator's reach (small patterns).")

ORDER = {"N": 0, "E": 1, "M": 2, "Z": 3, "X": 3, "C": 4}


def refused(p) -> bool:
    """Does some Clifford that does not commute with CZ up to Paulis precede an E on its node?"""
    from graphix.clifford import Clifford
    from graphix.command import CommandKind as K

    acc = {}
    for c in p:
        if c.kind == K.C:
            acc[c.node] = c.clifford @ acc.get(c.node, Clifford.I)
        elif c.kind == K.E:
            for n in c.nodes:
                # diagonal or antidiagonal matrices only
                m = acc.get(n, Clifford.I).matrix
                if abs(m[0, 0]) > 1e-6 and abs(m[0, 1]) > 1e-6:
                    return True
    return False


def pair(cid, p, q, rng, cap=16, rels=None, a=None, b=None, **kw):
    """Case: new pattern q (free branches) against original p."""
    A = a or dump.pattern(q)
    B = b or dump.pattern(p)
    ms = dump.measured(A)
    rels = [rel(n, [n]) for n in dump.measured(B)] if rels is None else rels
    return case(cid, A, B, rels, branches(rng, ms, cap), **{"ka": 0, "kb": 0, **kw})


def structure(chk, cid, p, q, org) -> bool:
    if list(q.input_nodes) != list(p.input_nodes) or list(q.output_nodes) != list(p.output_nodes):
        chk.violate(cid, "ports", {"origin": org, "in": q.input_nodes, "out": q.output_nodes})
        return False
    return True


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 104729 + 2)
    n = 1300 if quick else 12000
    cases, meta = [], {}
    for i in range(n):
        if large := i % 25 == 11:
            p = gen.large_pattern(rng)
        elif i % 8 == 7:
            p = gen.compiled_pattern(rng, rng.choice([1, 2]), rng.randrange(1, 4))
        else:
            p = gen.small_pattern(rng, cliffords=rng.choice([0, 0.2, 0.4]), plus_only=rng.random() < 0.5)
        cid, org = f"p{i}", repr(p)
        ref = refused(p)
        how = i % 3
        if how == 0:
            q, err = observe(chk, cid, lambda: (lambda c: (c.standardize(), c)[1])(p.copy()), org, expect=(NotImplementedError,))
        else:
            from graphix.optimization import StandardizedPattern

            q, err = observe(chk, cid, lambda: StandardizedPattern.from_pattern(p), org, expect=(NotImplementedError,))
        if err is not None:
            if isinstance(err, NotImplementedError) and not ref:
                chk.violate(cid, "refused-standardizable", {"origin": org})
            chk.skipped += 1
            continue
        if how != 0:
            A = dump.std_pattern(q)
            if how == 2:
                q, err = observe(chk, cid, lambda: q.to_pattern(), org)
                if err is not None:
                    continue
                A = None
        else:
            A = None
        if A is None:
            ks = [ORDER[c["k"]] for c in dump.pattern(q, False)["cmds"]]
            if ks != sorted(ks) or not q.is_standard():
                chk.violate(cid, "not-standard", {"origin": org, "result": repr(q)})
        if repr(p) != org:
            chk.violate(cid, "argument-modified", {"origin": org, "now": repr(p)})
        if not structure(chk, cid, p, q, org):
            continue
        c = pair(cid, p, q, rng, 4 if large else 16, a=A)
        if not chk.affordable(c):
            continue
        meta[cid] = {"pattern": org, "via": ["Pattern.standardize", "StandardizedPattern", "StandardizedPattern.to_pattern"][how]}
        cases.append(c)
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())))
    chk.assumptions.append("patterns with at most 6 nodes (compiled ones up to ~15), exhaustive up to 16 outcome branches; larger ones (8 to 20 measurements) on 4 sampled branches")
