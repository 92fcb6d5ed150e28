"""P05: Pauli pushing."""
from __future__ import annotations

import random

from .. import dump, gen
from ..tlc import run_batch
from ..util import observe, rel
from .p02 import pair, refused, structure

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC on each recorded (pattern, pushed pattern, shifted domains), all branches"
NOTE = ("Random runnable patterns with all axes, signs, planes and domains, with and without nodes kept in place; TLC runs the pushed pattern on every branch and the "
        "original on the outcomes related by the shifted domains, comparing maps exactly; independence and precedence of Pauli measurements are checked on the result. "
        "Trusts TLC and the generator's reach.")


def run(chk):
    from graphix.measurements import PauliMeasurement
    from graphix.optimization import StandardizedPattern
    from graphix.remove_pauli_measurements import PauliPushingCut

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 49979687 + 5)
    n = 1200 if quick else 12000
    cases, meta = [], {}
    for i in range(n):
        if large := i % 25 == 11:
            p = gen.large_pattern(rng)
        elif i % 8 == 7:
            p = gen.compiled_pattern(rng, rng.choice([1, 2]), rng.randrange(1, 5), ccx=0)
        else:
            p = gen.small_pattern(rng, cliffords=rng.choice([0, 0, 0.15]), pauli=rng.choice([0.5, 0.8]), n_meas=rng.choice([2, 3, 4]), dom=rng.choice([0.3, 0.6]),
                                  plus_only=rng.random() < 0.7)
        if refused(p):
            chk.skipped += 1
            continue
        cid, raw = f"p{i}", repr(p)
        if i % 8 == 7 or rng.random() < 0.5:
            p, err = observe(chk, cid, lambda: p.infer_pauli_measurements(copy=True), raw)
            if err:
                continue
        std, err = observe(chk, cid, lambda: StandardizedPattern.from_pattern(gen.rebuild(p)), raw)
        if err:
            continue
        before = {m.node: m.measurement for m in std.m_list}
        paulis = [k for k, m in before.items() if isinstance(m, PauliMeasurement)]
        leave = set(rng.sample(paulis, rng.randrange(0, len(paulis) + 1))) if rng.random() < 0.3 else set()
        how = rng.choice(["inplace", "copy", "standardize", "cut", "std"])
        src = gen.rebuild(p)
        kw = {"leave_nodes": leave} if leave or rng.random() < 0.5 else {}
        info = {"pattern": repr(p), "leave": sorted(leave), "how": how}
        cut, err = observe(chk, cid, lambda: PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(gen.rebuild(p)), leave), info)
        if err:
            continue

        def op():
            if how == "inplace":
                src.perform_pauli_pushing(**kw)
                return src
            if how == "copy":
                return src.perform_pauli_pushing(copy=True, **kw)
            if how == "standardize":
                return src.perform_pauli_pushing(copy=True, standardize=True, **kw)
            if how == "cut":
                return cut.to_standardizedpattern().to_pattern()
            return StandardizedPattern.from_pattern(src).perform_pauli_pushing(leave).to_pattern()

        q, err = observe(chk, cid, op, info)
        if err:
            continue
        info["result"] = repr(q)
        if how not in ("inplace",) and src != p:
            chk.violate(cid, "argument-modified", info)
        A, B = dump.pattern(q), dump.pattern(p)
        if not structure(chk, cid, p, q, info):
            continue
        ms = [c for c in q if c.kind.name == "M"]
        if {c.node: c.measurement for c in ms} != before:
            chk.violate(cid, "measurements-changed", info)
            continue
        seen_other = False
        for c in ms:
            moved = isinstance(c.measurement, PauliMeasurement) and c.node not in leave
            if moved and (seen_other or c.s_domain or c.t_domain):
                chk.violate(cid, "pauli-not-first-or-dependent", info)
                break
            seen_other |= not moved
        # outcomes of the original pattern are those of the pushed one, shifted
        rels = [rel(c["n"], {c["n"]} ^ set(cut.shifted_domains.get(c["n"], ()))) for c in B["cmds"] if c["k"] == "M"]
        if set(cut.shifted_domains) - set(paulis) or set(cut.shifted_domains) & leave:
            chk.violate(cid, "shifted-non-pauli", info)
        c = pair(cid, p, q, rng, 4 if large else 16, a=A, b=B, rels=rels)
        if not chk.affordable(c):
            continue
        info["shifted"] = {k: sorted(v) for k, v in cut.shifted_domains.items()}
        meta[cid] = info
        cases.append(c)
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())))
    chk.assumptions.append("patterns with at most 6 nodes (compiled ones up to ~15), exhaustive up to 16 outcome branches; larger ones (8 to 20 measurements) on 4 sampled branches")
