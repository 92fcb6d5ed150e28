"""P04: removal of Pauli measurements and of local Clifford commands."""
from __future__ import annotations

import random

from .. import dump, gen
from ..tlc import run_batch
from ..util import branches, case, observe, rel
from .p02 import refused

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC: every branch of each rewritten pattern must equal some branch of the original"
NOTE = ("Random patterns (all axes, signs, planes, inputs/outputs, preparation states) and compiled circuits after inference of Pauli measurements; TLC searches, for every "
        "branch of the rewritten pattern, an equal branch of the original. Compiled (deterministic) patterns are compared on all branches with uniform weight. "
        "Trusts TLC and the generator's reach.")


def leftover(q, special):
    """Removable Pauli-measured nodes still present (by the documented promise)."""
    from graphix.fundamentals import Axis
    from graphix.measurements import PauliMeasurement

    og_edges, ms = {}, {}
    for c in q:
        if c.kind.name == "E":
            a, b = c.nodes
            for x, y in ((a, b), (b, a)):
                og_edges.setdefault(x, set()).symmetric_difference_update({y})
        elif c.kind.name == "M":
            ms[c.node] = c.measurement
    bad = []
    for n, m in ms.items():
        if n in special or not isinstance(m, PauliMeasurement):
            continue
        if m.axis != Axis.X or (og_edges.get(n, set()) - special):
            bad.append(n)
    return bad


def run(chk):
    from graphix.command import CommandKind as K
    from graphix.states import BasicStates

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 67867967 + 4)
    n = 1100 if quick else 10000
    cases, meta = [], {}
    for i in range(n):
        det = i % 4 == 3
        lc = i % 5 == 4
        if det:
            p = gen.compiled_pattern(rng, rng.choice([1, 2, 2]), rng.randrange(1, 5), ccx=0)
        else:
            p = gen.small_pattern(rng, cliffords=0.5 if lc else rng.choice([0, 0, 0.15]), any_clifford=lc, pauli=0.4 if lc else rng.choice([0.5, 0.8, 1.0]),
                                  n_meas=rng.choice([2, 3, 3, 4, 5]), n_new=rng.choice([2, 3, 4, 5]), dom=rng.choice([0.2, 0.5]), e_rate=rng.choice([1, 2]),
                                  plus_only=rng.random() < 0.8)
        cid, raw = f"p{i}", repr(p)
        if det and lc:
            # local Cliffords appended to outputs keep the pattern deterministic
            from graphix import command
            from graphix.clifford import Clifford

            for o in p.output_nodes:
                p.add(command.C(o, Clifford(rng.randrange(24))))
            raw = repr(p)
        if not lc and refused(p):
            chk.skipped += 1
            continue
        how = "lc" if lc else rng.choice(["inplace", "copy", "standardize"])
        if not lc:
            p, err = observe(chk, cid, lambda: p.infer_pauli_measurements(copy=True), raw)
            if err:
                continue
        src = gen.rebuild(p)
        info = {"pattern": repr(p), "how": how}

        def op():
            if how == "lc":
                if rng.random() < 0.5:
                    src.remove_local_clifford_commands()
                    return src
                return src.remove_local_clifford_commands(copy=True)
            if how == "inplace":
                src.remove_pauli_measurements()
                return src
            return src.remove_pauli_measurements(copy=True, standardize=how == "standardize")

        q, err = observe(chk, cid, op, info)
        if err:
            continue
        info["result"] = repr(q)
        if how in ("copy", "standardize") and src != p:
            chk.violate(cid, "argument-modified", info)
        if list(q.input_nodes) != list(p.input_nodes) or len(q.output_nodes) != len(p.output_nodes):
            chk.violate(cid, "ports", info)
            continue
        A, B = dump.pattern(q), dump.pattern(p)
        if lc:
            if any(c["k"] == "C" for c in A["cmds"]):
                chk.violate(cid, "clifford-left", info)
        else:
            special = set(p.input_nodes) | {c.node for c in p if c.kind == K.N and c.state != BasicStates.PLUS}
            left = [x for x in leftover(q, special) if not det or x not in set(q.input_nodes)]
            if det:
                from graphix.measurements import PauliMeasurement

                left += [c.node for c in q if c.kind == K.M and c.node not in q.input_nodes and isinstance(c.measurement, PauliMeasurement)]
            # an X measurement left over may only touch inputs
            if left:
                chk.violate(cid, "removable-pauli-left", {**info, "nodes": left})
        if det:
            c = case(cid, A, B, [rel(x, ()) for x in dump.measured(B)], branches(rng, dump.measured(A), 16), nz=1)
        else:
            c = case(cid, A, B, [], branches(rng, dump.measured(A), 16), ex=1)
        if not chk.affordable(c):
            continue
        meta[cid] = info
        cases.append(c)
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())))
    chk.assumptions.append("patterns with at most ~7 nodes (compiled ones up to ~15); outcome branches exhaustive up to 16")
