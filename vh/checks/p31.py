"""P31: Circuit.simulate implements the gate semantics."""
from __future__ import annotations

import dataclasses
import random

import numpy as np

from .. import gen, sim
from .. import simrun as sr
from ..util import observe
from . import p18

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification Sim.tla: TLC enumerates every measurement branch of each circuit with exact probabilities and states, and Circuit.simulate replays it on both dense back ends"
NOTE = ("Random circuits over every gate kind (angles k*alpha + j*pi/2, alpha irrational), with mid-circuit measurements, arbitrary input states, on the state-vector and density-matrix back ends given by name or as objects. A share of the behaviours is simulated with symbolic angles (an expression class of this framework with complex arithmetic, as a plugin would provide) on the symbolic density-matrix back end; the parameters are then substituted and the result compared the same way.")
JIT = False
TOL = 1e-8


def replay(chk, rng, cid, c, data, rec, org):
    from .. import symbolic
    from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
    from graphix.sim.statevec import Statevector, StatevectorBackend

    log = sr.mlog(rec)
    outcomes = {e[1]: e[2] for e in log}
    x = data()
    is_dm = isinstance(x, DensityMatrix) or (isinstance(x, (list, np.ndarray)) and len(x) and np.ndim(x[0]) == 1)
    way = rng.choice(["dm", "dmobj"]) if is_dm else rng.choice(["default", "sv", "svobj", "svcap", "dm", "dmobj"])
    before = x.rho.copy() if isinstance(x, DensityMatrix) else x.flatten().copy() if isinstance(x, Statevector) else np.array(x) if isinstance(x, np.ndarray) else None
    ang = None
    if way == "dmobj":
        c, ang = symbolic.sometimes(cid, outcomes, symbolic.circuit, c, 0.5)
    sel = sr.make_script(outcomes, set(outcomes) if ang else frozenset())
    was = list(map(repr, c.instruction))

    def go():
        res = run_it()
        if ang:
            res = dataclasses.replace(res, state=ang.substitute(res.state))
        return res

    def run_it():
        kw = {} if x is None else {"input_state": x}
        g = np.random.default_rng(3)
        if way == "default":
            return c.simulate(branch_selector=sel, **kw)
        if way in ("sv", "dm"):
            return c.simulate("statevector" if way == "sv" else "densitymatrix", branch_selector=sel, rng=g, **kw)
        be = DensityMatrixBackend(branch_selector=sel, symbolic=ang is not None) if way == "dmobj" else StatevectorBackend(branch_selector=sel) if way == "svobj" else StatevectorBackend.with_capacity(
            c.width + rng.randrange(3), branch_selector=sel)
        return c.simulate(be, rng=g, **kw)

    got, _ = observe(chk, cid, go, org)
    if got is None:
        return False
    why = sr.close_probs(sel.seen, rec)
    if why:
        chk.violate(cid, "probability", {"origin": org, "why": why, "behaviour": rec, "way": way})
        return False
    if tuple(got.classical_measures) != tuple(e[2] for e in log):
        chk.violate(cid, "reported-outcomes", {"origin": org, "got": got.classical_measures, "expected": [e[2] for e in log]})
        return False
    st = got.state
    ok = p18.close(st.rho, sim.rho(rec)) if isinstance(st, DensityMatrix) else sim.same_vec(st.flatten(), sim.vec(rec), TOL)
    if not ok:
        chk.violate(cid, "state", {"origin": org, "got": repr(st.rho if isinstance(st, DensityMatrix) else st.flatten()), "behaviour": rec, "way": way})
        return False
    after = x.rho if isinstance(x, DensityMatrix) else x.flatten() if isinstance(x, Statevector) else x
    if before is not None and not np.array_equal(before, after):
        chk.violate(cid, "input-altered", {"origin": org, "got": repr(after), "expected": repr(before), "way": way})
        return False
    if was != list(map(repr, c.instruction)):
        chk.violate(cid, "circuit-altered", {"origin": org, "got": list(map(repr, c.instruction)), "expected": was})
        return False
    return True


def run(chk):
    from graphix import Circuit

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 86028121 + 31)
    cases, todo = [], {}

    def add(name, c, plain=False):
        w = c.width
        if plain:
            data, pre, desc = (lambda: None), [{"k": "N", "n": q, "st": ["XY", 0, 0]} for q in range(w)], "default"
        else:
            data, pre, desc = p18.dm_inputs(rng, list(range(w)))
        cs = sim.case(name, pre + sim.circuit_cmds(c), None)
        if sim.bits(cs["cmds"]) > 29 or sim.work(cs) > 40_000:
            chk.skipped += 1
            return
        cases.append(cs)
        todo[name] = (c, data, {"circuit": repr(c), "input": desc})

    # every gate kind with every angle class, on every ordered choice of qubits of a 3-qubit register, on entangled inputs
    angs = [sim.angle_of(k, j) for k in (-1, 0, 1) for j in range(4)] + [0, 1, -1, 2]
    n = 0
    for g in gen.G1 + gen.GR:
        for q in range(2):
            for a in angs if g in gen.GR else [None]:
                c = Circuit(2)
                getattr(c, g)(q, *([] if a is None else [a]))
                add(f"one-{n}", c)
                n += 1
    for g in ("cnot", "cz", "swap", "rzz"):
        for x in range(3):
            for y in range(3):
                if x != y:
                    for a in (angs[::3] if g == "rzz" else [None]):
                        c = Circuit(3)
                        getattr(c, g)(x, y, *([] if a is None else [a]))
                        add(f"two-{n}", c)
                        n += 1
    for t in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        c = Circuit(3)
        c.ccx(*t)
        add(f"three-{n}", c)
        n += 1
    for i in range(400 if quick else 8000):
        w = rng.choice([0, 1, 2, 2, 3, 3, 4]) if i % 40 == 0 else rng.choice([1, 2, 2, 3, 3, 4])
        add(f"c{i}", gen.circuit(rng, w, rng.randrange(0, 12), ccx=0.1, measure=rng.choice([0, 0.15, 0.35]), ang=lambda r: sim.angle(r, 0.4)), plain=rng.random() < 0.2)
    recs, res = sim.run(cases)
    chk.states += res.states
    chk.distinct += res.distinct
    chk.actions.update(res.coverage)
    m = 0
    for cid, rs in recs.items():
        c, data, org = todo[cid]
        if len(chk.samples) < 12 and cid[0] == "c":
            chk.samples.append({"case": cid, **org, "behaviours": len(rs)})
        for rec in rs if len(rs) <= 16 else rng.sample(rs, 16):
            m += 1
            if not replay(chk, rng, cid, c, data, rec, org):
                break
    chk.traces += m
    chk.cov = {"circuits": len(cases), "behaviours_replayed": m, "decided_by": "Sim.tla behaviours enumerated by TLC, replayed"}
