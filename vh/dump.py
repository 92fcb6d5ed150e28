"""Abstraction: real graphix objects -> programs of the abstract machine (plain JSON)."""
from __future__ import annotations

import math

import numpy as np

GRID = 4096  # angles are multiples of pi/4096 in the specification


class OffGrid(Exception):
    pass


def grid(angle) -> int:
    """Angle in units of pi -> even grid integer."""
    if isinstance(angle, bool) or not isinstance(angle, (int, float, np.floating, np.integer)):
        raise OffGrid(f"symbolic angle {angle!r}")
    x = float(angle) * GRID
    if not math.isfinite(x):
        raise OffGrid(str(angle))
    k = round(x)
    if abs(x - k) > 1e-5 or k % 2:
        raise OffGrid(repr(angle))
    return int(((k + GRID) % (2 * GRID)) - GRID)


def meas(m) -> tuple[str, int]:
    """Measurement -> (plane, grid angle); a Pauli measurement is a special angle of a plane."""
    from graphix.fundamentals import Axis, Sign
    from graphix.measurements import PauliMeasurement

    if isinstance(m, PauliMeasurement):
        neg = GRID if m.sign == Sign.MINUS else 0
        if m.axis == Axis.X:
            return "XY", neg
        if m.axis == Axis.Y:
            return "XY", GRID // 2 if not neg else -(GRID // 2)
        return "YZ", neg
    return m.plane.name, grid(m.angle)


def clifford_matrix(c) -> list[list[int]]:
    """Matrix of a Clifford gate, normalised so that its first nonzero entry is positive."""
    mat = np.asarray(c.matrix, dtype=complex).reshape(-1)
    nz = [z for z in mat if abs(z) > 1e-6]
    ph = nz[0] / abs(nz[0])
    mat = mat / ph
    four = len(nz) == 4
    r = []
    for z in mat:
        w = z * (math.sqrt(2) if four else 1.0)
        re, im = round(w.real), round(w.imag)
        if abs(w - complex(re, im)) > 1e-6:
            raise OffGrid(f"non-Clifford matrix {c!r}")
        s = 64 if four else 1
        r.append([(s * re) % 8191, (s * im) % 8191])
    return r


def state_name(st) -> str:
    from graphix.states import BasicStates

    for n in ("PLUS", "MINUS", "ZERO", "ONE", "PLUS_I", "MINUS_I"):
        if st == getattr(BasicStates, n):
            return n
    return "OTHER"


def command(cmd) -> dict:
    from graphix.command import CommandKind as K

    match cmd.kind:
        case K.N:
            return {"k": "N", "n": int(cmd.node), "st": state_name(cmd.state)}
        case K.E:
            a, b = cmd.nodes
            return {"k": "E", "a": int(a), "b": int(b)}
        case K.M:
            try:
                pl, a = meas(cmd.measurement)
            except OffGrid:
                pl, a = "OFFGRID", 0
            return {"k": "M", "n": int(cmd.node), "pl": pl, "a": a, "s": sorted(map(int, cmd.s_domain)), "t": sorted(map(int, cmd.t_domain))}
        case K.X:
            return {"k": "X", "n": int(cmd.node), "d": sorted(map(int, cmd.domain))}
        case K.Z:
            return {"k": "Z", "n": int(cmd.node), "d": sorted(map(int, cmd.domain))}
        case K.C:
            return {"k": "C", "n": int(cmd.node), "m": clifford_matrix(cmd.clifford)}
        case _:
            return {"k": cmd.kind.name, "n": -1}


def _finish(prog: dict, sched: bool = True) -> dict:
    prog["sched"] = schedule(prog) if sched else []
    return prog


def pattern(p, sched: bool = True) -> dict:
    return _finish({"inputs": [int(n) for n in p.input_nodes], "outputs": [int(n) for n in p.output_nodes],
                    "cmds": [command(c) for c in p]}, sched)


def std_pattern(sp, sched: bool = True) -> dict:
    """A StandardizedPattern, read field by field."""
    from graphix import command as gc

    cmds = [command(c) for c in sp.n_list]
    cmds += [{"k": "E", "a": int(min(e)), "b": int(max(e))} for e in sorted(map(sorted, sp.e_set))]
    cmds += [command(c) for c in sp.m_list]
    cmds += [{"k": "Z", "n": int(n), "d": sorted(map(int, d))} for n, d in sp.z_dict.items()]
    cmds += [{"k": "X", "n": int(n), "d": sorted(map(int, d))} for n, d in sp.x_dict.items()]
    cmds += [{"k": "C", "n": int(n), "m": clifford_matrix(c)} for n, c in sp.c_dict.items()]
    return _finish({"inputs": [int(n) for n in sp.input_nodes], "outputs": [int(n) for n in sp.output_nodes], "cmds": cmds}, sched)


def circuit(c, sched: bool = False) -> dict:
    from graphix.instruction import InstructionKind as K

    cmds, measured = [], []
    for ins in c.instruction:
        k = ins.kind
        if k == K.M:
            pl, a = {"X": ("XY", 0), "Y": ("XY", GRID // 2), "Z": ("YZ", 0)}[ins.axis.name]
            cmds.append({"k": "M", "n": int(ins.target), "pl": pl, "a": a, "s": [], "t": []})
            measured.append(int(ins.target))
            continue
        try:
            a = grid(ins.angle) if hasattr(ins, "angle") else 0
            name = k.name
        except OffGrid:
            a, name = 0, "OFFGRID"
        if k in (K.CNOT, K.RZZ):
            q = [ins.control, ins.target]
        elif k == K.CCX:
            q = [*ins.controls, ins.target]
        elif k in (K.SWAP, K.CZ):
            q = list(ins.targets)
        else:
            q = [ins.target]
        cmds.append({"k": "G", "g": name, "q": [int(x) for x in q], "a": a})
    outs = [q for q in range(c.width) if q not in measured]
    return _finish({"inputs": list(range(c.width)), "outputs": outs, "cmds": cmds}, sched), measured


def opengraph(og, zero_branch: bool = True) -> dict:
    """The open graph as a program: prepare, entangle, project every measured node (no corrections)."""
    ins = [int(n) for n in og.input_nodes]
    cmds = [{"k": "N", "n": int(n), "st": "PLUS"} for n in og.graph.nodes if n not in set(og.input_nodes)]
    cmds += [{"k": "E", "a": int(a), "b": int(b)} for a, b in og.graph.edges]
    for n, m in og.measurements.items():
        try:
            pl, a = meas(m)
        except OffGrid:
            pl, a = "OFFGRID", 0
        cmds.append({"k": "M", "n": int(n), "pl": pl, "a": a, "s": [], "t": []})
    cmds += [{"k": "C", "n": int(n), "m": clifford_matrix(c)} for n, c in og.output_cliffords.items()]
    return _finish({"inputs": ins, "outputs": [int(n) for n in og.output_nodes], "cmds": cmds})


def _nodes(c: dict) -> set[int]:
    if c["k"] == "E":
        return {c["a"], c["b"]}
    if c["k"] == "G":
        return set(c["q"])
    return {c["n"]}


def _uses(c: dict) -> set[int]:
    if c["k"] == "M":
        return set(c["s"]) | set(c["t"])
    if c["k"] in "XZ":
        return set(c["d"])
    return set()


def schedule(prog: dict) -> list[int]:
    """An order with few simultaneously live nodes (validated by the specification, 1-based)."""
    cmds = prog["cmds"]
    n = len(cmds)
    last: dict[int, list[int]] = {}
    pred: list[set[int]] = []
    meas_at: dict[int, int] = {}
    ns = [_nodes(c) for c in cmds]
    us = [_uses(c) for c in cmds]
    for i, c in enumerate(cmds):
        p = set()
        for j in range(i):
            d = cmds[j]
            if ns[i] & ns[j] and not (c["k"] == "E" and d["k"] == "E"):
                p.add(j)
            elif (d["k"] == "M" and d["n"] in us[i]) or (c["k"] == "M" and c["n"] in us[j]):
                p.add(j)
        pred.append(p)
    # transitive cones as bit masks
    cone = [0] * n
    for i in range(n):
        m = 1 << i
        for j in pred[i]:
            m |= cone[j]
        cone[i] = m
    # E/E pairs may commute in either order, so cones are valid for any linearisation of pred
    done = 0
    order: list[int] = []

    def emit(mask: int) -> None:
        nonlocal done
        for i in range(n):
            if mask >> i & 1 and not done >> i & 1:
                order.append(i + 1)
                done |= 1 << i

    ms = [i for i in range(n) if cmds[i]["k"] == "M"]
    nmask = sum(1 << i for i in range(n) if cmds[i]["k"] == "N")
    mmask = sum(1 << i for i in range(n) if cmds[i]["k"] == "M")
    while ms:
        def cost(i: int) -> tuple[int, int]:
            new = cone[i] & ~done
            return ((new & nmask).bit_count() - (new & mmask).bit_count(), i)
        i = min(ms, key=cost)
        emit(cone[i])
        ms = [j for j in ms if not done >> j & 1]
    emit((1 << n) - 1)
    return order


def max_live(prog: dict) -> int:
    live = len(prog["inputs"])
    best = live
    sched = prog["sched"] or range(1, len(prog["cmds"]) + 1)
    for i in sched:
        k = prog["cmds"][i - 1]["k"]
        if k == "N":
            live += 1
        elif k == "M":
            live -= 1
        best = max(best, live)
    return best + len(prog["inputs"])


def cost(prog: dict) -> int:
    """Amplitudes touched by one straight-line run."""
    live = 2 * len(prog["inputs"])
    tot = 0
    for i in prog["sched"] or range(1, len(prog["cmds"]) + 1):
        k = prog["cmds"][i - 1]["k"]
        live += (k == "N") - (k == "M")
        tot += 1 << live
    return tot


def case_cost(c: dict) -> int:
    """Amplitudes touched by all branches of a case (shared prefixes counted once per branch)."""
    ms = measured(c["A"])
    tied = {r["n"] for r in c["rel"]}
    free_b = sum(1 for n in measured(c["B"]) if n not in tied)
    tot = 0
    for br in c["brs"]:
        na = 1 << (len(ms) - len({n for n, _ in br} & set(ms)))
        tot += na * (cost(c["A"]) + cost(c["B"]) * (1 << free_b))
    return tot


def measured(prog: dict) -> list[int]:
    return [c["n"] for c in prog["cmds"] if c["k"] == "M"]
