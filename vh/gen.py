"""Seeded generators of inputs for the implementation."""
from __future__ import annotations

import random

SPECIAL = [0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, -0.25, -0.5, -0.75, -1.0, 2.0, -1.5, 2.5]


def angle(rng: random.Random, pauli: float = 0.3) -> float:
    r = rng.random()
    if r < pauli:
        return rng.choice([0.0, 0.5, 1.0, 1.5, -0.5])
    if r < pauli + 0.35:
        return rng.choice(SPECIAL)
    k = rng.randrange(-2048, 4096)
    if k % 7 == 3:  # the same angle, some turns away
        k += 4096 * (k // 7 % 7 - 3)
    return k / 2048


G1 = ["h", "s", "x", "y", "z", "i"]
GR = ["rx", "ry", "rz", "j"]
G2 = ["cnot", "cz", "swap"]


def circuit(rng: random.Random, width: int, depth: int, *, ccx: float = 0.05, measure: float = 0.0, swap: float = 0.0,
            kinds: list[str] | None = None, ang=None):
    from graphix import Circuit
    from graphix.fundamentals import Axis

    ang = ang or angle
    c = Circuit(width)
    active = list(range(width))
    pool = kinds or (G1 + 2 * GR + ["cnot", "cnot", "cz", "cz", "rzz", "swap"])
    for _ in range(depth):
        if not active:
            break
        if measure and rng.random() < measure and len(active) > 1:
            q = rng.choice(active)
            c.m(q, rng.choice([Axis.X, Axis.Y, Axis.Z]))
            active.remove(q)
            continue
        if ccx and len(active) >= 3 and rng.random() < ccx:
            c.ccx(*rng.sample(active, 3))
            continue
        if swap and len(active) >= 2 and rng.random() < swap:
            c.swap(*rng.sample(active, 2))
            continue
        k = rng.choice(pool)
        if k in ("cnot", "cz", "swap", "rzz"):
            if len(active) < 2:
                continue
            a, b = rng.sample(active, 2)
            if k == "rzz":
                c.rzz(a, b, ang(rng))
            else:
                getattr(c, k)(a, b)
        elif k in GR:
            getattr(c, k)(rng.choice(active), ang(rng))
        else:
            getattr(c, k)(rng.choice(active))
    return c


def each_gate():
    """One circuit per gate kind (and per angle class), followed by a gate that would reveal truncation."""
    from graphix import Circuit
    from graphix.fundamentals import Axis

    for k in G1:
        c = Circuit(1)
        c.rx(0, 0.25)
        getattr(c, k)(0)
        c.rz(0, 0.375)
        yield f"g-{k}", c
    for k in GR:
        for i, a in enumerate([0.0, 0.125, 0.5, 1.0, -0.75, 1.375, 2.25, 1, 0, -1, 5.25, -4.625, 5, -7]):
            c = Circuit(1)
            c.h(0)
            getattr(c, k)(0, a)
            c.rx(0, 0.3125)
            yield f"g-{k}-{i}", c
    for k in ("cnot", "cz", "swap"):
        for ab in ((0, 1), (1, 0), (0, 2), (2, 1)):
            c = Circuit(3)
            c.rx(0, 0.25)
            c.ry(1, 0.125)
            c.rz(2, 0.75)
            getattr(c, k)(*ab)
            c.ry(ab[0], 0.625)
            yield f"g-{k}-{ab[0]}{ab[1]}", c
    for ab in ((0, 1), (1, 0)):
        for i, a in enumerate([0.25, -0.5, 1.125]):
            c = Circuit(2)
            c.rzz(*ab, a)
            c.rx(0, 0.25)
            yield f"g-rzz-{ab[0]}{i}", c
    for abc in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
        c = Circuit(3)
        c.ccx(*abc)
        yield f"g-ccx-{abc[0]}{abc[1]}{abc[2]}", c
    for ax in (Axis.X, Axis.Y, Axis.Z):
        for q in (0, 1):
            c = Circuit(2)
            c.ry(0, 0.375)
            c.cnot(0, 1)
            c.rx(1, 0.25)
            c.m(q, ax)
            c.ry(1 - q, 0.125)
            yield f"g-m-{ax.name}{q}", c
    c = Circuit(3)
    c.ry(0, 0.25)
    c.swap(0, 2)
    c.cnot(2, 1)
    c.m(2, Axis.Z)
    c.swap(0, 1)
    c.m(1, Axis.X)
    yield "g-swap-m", c
    for mid, ab in ((1, (0, 2)), (0, (1, 2)), (2, (1, 0))):
        c = Circuit(3)
        for q in range(3):
            c.ry(q, 0.25 + 0.375 * q)
        c.cnot(0, 1)
        c.cnot(1, 2)
        c.m(mid, Axis.Z)
        c.swap(*ab)
        c.rz(ab[1], 0.3125)
        c.swap(*ab)
        c.rx(ab[1], 0.625)
        c.m(ab[0], Axis.X)
        yield f"g-m-swap-{mid}", c
    c = Circuit(4)
    for q in range(4):
        c.ry(q, 0.25 + 0.375 * q)
    c.cz(0, 2)
    c.cz(1, 3)
    c.m(1, Axis.Y)
    c.swap(0, 3)
    c.m(2, Axis.Z)
    c.swap(3, 0)
    c.cnot(0, 3)
    c.swap(0, 3)
    yield "g-m2-swap", c
    c = Circuit(2)
    yield "g-empty", c
    c = Circuit(2)
    c.cz(0, 1)
    c.cz(1, 0)
    c.cz(0, 1)
    c.h(0)
    c.cz(0, 1)
    c.cz(0, 1)
    yield "g-czcz", c


# ---------------------------------------------------------------- patterns
def measurement(rng: random.Random, pauli: float = 0.4, planes=("XY", "XZ", "YZ"), ang=None):
    from graphix.fundamentals import Axis, Plane, Sign
    from graphix.measurements import BlochMeasurement, PauliMeasurement

    if rng.random() < pauli:
        return PauliMeasurement(rng.choice([Axis.X, Axis.Y, Axis.Z]), rng.choice([Sign.PLUS, Sign.MINUS]))
    return BlochMeasurement((ang or (lambda r: angle(r, 0.1)))(rng), Plane[rng.choice(planes)])


def subset(rng: random.Random, items, p: float = 0.4) -> set:
    return {x for x in items if rng.random() < p}


CLIFF_E = [0, 1, 2, 3, 4, 5, 9, 10]  # Cliffords that commute with CZ up to Paulis


def pattern(rng: random.Random, *, n_in: int = 1, n_new: int = 4, n_meas: int = 3, extra: int = 6, cliffords: float = 0.1,
            any_clifford: bool = False, pauli: float = 0.4, plus_only: bool = True, planes=("XY", "XZ", "YZ"), dom: float = 0.4,
            max_live: int = 6, names: str = "mixed", e_rate: float = 1.0, ang=None, prep=None):
    """A random runnable pattern (not necessarily deterministic) with arbitrarily interleaved commands."""
    from graphix import Pattern, command
    from graphix.clifford import Clifford
    from graphix.states import BasicStates

    total = n_in + n_new
    pool = list(range(total)) if names == "plain" or (names == "mixed" and rng.random() < 0.3) else rng.sample(range(3 * total + 2), total)
    ins, news = pool[:n_in], pool[n_in:]
    sts = [BasicStates.PLUS] if plus_only else [BasicStates.PLUS, BasicStates.MINUS, BasicStates.ZERO, BasicStates.ONE,
                                                BasicStates.PLUS_I, BasicStates.MINUS_I]
    p = Pattern(input_nodes=ins)
    live, done = list(ins), []
    todo_n, todo_m, todo_x = list(news), n_meas, extra + int(e_rate * total)
    while todo_n or todo_m or todo_x:
        acts = []
        if todo_n and len(live) < max_live:
            acts += ["N"] * 3
        if todo_m and live and (not todo_n or len(live) >= 2) and not (todo_n and len(live) < 2):
            acts += ["M"] * 2
        if todo_x and live:
            acts += ["E"] * int(4 * e_rate + 0.5) + ["X", "Z"] + ["C"] * (1 if rng.random() < cliffords * 6 else 0)
        if not acts:
            if todo_n:
                acts = ["M"] if live else ["N"]
            else:
                break
        a = rng.choice(acts)
        if a == "N":
            n = todo_n.pop(0)
            st = prep(rng) if prep else rng.choice(sts)
            p.add(command.N(n) if st == BasicStates.PLUS and rng.random() < 0.5 else command.N(n, st))
            live.append(n)
        elif a == "M":
            n = live.pop(rng.randrange(len(live)))
            p.add(command.M(n, measurement(rng, pauli, planes, ang), subset(rng, done, dom), subset(rng, done, dom)))
            done.append(n)
            todo_m = max(0, todo_m - 1)
        elif a == "E":
            todo_x -= 1
            if len(live) >= 2:
                u, v = rng.sample(live, 2)
                p.add(command.E((u, v)))
        elif a == "X":
            todo_x -= 1
            p.add(command.X(rng.choice(live), subset(rng, done, dom)))
        elif a == "Z":
            todo_x -= 1
            p.add(command.Z(rng.choice(live), subset(rng, done, dom)))
        else:
            todo_x -= 1
            p.add(command.C(rng.choice(live), Clifford(rng.randrange(24) if any_clifford or rng.random() < 0.25 else rng.choice(CLIFF_E))))
    outs = list(p.output_nodes)
    rng.shuffle(outs)
    p.reorder_output_nodes(outs)
    return p


def small_pattern(rng: random.Random, **kw):
    n_in = rng.choice([0, 1, 1, 1, 2])
    n_new = rng.choice([1, 2, 3, 3, 4])
    n_meas = rng.randrange(0, min(4, n_in + n_new) + 1)
    kw = {"n_in": n_in, "n_new": n_new, "n_meas": n_meas, "extra": rng.randrange(0, 7), "dom": rng.choice([0.2, 0.5, 0.8]),
          "max_live": 5 if n_in < 2 else 4, **kw}
    if rng.random() < 0.05:  # few qubits at a time, but large domains
        n_in = rng.choice([0, 1, 2, 3])
        kw |= {"n_in": n_in, "n_new": 7 - n_in, "n_meas": 6, "dom": 0.9, "max_live": 3, "extra": rng.randrange(2, 9)}
    elif rng.random() < 0.04:
        kw |= {"n_in": 3, "max_live": 4}
    return pattern(rng, **kw)


def compiled_pattern(rng: random.Random, w: int = 2, d: int = 4, **kw):
    """A deterministic pattern: a compiled circuit, with its preparations interleaved."""
    return circuit(rng, w, d, **kw).transpile().pattern


def large_pattern(rng: random.Random):
    """A pattern with about eight to fourteen measurements and few qubits alive at a time."""
    if rng.random() < 0.5:
        return compiled_pattern(rng, rng.choice([1, 2, 2]), rng.randrange(4, 9), ccx=0)
    n_in = rng.choice([0, 1, 2])
    return pattern(rng, n_in=n_in, n_new=rng.randrange(8, 13) - n_in, n_meas=rng.randrange(8, 11), extra=rng.randrange(0, 14), dom=rng.choice([0.15, 0.3, 0.6]),
                   max_live=4, e_rate=rng.choice([0.6, 1.0]), cliffords=rng.choice([0, 0.1]), plus_only=rng.random() < 0.7)


def rebuild(p):
    """A structurally equal pattern that shares no mutable object with p."""
    import copy as _copy

    return _copy.deepcopy(p)
