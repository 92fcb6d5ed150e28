"""Replay of the behaviours of spec/Sim.tla into the real simulators (shared by the back-end checks)."""
from __future__ import annotations

import contextlib
import random

import numpy as np

from . import dump, gen, sim


def make_script(outcomes: dict, lazy=frozenset()):
    """A branch selector that follows a script and records the probabilities it is offered."""
    from graphix.branch_selector import BranchSelector

    class Script(BranchSelector):
        def __init__(self):
            self.outcomes, self.seen = dict(outcomes), []

        def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
            p = None if qubit in lazy else f_expectation0()
            self.seen.append((int(qubit), p))
            return self.outcomes[int(qubit)]

    return Script()


def prep_state(rng: random.Random):
    from graphix.fundamentals import Plane
    from graphix.states import BasicStates, PlanarState

    if rng.random() < 0.35:
        return rng.choice(BasicStates.VEC)
    return PlanarState(rng.choice(list(Plane)), sim.angle(rng, 0.8))


def mlog(rec: dict) -> list:
    return [e for e in rec["log"] if e[0] == "M"]


def inputs(rng: random.Random, ins: list[int], mixed: bool = False):
    """Input data for the real code, the commands preparing it in the specification, and a description."""
    from graphix.sim.statevec import Statevector

    n = len(ins)
    r = rng.random()
    if r < 0.2:
        return None, [{"k": "N", "n": q, "st": ["XY", 0, 0]} for q in ins], "default"
    if r < 0.4:
        st = prep_state(rng)
        return st, [{"k": "N", "n": q, "st": sim.state(st)} for q in ins], f"one {st!r}"
    if r < 0.65:
        sts = [prep_state(rng) for _ in ins]
        return (sts if rng.random() < 0.7 else iter(sts)) if n else sts, [{"k": "N", "n": q, "st": sim.state(s)} for q, s in zip(ins, sts)], f"states {sts!r}"
    v = sim.skewed_vec(rng, n) if n and rng.random() < 0.25 else sim.random_vec(rng, n)
    u = v / np.linalg.norm(v)
    cmds = [{"k": "IN", "ns": list(ins), "amp": sim.flat(v)}]
    if mixed and r > 0.85:
        return np.outer(u, u.conj()), cmds, f"matrix of {v!r}"
    if r < 0.8:
        return (list(u) if rng.random() < 0.5 else u), cmds, f"amplitudes {v!r}"
    return Statevector(u, max_qubits=n + rng.randrange(3)), cmds, f"statevector {v!r}"


def draw_pattern(rng: random.Random, **kw):
    from graphix import Pattern

    if rng.random() < 0.02:
        return Pattern(input_nodes=rng.sample(range(9), rng.randrange(0, 3)))
    n_in, n_new = rng.choice([0, 1, 1, 2, 2, 3]), rng.choice([0, 1, 2, 3, 3])
    args = {"n_in": n_in, "n_new": n_new, "n_meas": rng.randrange(0, min(4, n_in + n_new) + 1), "extra": rng.randrange(0, 6),
            "dom": rng.choice([0.2, 0.5, 0.8]), "max_live": 4, "pauli": rng.choice([0.2, 0.5]), "ang": lambda r: sim.angle(r, 0.7),
            "prep": prep_state if rng.random() < 0.6 else None, "any_clifford": rng.random() < 0.5}
    args.update(kw)
    return gen.pattern(rng, **args)


def wire_pattern(rng: random.Random, w: int, d: int):
    """A compiled circuit over the exact angles."""
    p = gen.circuit(rng, w, d, ccx=0, ang=lambda r: sim.angle(r, 0.5)).transpile().pattern
    return p


@contextlib.contextmanager
def quiet():
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def close_probs(seen: list, rec: dict, tol: float = 1e-8) -> str | None:
    log = mlog(rec)
    if [q for q, _ in seen] != [e[1] for e in log]:
        return f"measured {[q for q, _ in seen]}, expected {[e[1] for e in log]}"
    for (q, p), e in zip(seen, log):
        exp = e[4] / (e[4] + e[5])
        if p is not None and not abs(p - exp) < tol:
            return f"node {q}: probability of outcome 0 is {p}, expected {exp} = {e[4]}/{e[4] + e[5]}"
    return None


# ---- operators with Gaussian-integer entries
def gmatrix(rng):
    """Gaussian-integer single-qubit matrix proportional to a unitary."""
    i = 1j
    m = np.eye(2, dtype=complex)
    for _ in range(rng.randrange(1, 3)):
        m = m @ rng.choice([np.array([[1, 1], [1, -1]]), np.array([[1, 0], [0, i]]), np.array([[0, 1], [1, 0]]), np.array([[0, -i], [i, 0]]), np.array([[2 + i, 0], [0, 2 - i]]),
                            np.array([[2, 1], [-1, 2]]), np.array([[2, i], [i, 2]])])
    return m


def gmatrixn(rng, k):
    """Gaussian-integer matrix on k qubits proportional to a unitary: a phased permutation with one dense factor."""
    d = 1 << k
    perm = rng.sample(range(d), d)
    m = np.zeros((d, d), dtype=complex)
    for a, b in enumerate(perm):
        m[a, b] = rng.choice([1, -1, 1j, -1j])
    if rng.random() < 0.7:
        h = np.array([[1, 1], [1, -1]]) if rng.random() < 0.5 else np.array([[2, 1], [-1, 2]])
        f = [np.eye(2)] * k
        f[rng.randrange(k)] = h
        t = np.eye(1)
        for x in f:
            t = np.kron(t, x)
        m = m @ t
    return m


def unit(m):
    return m / np.sqrt(abs(np.vdot(m[0], m[0])))


def ints(m):
    return [[int(round(z.real)), int(round(z.imag))] for z in np.asarray(m, dtype=complex).reshape(-1)]


def public(cmds):
    return [{k: v for k, v in c.items() if not k.startswith("_")} for c in cmds]


def measured_order(rec):
    return [e[2] for e in mlog(rec)]


def random_mixed(rng: random.Random, n: int, extra: int):
    """A mixed state of n qubits as the reduced state of a Gaussian-integer vector of n + extra qubits."""
    v = sim.random_vec(rng, n + extra)
    t = (v / np.linalg.norm(v)).reshape(1 << n, 1 << extra)
    return v, t @ t.conj().T


PYTH = [(3, 4, 5), (4, 3, 5), (1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13)]


def named_channel(rng: random.Random, k: int):
    """A documented channel with its parameters: (specification record, function name, arguments)."""
    num, den = rng.choice([(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 3), (2, 5), (1, 8)])
    cs, sn, hy = rng.choice(PYTH)
    pr = {"num": num, "den": den}
    if k == 1:
        px, py, pz, d = rng.choice([(0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 2), (0, 0, 1, 3), (1, 1, 1, 4), (1, 2, 3, 8), (3, 1, 0, 4), (0, 2, 1, 5), (1, 1, 1, 3)])
        return rng.choice([({"ch": "deph", **pr}, "dephasing_channel", (num / den,)), ({"ch": "depol", **pr}, "depolarising_channel", (num / den,)),
                           ({"ch": "pauli", "px": px, "py": py, "pz": pz, "den": d}, "pauli_channel", (px / d, py / d, pz / d)),
                           ({"ch": "damp", "cs": cs, "sn": sn, "hy": hy}, "amplitude_damping_channel", ((sn / hy) ** 2,))])
    return rng.choice([({"ch": "depol2", **pr}, "two_qubit_depolarising_channel", (num / den,)), ({"ch": "depoltensor", **pr}, "two_qubit_depolarising_tensor_channel", (num / den,)),
                       ({"ch": "damp2", "cs": cs, "sn": sn, "hy": hy}, "two_qubit_amplitude_damping_channel", ((sn / hy) ** 2,))])


def kraus_ops(rng: random.Random, k: int):
    """Weights and Gaussian-integer operators of a trace-preserving map on k qubits (common factor N): (w, ops, N)."""
    if rng.random() < 0.5:
        m = rng.randrange(1, min(4, 4 ** k) + 1)
        ops = [gmatrixn(rng, k) if k > 1 else gmatrix(rng) for _ in range(m)]
        w = [rng.randrange(1, 4) for _ in ops]
    else:
        u, v = gmatrixn(rng, k), gmatrixn(rng, k)
        cs, sn, hy = rng.choice(PYTH)
        d = [np.array([[hy, 0], [0, cs]]), np.array([[0, sn], [0, 0]])] if rng.random() < 0.5 else [np.diag([1, 0]), np.diag([0, 1])]
        d = [x for x in d if np.any(x)]
        ext = [x.astype(complex) for x in d]
        for _ in range(k - 1):
            ext = [np.kron(x, np.eye(2)) for x in ext] if rng.random() < 0.6 else [np.kron(x, y) for x in ext for y in d]
        ops = [u @ x @ v for x in ext]
        w = [1] * len(ops)
    t = sum(a * (o.conj().T @ o) for a, o in zip(w, ops))
    n = round(t[0, 0].real)
    assert np.allclose(t, n * np.eye(1 << k))
    return w, ops, n


def custom_channel(rng: random.Random, k: int):
    """A channel given by operators: (specification record, list of (coefficient, operator))."""
    w, ops, n = kraus_ops(rng, k)
    data = []
    for a, o in zip(w, ops):
        f = rng.choice([1.0, 2.0, 0.5]) if rng.random() < 0.5 else 1.0
        data.append((complex(np.sqrt(a / n) / f) * rng.choice([1, 1, 1j, -1, np.exp(0.7j)]), o * f))
    return {"ch": "kraus", "w": w, "m": [ints(o) for o in ops]}, data
