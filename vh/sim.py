"""Exact simulator cases (spec/Sim.tla): abstraction of real objects, and reading of the behaviours TLC prints."""
from __future__ import annotations

import math
import random

import numpy as np

from . import dump
from .tlc import Result, TLCError, generate

ALPHA = 2 * math.atan(0.5) / math.pi    # in units of pi


def angle_of(k: int, j: int) -> float:
    return k * ALPHA + j / 2


_TABLE = {}
for _k in range(-2, 3):
    for _j in range(4):
        _TABLE[round((angle_of(_k, _j) % 2) * 1e9) % 2_000_000_000] = [_k, _j]


def ang(a) -> list[int]:
    """Float (units of pi) -> [k, j]; raises OffGrid."""
    key = round((float(a) % 2) * 1e9) % 2_000_000_000
    for d in (0, 1, -1):
        r = _TABLE.get((key + d) % 2_000_000_000)
        if r is not None:
            return r
    raise dump.OffGrid(repr(a))


def angle(rng: random.Random, generic: float = 0.6) -> float:
    if rng.random() < generic:
        return angle_of(rng.choice([-1, 1]), rng.randrange(-2, 4))
    return rng.choice([0.0, 0.5, 1.0, 1.5, -0.5, 0, 1])


def meas(m) -> tuple[str, list[int]]:
    from graphix.fundamentals import Axis, Sign
    from graphix.measurements import PauliMeasurement

    if isinstance(m, PauliMeasurement):
        neg = 2 if m.sign == Sign.MINUS else 0
        return {Axis.X: ("XY", [0, neg]), Axis.Y: ("XY", [0, 1 + neg]), Axis.Z: ("YZ", [0, neg])}[m.axis]
    return m.plane.name, ang(m.angle)


def state(st) -> list:
    """PlanarState -> [plane, k, j]."""
    return [st.plane.name, *ang(st.angle)]


def cliff(c) -> list[list[int]]:
    m = np.asarray(c.matrix, dtype=complex).reshape(-1)
    nz = [z for z in m if abs(z) > 1e-6]
    m = m / nz[0]
    r = [[round(z.real), round(z.imag)] for z in m]
    if max(abs(z - complex(*w)) for z, w in zip(m, r)) > 1e-6:
        raise dump.OffGrid(repr(c))
    return r


def command(cmd, fl: int = 0) -> dict:
    from graphix.command import CommandKind as K

    match cmd.kind:
        case K.N:
            return {"k": "N", "n": int(cmd.node), "st": state(cmd.state)}
        case K.E:
            return {"k": "E", "a": int(cmd.nodes[0]), "b": int(cmd.nodes[1])}
        case K.M:
            pl, a = meas(cmd.measurement)
            return {"k": "M", "n": int(cmd.node), "pl": pl, "a": a, "s": sorted(map(int, cmd.s_domain)), "t": sorted(map(int, cmd.t_domain)), "fl": fl}
        case K.X | K.Z:
            return {"k": cmd.kind.name, "n": int(cmd.node), "d": sorted(map(int, cmd.domain))}
        case K.C:
            return {"k": "C", "n": int(cmd.node), "m": cliff(cmd.clifford)}
        case K.T:
            return {"k": "T"}
        case _:
            raise dump.OffGrid(cmd.kind.name)


def circuit_cmds(c) -> list[dict]:
    from graphix.instruction import InstructionKind as K

    out = []
    for ins in c.instruction:
        k = ins.kind
        if k == K.M:
            pl, a = {"X": ("XY", [0, 0]), "Y": ("XY", [0, 1]), "Z": ("YZ", [0, 0])}[ins.axis.name]
            out.append({"k": "M", "n": int(ins.target), "pl": pl, "a": a, "s": [], "t": [], "fl": 0})
            continue
        a = ang(ins.angle) if hasattr(ins, "angle") else [0, 0]
        if k in (K.CNOT, K.RZZ):
            q = [ins.control, ins.target]
        elif k == K.CCX:
            q = [*ins.controls, ins.target]
        elif k in (K.SWAP, K.CZ):
            q = list(ins.targets)
        else:
            q = [ins.target]
        out.append({"k": "G", "g": k.name, "q": [int(x) for x in q], "a": a})
    return out


def case(cid: str, cmds: list[dict], outs, force=(), pos: int = 0) -> dict:
    return {"id": cid, "cmds": cmds, "outs": [int(x) for x in outs] if outs is not None else [-1], "force": [list(x) for x in force], "pos": pos}


def channel_weights(c: dict) -> list[int]:
    ch = c["ch"]
    if ch == "kraus":
        return [w * sum(a * a + b * b for a, b in m[::math.isqrt(len(m))]) for w, m in zip(c["w"], c["m"])]
    if ch == "pauli":
        return [c["den"] - c["px"] - c["py"] - c["pz"], c["px"], c["py"], c["pz"]]
    if ch in ("damp", "damp2"):
        if c["sn"] == 0:
            return [c["hy"] ** 2 if ch == "damp" else c["hy"] ** 4]
        return [c["cs"] ** 2, c["sn"] ** 2] if ch == "damp" else [c["cs"] ** 4, (c["cs"] * c["sn"]) ** 2, (c["cs"] * c["sn"]) ** 2, c["sn"] ** 4]
    num, den = c["num"], c["den"]
    single = [3 * (den - num), num, num, num]
    return {"deph": [den - num, num], "depol": single, "depol2": [15 * (den - num)] + [num] * 15,
            "depoltensor": [a * b for a in single for b in single]}[ch]


def gain(c: dict) -> float:
    """log2 bound on the growth of the squared norm caused by a command (before common factors are removed)."""
    def u2(a):
        return 5 ** abs(a[0]) * (2 if a[1] % 2 else 1)
    k = c["k"]
    if k == "N":
        return math.log2(u2(c["st"][1:]) * (2 if c["st"][0] == "XY" else 1))
    if k == "IN":
        return math.log2(sum(x * x for x in c["amp"]))
    if k == "G":
        return {"H": 1.0, "J": math.log2(2 * u2(c["a"])), "RX": math.log2(u2(c["a"])), "RY": math.log2(u2(c["a"])), "RZ": math.log2(u2(c["a"])),
                "RZZ": math.log2(u2(c["a"]))}.get(c["g"], 0.0)
    if k == "M":
        return math.log2(u2(c["a"]) * (2 if c["pl"] == "XY" else 1))
    if k == "C":
        return math.log2(sum(a * a + b * b for a, b in c["m"]) / 2)
    if k == "OP":
        d = 1 << len(c["q"])
        return math.log2(max(1, max(sum(a * a + b * b for a, b in c["m"][r * d:(r + 1) * d]) for r in range(d)) * d))
    if k == "CH":
        ws = channel_weights(c["c"])
        return math.log2(sum(ws) if c["c"]["ch"] in ("kraus", "damp", "damp2") else sum(ws) // math.gcd(*ws))
    return 0.0


def bits(cmds: list[dict]) -> float:
    """Bound on log2 of every integer met by the specification (it computes with 32-bit integers)."""
    tot, worst = 0.0, 0.0
    for c in cmds:
        g = gain(c)
        extra = 0.0
        if c["k"] == "EXP":
            extra = math.log2(max(1, sum(abs(a) + abs(b) for a, b in c["m"])))
        if c["k"] == "CH":
            extra = math.log2(sum(channel_weights(c["c"]))) - g
        if c["k"] == "FID":
            extra = math.log2(max(1, sum(x * x for x in c["amp"])))
        tot += g
        worst = max(worst, tot + extra)
    return worst


def noisy(c: dict) -> list[dict]:
    """The program of a case with noise models, for estimating its cost (the specification has its own definition)."""
    out = list(c["cmds"][:c["pre"]])
    prog = list(c["cmds"][c["pre"]:])

    def chan(m, q, p):
        return {"k": "CH", "q": q, "c": {**p, "ch": (("depol", "depol2") if m["kind"] == "depol" else ("damp", "damp2"))[len(q) - 1]}, "cond": 0, "d": []}

    for m in c["models"]:
        new = []
        for x in prog:
            q = [x["a"], x["b"]] if x["k"] == "E" else [x["n"]] if "n" in x else []
            if m["kind"] == "user":
                new += [{"k": "CH", "q": q, "c": r["c"], "cond": 0, "d": []} for r in m["rules"] if r["at"] == x["k"] + "-"]
                new.append(x)
                new += [{"k": "CH", "q": q, "c": r["c"], "cond": 0, "d": []} for r in m["rules"] if r["at"] == x["k"] + "+"]
            elif m["kind"] != "none" and x["k"] in ("N", "E", "M", "X", "Z"):
                n = chan(m, q, m[{"N": "prep", "E": "ent", "M": "mch", "X": "x", "Z": "z"}[x["k"]]])
                new += [n, x] if x["k"] == "M" else [x, n]
            else:
                new.append(x)
        prog = new
        out += [{"k": "CH", "q": [i], "c": r["c"], "cond": 0, "d": []} for i in c["ins"] for r in m.get("rules", []) if r["at"] == "I"]
        if m["kind"] in ("depol", "damp"):
            out += [chan(m, [i], m["prep"]) for i in c["ins"]]
    return out + prog


def work(c: dict) -> int:
    """Rough number of amplitude updates over all branches of a case."""
    n, b, tot, mem = 0, 1, 0, 1
    forced = {x for x, _ in c["force"]}
    for k in noisy(c) if "models" in c else c["cmds"]:
        if k["k"] == "N":
            n += 1
        elif k["k"] == "IN":
            n += len(k["ns"])
        elif k["k"] == "M":
            n -= 1
            b *= (1 if k["n"] in forced else 2) * (1 + k["fl"] % 2)
        elif k["k"] == "TR":
            n -= 1
            mem = min(mem * 2, 1 << n)
        elif k["k"] == "CH":
            mem = min(mem * sum(1 for w in channel_weights(k["c"]) if w), 1 << (2 * n + 2))
        tot += b * (mem << n) * (1 + 4 * (k["k"] in ("OP", "EXP", "CH")))
    return tot


def run(cases: list[dict], timeout: float = 800, coverage: bool = True) -> tuple[dict[str, list[dict]], Result]:
    """All behaviours of every case, as printed by the specification."""
    if not cases:
        return {}, Result()
    recs, res = generate("Sim", cases, timeout=timeout)
    out: dict[str, list[dict]] = {}
    for r in recs:
        if r.get("v") == "G":
            out.setdefault(r["id"], []).append(r)
    missing = [c["id"] for c in cases if c["id"] not in out]
    if missing:
        raise TLCError(f"Sim: no behaviour for {missing[:5]}")
    return out, res


def vectors(rec: dict) -> list[np.ndarray]:
    return [np.asarray(a, dtype=float).reshape(-1, 2) @ np.array([1, 1j]) for a in rec["amp"]]


def vec(rec: dict) -> np.ndarray:
    v, = vectors(rec)
    return v / np.linalg.norm(v)


def rho(rec: dict) -> np.ndarray:
    m = sum(w * np.outer(v, v.conj()) for w, v in zip(rec["w"], vectors(rec)))
    return m / np.trace(m).real


def same_vec(a, b, tol: float = 1e-8) -> bool:
    """Equal normalised vectors up to a global phase."""
    a, b = np.asarray(a, dtype=complex).reshape(-1), np.asarray(b, dtype=complex).reshape(-1)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    k = int(np.argmax(np.abs(b)))
    if abs(a[k]) < 1e-12:
        return False
    ph = (a[k] / abs(a[k])) / (b[k] / abs(b[k]))
    return bool(np.max(np.abs(a - ph * b)) < tol)


def flat(v: np.ndarray) -> list[int]:
    out = []
    for z in v:
        out += [int(z.real), int(z.imag)]
    return out


def random_vec(rng: random.Random, n: int, hi: int = 1) -> np.ndarray:
    """Random Gaussian-integer vector of n qubits (not null)."""
    while True:
        v = np.array([complex(rng.randint(-hi, hi), rng.randint(-hi, hi)) for _ in range(1 << n)])
        if np.linalg.norm(v) > 0:
            return v


def skewed_vec(rng: random.Random, n: int) -> np.ndarray:
    """Gaussian-integer vector with one dominating entry: some outcomes are rare (down to about 1e-7), none is impossible."""
    v = random_vec(rng, n)
    v[rng.randrange(len(v))] += rng.choice([1, 1j, -1]) * rng.choice([40, 300, 3000])
    return v


def projector(vec, b: int) -> np.ndarray:
    """(I + (-1)^b v.sigma) / 2."""
    x, y, z = vec
    sgn = 1 - 2 * b
    return np.array([[1 + sgn * z, sgn * (x - 1j * y)], [sgn * (x + 1j * y), 1 - sgn * z]], dtype=complex) / 2


def dangling(tn) -> dict:
    """Open index of each qubit of a tensor-network state: its attribute, whatever it is called."""
    d = getattr(tn, "_dangling", None)
    if d is None:
        outer = set(tn.outer_inds())
        d = next((v for v in vars(tn).values() if isinstance(v, dict) and set(v.values()) == outer), {})
    return d
