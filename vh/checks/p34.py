"""P34: random generators produce what they announce."""
from __future__ import annotations

import random
import warnings

import numpy as np

from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ machine (Rand.tla): TLC judges recorded random matrices, states and Kraus lists by integer arithmetic, consumes recorded random circuits layer by layer, and compares runs with equal seeds"
NOTE = ("Matrices of dimension 1 to 4 (density matrices), 8 (unitaries, Kraus lists) in fixed point with four decimals; circuits of 1 to 6 qubits with every combination of options. "
        "The distributions themselves are not judged, except that every announced parametric gate must be reachable.")
JIT = False


def fx(m) -> list:
    m = np.atleast_2d(np.asarray(m, dtype=complex))
    return [np.rint(m.real * 10000).astype(int).tolist(), np.rint(m.imag * 10000).astype(int).tolist()]


def ins_of(c, names) -> list[dict]:
    out = []
    for ins in c.instruction:
        k = ins.kind.name
        if k in ("CNOT", "RZZ"):
            q = [ins.control, ins.target]
        elif k == "CCX":
            q = [*ins.controls, ins.target]
        elif k in ("SWAP", "CZ"):
            q = list(ins.targets)
        else:
            q = [ins.target]
        ang = getattr(ins, "angle", None)
        out.append({"g": k, "q": [int(x) for x in q], "p": names.get(id(ang), "")})
    return out


def run(chk):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(chk)


def _run(chk):
    import graphix.random_objects as ro
    from graphix.parameter import Placeholder

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 7001 + 34)
    cases, meta = [], {}
    stats: dict[str, int] = {}

    def add(cid, kind, origin, **kw):
        cases.append({"id": cid, "kind": kind, "dim": 0, "rank": 0, "mats": [], "props": [], "n": 0, "depth": 0, "ins": [], "pairs": [], "ent": "", "must": [], "may": [],
                      "reach": [], "a": "", "b": "", **kw})
        meta[cid] = {"origin": origin}
        stats[kind] = stats.get(kind, 0) + 1

    def twice(cid, fn, dump, origin):
        """fn(generator) called with equal seeds gives equal objects, whatever the global generators do; returns the first object."""
        seed = rng.randrange(2**32)
        first, err = observe(chk, cid, lambda: fn(np.random.default_rng(seed)), origin)
        if err is not None:
            return None
        np.random.seed(rng.randrange(2**31))
        random.seed(rng.randrange(2**31))
        second, err = observe(chk, cid, lambda: fn(np.random.default_rng(seed)), origin)
        if err is None:
            add(cid + "-again", "same", origin, a=str(dump(first)), b=str(dump(second)))
        return first

    def kraus(ch):
        return [complex(k.coef) * np.asarray(k.operator) for k in ch]

    for i in range(30 if quick else 400):
        d = rng.choice([1, 2, 2, 3, 4, 4])
        m = twice(f"h{i}", lambda g: ro.rand_herm(d, g), fx, {"rand_herm": d})
        if m is not None:
            add(f"h{i}", "mat", {"rand_herm": d}, dim=d, mats=[fx(m)], props=["herm"])
        d2 = rng.choice([1, 2, 3, 4, 6, 8])
        m = twice(f"u{i}", lambda g: ro.rand_unit(d2, g), fx, {"rand_unit": d2})
        if m is not None:
            add(f"u{i}", "mat", {"rand_unit": d2}, dim=d2, mats=[fx(m)], props=["unit"])
        r = rng.choice([None, *range(1, d + 1)])
        m = twice(f"d{i}", lambda g: ro.rand_dm(d, g, rank=r), fx, {"rand_dm": d, "rank": r})
        if m is not None:
            add(f"d{i}", "mat", {"rand_dm": d, "rank": r}, dim=d, rank=r or d, mats=[fx(m)], props=["herm", "trace", "psd"])
        n = rng.randrange(0, 6)
        v = twice(f"v{i}", lambda g: ro.rand_state_vector(n, g), fx, {"rand_state_vector": n})
        if v is not None:
            add(f"v{i}", "vec", {"rand_state_vector": n}, dim=2**n, mats=[fx(v)])
        dk = rng.choice([2, 2, 4])
        rk = rng.choice([None, 1, 2, 3, dk * dk, rng.randrange(1, dk * dk + 1)])
        sig = rng.choice([None, "ginibre", 0.3])
        ch = twice(f"k{i}", lambda g: ro.rand_channel_kraus(dk, g, rank=rk, sig=sig), lambda c: [fx(x) for x in kraus(c)], {"rand_channel_kraus": dk, "rank": rk, "sig": sig})
        if ch is not None:
            add(f"k{i}", "kraus", {"rand_channel_kraus": dk, "rank": rk, "sig": sig}, dim=dk, rank=rk or dk * dk, mats=[fx(x) for x in kraus(ch)])
        rp = rng.choice([None, 1, 2, 4, rng.randrange(1, dk * dk + 1)])
        ch = twice(f"p{i}", lambda g: ro.rand_pauli_channel_kraus(dk, g, rank=rp), lambda c: [fx(x) for x in kraus(c)], {"rand_pauli_channel_kraus": dk, "rank": rp})
        if ch is not None:
            add(f"p{i}", "kraus", {"rand_pauli_channel_kraus": dk, "rank": rp}, dim=dk, rank=rp or dk * dk, mats=[fx(x) for x in kraus(ch)], props=["pauli"])

    for i in range(60 if quick else 800):
        n, depth = rng.randrange(1, 7), rng.randrange(1, 6)
        pairs = [tuple(rng.sample(range(n), 2)) for _ in range(rng.randrange(0, 4))] if n > 1 else []
        rzz, lazy = rng.random() < 0.5, rng.random() < 0.4
        origin = {"rand_gate": [n, depth], "pairs": str(pairs), "use_rzz": rzz, "pairs given as": "iterator" if lazy else "list"}
        c = twice(f"g{i}", lambda g: ro.rand_gate(n, depth, iter(pairs) if lazy else pairs, g, use_rzz=rzz), lambda c: c.instruction, origin)
        if c is not None:
            if c.width != n:
                chk.violate(f"g{i}", "width", origin)
            add(f"g{i}", "gate", origin, n=n, depth=depth, ins=ins_of(c, {}), pairs=[list(p) for p in pairs], ent="RZZ" if rzz else "CNOT")
    for i in range(80 if quick else 1000):
        n, depth = rng.randrange(1, 7), rng.randrange(0, 6)
        kw = {k: rng.random() < 0.5 for k in ("use_j", "use_cz", "use_rzz", "use_ccx") if rng.random() < 0.8}
        if n < 3:
            kw["use_ccx"] = False
        on = {"use_j": True, "use_cz": True, "use_rzz": False, "use_ccx": False, **kw}
        params = [Placeholder(f"a{j}") for j in range(rng.randrange(0, 4))]
        names = {id(p): p.name for p in params}
        form = rng.choice(["none", "list", "iterator"])
        if form == "none":
            params = []
        elif rng.random() < 0.3:
            depth = 60        # every announced gate has a chance
        origin = {"rand_circuit": [n, depth], **kw, "parameters": f"{len(params)} as {form}"}
        give = {"none": lambda: {}, "list": lambda: {"parameters": list(params)}, "iterator": lambda: {"parameters": iter(params)}}[form]
        c = twice(f"c{i}", lambda g: ro.rand_circuit(n, depth, g, **kw, **give()), lambda c: c.instruction, origin)
        if c is None:
            continue
        if c.width != n:
            chk.violate(f"c{i}", "width", origin)
        two = ["CNOT", "SWAP"] if n > 1 else []
        extra = ([k for k, o in (("CZ", "use_cz"), ("RZZ", "use_rzz")) if on[o]] if n > 1 else []) + (["CCX"] if on["use_ccx"] else [])
        may = two + extra + ["RX", "RY", "RZ", "H", "S", "X", "Y", "Z"] + (["J"] if on["use_j"] else [])
        reach = [[g, p.name] for g in ("RX", "RY", "RZ") for p in params] if depth * n >= 240 else []
        add(f"c{i}", "circ", origin, n=n, depth=depth, ins=ins_of(c, names), must=extra, may=may, reach=reach)
    res = run_batch("Rand", cases, timeout=600, coverage=True, chunk=None if quick else 2500)
    chk.absorb(res, cases, meta)
    chk.cov.update(objects=len(cases), **{f"objects_{k}": v for k, v in stats.items()})
