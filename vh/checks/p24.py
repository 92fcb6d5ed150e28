"""P24: the graph-state simulator tracks the state exactly."""
from __future__ import annotations

import itertools
import random

import numpy as np

from .. import sim
from .. import simrun as sr
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification GraphSim.tla: exact stabiliser vectors; TLC checks every recorded operation of the real graph-state simulator, with a snapshot after each step, from every decorated graph up to 3 nodes and along random histories"
NOTE = ("Every operation on every decorated graph with at most 3 nodes (so every history on them, by induction over steps), a sample of those with 4 and 5 nodes, and random histories with insertions, "
        "equivalences, Clifford operators and measurements; outcomes, snapshots, to_statevector and extract_vops are compared exactly.")
JIT = False


def ints(v):
    v = np.asarray(v, dtype=complex).reshape(-1)
    k = next(i for i, z in enumerate(v) if abs(z) > 1e-6)
    w = v / v[k]
    r = np.round(w.real) + 1j * np.round(w.imag)
    if np.max(np.abs(w - r)) > 1e-6:        # not a stabiliser state: the specification rejects it
        r = np.round(100 * w.real) + 1j * np.round(100 * w.imag)
    return [x for z in r for x in (int(z.real), int(z.imag))]


def snap(g, full=True):
    order = [int(x) for x in g.nodes]
    s = {"order": order, "edges": [[int(a), int(b)] for a, b in g.edges], "sign": [], "loop": [], "hollow": [], "alone": [int(x) for x in g.isolated_nodes()]}
    for n in g.nodes:
        for k in ("sign", "loop", "hollow"):
            s[k].append(int(g.nodes[n][k]))
    if full:
        s["vec"] = ints(g.to_statevector().flatten()) if order else [1, 0]
        v = g.extract_vops()
        s["vops"] = [sim.cliff(v[n]) for n in g.nodes]
    return s


def perform(g, op, rng):
    """Apply one operation to the real object; returns (object, recorded step)."""
    k = op["op"]
    rec = {x: y for x, y in op.items() if not x.startswith("_")}
    if k in ("h", "s", "z"):
        getattr(g, k)(op["n"])
    elif k == "e1":
        g.equivalent_graph_e1(op["n"])
    elif k == "lc":
        g.local_complement(op["n"])
    elif k == "e2":
        g.equivalent_graph_e2(op["n"], op["m"])
    elif k == "fill":
        rec["res"] = int(g.equivalent_fill_node(op["n"]))
    elif k in ("mx", "my", "mz"):
        f = getattr(g, "measure_" + k[1])
        r = f(op["n"]) if op["choice"] == 0 and rng.random() < 0.3 else f(op["n"], choice=op["choice"]) if rng.random() < 0.5 else f(op["n"], op["choice"])
        rec["res"] = int(r)
    elif k == "vops":
        g.apply_vops(op["_v"])
    elif k == "add":
        if len(op["ns"]) == 1 and rng.random() < 0.5:
            g.add_node(op["ns"][0])
        else:
            g.add_nodes_from(op["ns"])
    elif k == "copy":
        old, g = g, g.copy()
        for n in list(old.nodes)[:2]:       # the copy is independent of the original
            old.h(n)
            old.s(n)
        if len(old.nodes) > 2:
            old.measure_z(next(iter(old.nodes)))
    rec["snap"] = snap(g, rng.random() < 0.5 or k not in ("h", "s", "z"))
    return g, rec


def build(nodes, edges, deco):
    from graphix import GraphState

    g = GraphState()
    g.add_nodes_from([(n, {"sign": bool(d & 1), "loop": bool(d & 2), "hollow": bool(d & 4)}) for n, d in zip(nodes, deco)])
    g.add_edges_from(edges)
    return g


DECO = {}


def deco_matrix(d):
    if not DECO:
        z, s, h = np.diag([1, -1]).astype(complex), np.diag([1, 1j]), np.array([[1, 1], [1, -1]], dtype=complex)
        for x in range(8):
            m = np.eye(2, dtype=complex)
            for bit, u in ((1, z), (2, s), (4, h)):
                if x & bit:
                    m = u @ m
            DECO[x] = sr.ints(m)
            DECO[x] = [list(y) for y in DECO[x]]
    return DECO[d]


def one_step(nodes, edges, deco, ops):
    for op in ops:
        n = nodes[0]
        if op == "e1" and not deco[0] & 2:
            continue
        if op[0] == "m":
            for b in (0, 1):
                yield {"op": op, "n": n, "choice": b}
        elif op == "e2":
            for m in nodes[1:]:
                if ((n, m) in edges or (m, n) in edges) and not deco[0] & 2 and not deco[nodes.index(m)] & 2:
                    yield {"op": "e2", "n": n, "m": m}
                    yield {"op": "e2", "n": m, "m": n}
        else:
            yield {"op": op, "n": n}


OPS = ["h", "s", "z", "lc", "e1", "e2", "fill", "mx", "my", "mz"]


def run(chk):
    from graphix import GraphState
    from graphix.clifford import Clifford

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 15485863 + 24)
    cases, meta = [], {}

    def record(nodes, edges, deco, op):
        cid = f"s{len(cases)}-{op['op']}"
        org = {"nodes": nodes, "edges": edges, "decorations": deco, "operation": op}

        def go():
            g = build(nodes, edges, deco)
            s0 = snap(g)
            return s0, perform(g, op, rng)[1]

        got, _ = observe(chk, cid, go, org)
        if got is None:
            return
        cases.append({"id": cid, "nodes": nodes, "edges": [list(e) for e in edges], "vn": nodes, "vm": [deco_matrix(d) for d in deco], "snap": got[0], "steps": [got[1]]})
        meta[cid] = org

    # every decorated graph with up to 3 nodes; operations act on the first node (nodes are interchangeable)
    for n in (1, 2, 3):
        pairs = list(itertools.combinations(range(n), 2))
        for mask in range(1 << len(pairs)):
            for deco in itertools.product(range(8), repeat=n):
                names = rng.sample(range(12), n)
                es = [(names[a], names[b]) if rng.random() < 0.5 else (names[b], names[a]) for i, (a, b) in enumerate(pairs) if mask >> i & 1]
                rng.shuffle(es)
                ops = list(one_step(names, es, deco, OPS))
                if n == 3 and quick:        # the sign of a third node only changes signs: half of them per run
                    ops = rng.sample(ops, min(len(ops), 3))
                for op in ops:
                    record(names, es, list(deco), op)
    for _ in range(1500 if quick else 40000):
        n = rng.choice([4, 4, 5])
        names = rng.sample(range(12), n)
        es = [(a, b) for a, b in itertools.combinations(names, 2) if rng.random() < 0.6]
        deco = [rng.randrange(8) for _ in range(n)]
        ops = list(one_step(names, es, deco, OPS))
        record(names, es, deco, rng.choice(ops))

    # a node of high degree
    for _ in range(120 if quick else 3000):
        n = rng.choice([6, 6, 7])
        names = rng.sample(range(12), n)
        es = [(a, b) for a, b in itertools.combinations(names, 2) if rng.random() < (0.92 if a == names[0] else 0.4)]
        rng.shuffle(es)
        deco = [rng.randrange(8) for _ in range(n)]
        ops = list(one_step(names, es, deco, OPS[2:]))
        record(names, es, deco, rng.choice(ops))

    # histories
    for i in range(500 if quick else 10000):
        n = rng.choice([1, 2, 3, 4, 4, 5])
        names = rng.sample(range(30), n)
        fresh = [x for x in range(30, 40)]
        es = [(a, b) for a, b in itertools.combinations(names, 2) if rng.random() < 0.5]
        v = {x: Clifford(rng.randrange(24)) for x in names if rng.random() < 0.4} if rng.random() < 0.6 else None
        cid, steps = f"h{i}", []
        org = {"nodes": names, "edges": es, "vops": repr(v), "steps": steps}

        def go():
            g = GraphState(nodes=names, edges=es, vops=v) if v is not None or rng.random() < 0.5 else GraphState(names, es)
            s0 = snap(g)
            out = []
            for _ in range(rng.randrange(1, 14)):
                live = [int(x) for x in g.nodes]
                acts = ["add"] if len(live) < 5 else []
                if live:
                    acts += ["h", "s", "s", "z", "vops", "fill", "copy", "lc"] + (["mx", "my", "mz"] if len(live) > 1 or rng.random() < 0.3 else [])
                    loops = [x for x in live if g.nodes[x]["loop"]]
                    good = [(a, b) for a, b in g.edges if not g.nodes[a]["loop"] and not g.nodes[b]["loop"]]
                    acts += ["e1"] * (2 * bool(loops)) + ["e2"] * (2 * bool(good))
                a = rng.choice(acts)
                op = {"op": a, "n": rng.choice(live) if live else 0}
                wild = (a in ("e1", "e2") or a[0] == "m") and len(live) > 1 and rng.random() < 0.15
                if wild:        # possibly not applicable
                    op["n"], op["m"] = rng.sample(live, 2)
                    op["choice"] = rng.choice([0, 1, 2, -1])
                elif a == "e1":
                    op["n"] = rng.choice(loops)
                elif a == "e2":
                    x, y = rng.choice(good)
                    op["n"], op["m"] = (int(x), int(y)) if rng.random() < 0.5 else (int(y), int(x))
                elif a[0] == "m":
                    op["choice"] = rng.randrange(2)
                elif a == "vops":
                    op["_v"] = {x: Clifford(rng.randrange(24)) for x in rng.sample(live, rng.randrange(1, len(live) + 1))}
                    op["ns"] = list(op["_v"])
                    op["ms"] = [sim.cliff(c) for c in op["_v"].values()]
                elif a == "add":
                    op["ns"] = [fresh.pop() for _ in range(rng.randrange(1, 3)) if fresh and len(live) < 5][: 6 - len(live)]
                    if not op["ns"]:
                        continue
                steps.append({k: repr(x) if k == "_v" else x for k, x in op.items() if k != "ms"})
                try:
                    g, rec = perform(g, op, rng)
                except Exception:  # noqa: BLE001
                    if not wild:
                        raise
                    rec = {**op, "op": "refused", "what": a, "snap": snap(g)}
                out.append(rec)
            return s0, out

        got, _ = observe(chk, cid, go, org)
        if got is None:
            continue
        cases.append({"id": cid, "nodes": names, "edges": [list(e) for e in es], "vn": list(v or {}), "vm": [sim.cliff(c) for c in (v or {}).values()], "snap": got[0], "steps": got[1]})
        meta[cid] = org
    res = run_batch("GraphSim", cases, coverage=True, timeout=800 if quick else 7000, chunk=20000)
    chk.absorb(res, cases, meta)
    chk.cov = {"operations": sum(len(c["steps"]) for c in cases), "decided_by": "GraphSim.tla accepts or rejects every recorded step"}
