"""P25: fusion-network decomposition reproduces the graph."""
from __future__ import annotations

import itertools
import random

import networkx as nx
import numpy as np

from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ machine (Fusion.tla) rebuilding the graph from the recorded resource states and fusions, checked by TLC; exhaustive over small graphs"
NOTE = ("All graphs of up to 5 vertices and random ones of up to 12 (dense, sparse, regular, grids, wheels, complete), with size limits from 2 to none; a call that does not answer within ten seconds is rejected.")


def graphs(rng, quick):
    for n in range(6):
        es = list(itertools.combinations(range(n), 2))
        for bits in itertools.product((0, 1), repeat=len(es)):
            yield f"all{n}", n, [e for e, b in zip(es, bits) if b]
    for n in range(5, 12):
        yield f"complete{n}", n, list(itertools.combinations(range(n), 2))
        yield f"cycle{n}", n, [(i, (i + 1) % n) for i in range(n)]
        yield f"wheel{n}", n, list(nx.wheel_graph(n).edges)
        yield f"bipartite{n}", n, list(nx.complete_bipartite_graph(n // 2, n - n // 2).edges)
    for _ in range(1500 if quick else 20000):
        n = rng.randrange(4, 13)
        kind = rng.random()
        if kind < 0.6:
            d = rng.choice([0.1, 0.25, 0.5, 0.8])
            yield "random", n, [e for e in itertools.combinations(range(n), 2) if rng.random() < d]
        elif kind < 0.75:
            d = rng.choice([2, 3, 4, 5])
            m = n + n % 2
            yield "regular", m, list(nx.random_regular_graph(min(d, m - 1), m, seed=rng.randrange(10**6)).edges)
        elif kind < 0.9:
            a, b = rng.randrange(1, 5), rng.randrange(1, 5)
            yield "grid", a * b, [(u[0] * b + u[1], v[0] * b + v[1]) for u, v in nx.grid_2d_graph(a, b).edges]
        else:
            yield "tree", n, [(i, rng.randrange(i)) for i in range(1, n)]


def run(chk):
    from graphix.extraction import fusion_nodes, graph_to_fusion_network

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 32452843 + 25)
    cases, meta = [], {}
    kinds = {}
    for i, (kind, n, es) in enumerate(graphs(rng, quick)):
        cid = f"g{i}"
        kinds[kind] = kinds.get(kind, 0) + 1
        names = rng.sample(range(3 * n + 1), n) if rng.random() < 0.5 else list(range(n))
        order = names[:]
        rng.shuffle(order)
        edges = [(names[a], names[b])[:: rng.choice([1, -1])] for a, b in es]
        rng.shuffle(edges)
        ghz, lin = (rng.choice([2, 3, 3, 4, 4, 5, 0]) for _ in range(2))
        kw = {}
        if ghz or rng.random() < 0.3:
            kw["max_ghz"] = ghz or np.inf
        if lin or rng.random() < 0.3:
            kw["max_lin"] = lin or np.inf
        g = nx.Graph()
        g.add_nodes_from(order)
        g.add_edges_from(edges)
        meta[cid] = {"kind": kind, "nodes": order, "edges": edges, "limits": str(kw)}

        def go():
            rs = graph_to_fusion_network(g, **kw)
            pairs = [(a, b) for a in range(len(rs)) for b in range(len(rs))] if len(rs) <= 12 else [(a, b) for a in range(len(rs)) for b in range(a, len(rs))]
            return rs, [{"a": a + 1, "b": b + 1, "nodes": [int(v) for v in fusion_nodes(rs[a], rs[b])]} for a, b in pairs]

        r, err = observe(chk, cid, go, meta[cid], seconds=10)
        if err is not None:
            continue
        rs, fs = r
        kept = set(g.nodes) == set(order) and {frozenset(e) for e in g.edges} == {frozenset(e) for e in edges}
        cases.append({"id": cid, "nodes": order, "edges": [list(e) for e in edges], "ghz": ghz, "lin": lin, "kept": int(kept), "fusions": fs,
                      "resources": [{"type": str(x.cltype), "nodes": [int(v) for v in x.graph.nodes], "edges": [[int(a), int(b)] for a, b in x.graph.edges]} for x in rs]})
    res = run_batch("Fusion", cases, coverage=True, timeout=800 if quick else 7000, chunk=4000)
    chk.absorb(res, cases, meta)
    chk.cov.update(graphs=len(cases), kinds=kinds, resources=sum(len(c["resources"]) for c in cases))
