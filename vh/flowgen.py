"""Open graphs, flows and their abstraction for Flow.tla."""
from __future__ import annotations

import itertools
import random

PLANES = ["XY", "XZ", "YZ"]
AXES = ["X", "Y", "Z"]


def meas_of(label: str, rng: random.Random, style: str):
    """style: 'abstract' (Plane/Axis enum members) or 'concrete' (Bloch/Pauli measurements)."""
    from graphix.fundamentals import Axis, Plane, Sign
    from graphix.measurements import BlochMeasurement, PauliMeasurement

    if label in PLANES:
        if style == "abstract":
            return Plane[label]
        return BlochMeasurement(rng.randrange(1, 4096) / 2048 + 1 / 4096 * 0, Plane[label])
    if style == "abstract":
        return Axis[label]
    return PauliMeasurement(Axis[label], rng.choice([Sign.PLUS, Sign.MINUS]))


class Spec:
    """A labelled open graph, independent of the implementation."""

    def __init__(self, nodes, edges, ins, outs, lab):
        self.nodes, self.edges, self.ins, self.outs, self.lab = list(nodes), list(edges), list(ins), list(outs), dict(lab)

    def base(self) -> dict:
        return {"V": self.nodes, "E": [list(e) for e in self.edges], "I": self.ins, "O": self.outs,
                "lab": [[n, l] for n, l in self.lab.items()]}

    def __repr__(self):
        return f"nodes={self.nodes} edges={self.edges} inputs={self.ins} outputs={self.outs} labels={self.lab}"

    def build(self, rng, style="abstract"):
        import networkx as nx
        from graphix.opengraph import OpenGraph

        g = nx.Graph()
        ns = list(self.nodes)
        rng.shuffle(ns)
        g.add_nodes_from(ns)
        es = [e if rng.random() < 0.5 else (e[1], e[0]) for e in self.edges]
        rng.shuffle(es)
        g.add_edges_from(es)
        ms = {n: meas_of(self.lab[n], rng, style) for n in ns if n in self.lab}
        return OpenGraph(g, list(self.ins), list(self.outs), ms)


def renamed(s: Spec, rng: random.Random) -> Spec:
    names = rng.sample(range(3 * len(s.nodes) + 3), len(s.nodes))
    m = dict(zip(s.nodes, names))
    return Spec([m[n] for n in s.nodes], [(m[a], m[b]) for a, b in s.edges], [m[n] for n in s.ins], [m[n] for n in s.outs],
                {m[n]: l for n, l in s.lab.items()})


def enumerate_specs(n: int, labels):
    """All open graphs on nodes 1..n (all edges, inputs, outputs, labels)."""
    nodes = list(range(1, n + 1))
    pairs = list(itertools.combinations(nodes, 2))
    for em in range(1 << len(pairs)):
        edges = [p for i, p in enumerate(pairs) if em >> i & 1]
        for im in range(1 << n):
            ins = [v for i, v in enumerate(nodes) if im >> i & 1]
            for labs in itertools.product([*labels, "out"], repeat=n):
                yield Spec(nodes, edges, ins, [v for v, l in zip(nodes, labs) if l == "out"],
                           {v: l for v, l in zip(nodes, labs) if l != "out"})


def random_spec(rng: random.Random, n: int, labels, *, density=None, n_in=None, n_out=None) -> Spec:
    nodes = list(range(1, n + 1))
    d = density if density is not None else rng.choice([0.25, 0.4, 0.55, 0.7])
    edges = [(a, b) for a, b in itertools.combinations(nodes, 2) if rng.random() < d]
    no = rng.randrange(0, max(1, n // 2) + 1) if n_out is None else n_out
    ni = rng.randrange(0, no + 1) if n_in is None else n_in
    if n_in is None and rng.random() < 0.05:
        ni = rng.randrange(0, n + 1)
    outs, ins = rng.sample(nodes, no), rng.sample(nodes, min(ni, n))
    pool = list(labels)
    w = [rng.choice([1, 1, 3]) for _ in pool]
    return Spec(nodes, edges, ins, outs, {v: rng.choices(pool, w)[0] for v in nodes if v not in outs})


def flowish_spec(rng: random.Random, n: int, labels, *, extra=2) -> Spec:
    """Open graphs built around correction structure, so that flows (of some depth) are likely."""
    # XY paths through time plus YZ/Z-like leaves plus extra outputs
    nodes = list(range(1, n + 1))
    w = rng.randrange(1, max(2, n // 2) + 1)
    ends = nodes[:w]
    ins = [v for v in ends if rng.random() < 0.6]
    edges = set()
    lab = {}
    for v in nodes[w:]:
        k = rng.random()
        if k < 0.65 or "YZ" not in labels:
            i = rng.randrange(len(ends))
            u = ends[i]
            edges.add((u, v))
            lab[u] = "XY"
            ends[i] = v
            for x in ends:
                if x != v and rng.random() < 0.3:
                    edges.add((min(x, v), max(x, v)))
        elif k < 0.85:
            lab[v] = rng.choice(["YZ", "YZ", "XZ"])
            for x in rng.sample(ends, rng.randrange(1, len(ends) + 1)):
                edges.add((x, v))
        else:
            ends.append(v)
            for x in ends[:-1]:
                if rng.random() < 0.5:
                    edges.add((x, v))
    for v in lab:
        r = rng.random()
        if r < 0.35 and ("X" in labels):
            lab[v] = {"XY": rng.choice(["X", "Y"]), "YZ": rng.choice(["Z", "Y"]), "XZ": rng.choice(["X", "Z"])}[lab[v]]
    for _ in range(rng.randrange(extra + 1)):
        a, b = rng.sample(nodes, 2) if n > 1 else (1, 1)
        if a != b:
            e = (min(a, b), max(a, b))
            edges.symmetric_difference_update({e})
    edges = {(min(e), max(e)) for e in edges}
    lab = {v: l for v, l in lab.items() if l in labels}
    outs = [v for v in nodes if v not in lab]
    rng.shuffle(outs)
    return Spec(nodes, sorted(edges), ins, outs, lab)


def grown_spec(rng: random.Random, n: int, kind: str, square: int = 0):
    """A larger open graph grown together with a flow: (spec, correction function, layers).

    Wires move forward in time; phase gadgets (labels YZ or Z) hang on the ends of the wires, and are corrected by themselves.
    """
    w = square or rng.randrange(1, 5)
    ends, nodes = list(range(1, w + 1)), list(range(1, w + 1))
    ins = [v for v in ends if square or rng.random() < 0.7]
    edges, lab, cor, pred = set(), {}, {}, {}
    e_rate = rng.choice([0.1, 0.3, 0.6])
    while len(nodes) < n:
        v = len(nodes) + 1
        nodes.append(v)
        r = rng.random()
        if kind != "c" and r < 0.25:
            lab[v] = rng.choice(["YZ", "YZ", "Z", "Y"]) if kind == "p" else "YZ"
            for x in rng.sample(ends, rng.randrange(1, len(ends) + 1)):
                edges.add((x, v))
            cor[v] = [v]
        elif r < 0.32 and not square:
            ends.append(v)
        else:
            i = rng.randrange(len(ends))
            u, ends[i] = ends[i], v
            edges.add((u, v))
            lab[u] = rng.choice(["XY", "XY", "X", "Y"]) if kind == "p" else "XY"
            cor[u] = [v]
            for x in ends:
                if x != v and rng.random() < e_rate:
                    edges.add((x, v))
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    outs = [v for v in nodes if v not in lab]
    # depth of a node: later than everything its correction touches
    layer = {v: 0 for v in outs}

    def depth(u):
        if u not in layer:
            touched = (set(cor[u]) | {x for c in cor[u] for x in adj[c]}) - {u}
            layer[u] = 1 + max((depth(x) for x in touched), default=0)
        return layer[u]

    top = max((depth(v) for v in nodes), default=0)
    layers = [[v for v in nodes if layer[v] == k] for k in range(0 if outs else 1, top + 1)]
    rng.shuffle(outs)
    return Spec(nodes, sorted((min(e), max(e)) for e in edges), ins, outs, lab), cor, layers


def cert_case(cid: str, rng: random.Random, kind: str, n: int):
    s, cor, layers = grown_spec(rng, n, kind)
    names = rng.sample(range(3 * n + 3), n)
    m = dict(zip(s.nodes, names))
    t = Spec([m[v] for v in s.nodes], [(m[a], m[b]) for a, b in s.edges], [m[v] for v in s.ins], [m[v] for v in s.outs], {m[v]: l for v, l in s.lab.items()})
    c = {"id": cid, "t": "cert", "kind": kind, "all": 0, "ok": 0, "f": [], "fl": [], "c": [[m[u], sorted(m[x] for x in xs)] for u, xs in cor.items()],
         "layers": [sorted(m[v] for v in l) for l in layers], **t.base()}
    return t, c


def cf_json(cf) -> list:
    return [[int(k), sorted(int(x) for x in v)] for k, v in cf.items()]


def layers_json(ls) -> list:
    return [sorted(int(x) for x in l) for l in ls]


NOREASON = {"why": "", "node": -1, "layer": -1}


def reason(e) -> dict:
    """The reported reason of a rejection."""
    r = dict(NOREASON)
    r["why"] = getattr(getattr(e, "reason", None), "name", type(e).__name__)
    if isinstance(getattr(e, "node", None), int):
        r["node"] = int(e.node)
    if isinstance(getattr(e, "layer_index", None), int):
        r["layer"] = int(e.layer_index)
    return r


def search_case(cid: str, s: Spec, kind: str, flow, all_orders: int = 0) -> dict:
    c = {"id": cid, "t": "search", "kind": kind, "all": all_orders, "ok": 0 if flow is None else 1, "c": [], "layers": [], **s.base()}
    if flow is not None:
        c["c"], c["layers"] = cf_json(flow.correction_function), layers_json(flow.partial_order_layers)
    return c
