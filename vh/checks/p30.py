"""P30: reported pattern metrics describe the pattern's execution."""
from __future__ import annotations

import random
import warnings

import numpy as np

from .. import gen
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ machine (Metrics.tla) executing the command sequence, measuring itself and propagating byproducts to find the true dependencies; TLC compares every report recorded from the code and searches all other schedules for a smaller space"
NOTE = ("Random and compiled patterns after random in-place rewriting histories; every report is recomputed by the machine: counts, space over time, graph, degrees, layers and depth, standard form, command dictionaries, index allocation, "
        "and optimality of the space claimed optimal (exhaustive over the schedules of the generated pattern).")


def clifford_action(c):
    """<< xx, xz, zx, zz >>: the Clifford maps X to X^xx Z^xz and Z to X^zx Z^zz, up to phase."""
    m = np.asarray(c.matrix, dtype=complex)
    paulis = {(1, 0): np.array([[0, 1], [1, 0]]), (0, 1): np.diag([1, -1]), (1, 1): np.array([[0, -1j], [1j, 0]])}
    out = []
    for p in ((1, 0), (0, 1)):
        r = m @ paulis[p] @ m.conj().T
        out += next(list(k) for k, q in paulis.items() if abs(abs(np.trace(r.conj().T @ q)) - 2) < 1e-6)
    return out


def wire(p):
    from graphix.states import BasicStates

    cmds = []
    for c in p:
        k = c.kind.name
        r = {"k": k, "r": repr(c)}
        match k:
            case "E":
                r["n"], r["m"] = map(int, c.nodes)
            case "M":
                r["n"], r["s"], r["t"] = int(c.node), sorted(map(int, c.s_domain)), sorted(map(int, c.t_domain))
            case "C":
                r["n"], r["c"] = int(c.node), clifford_action(c.clifford)
                r["r"] = str(c.clifford)
            case "X" | "Z":
                r["n"], r["d"] = int(c.node), sorted(map(int, c.domain))
            case _:
                r["n"], r["plus"] = int(c.node), int(c.state == BasicStates.PLUS)
        cmds.append(r)
    return cmds


def rewrite(rng, p, trace):
    """One random in-place rewriting operation; returns the pattern to go on with."""
    k = rng.choice([0.25, 0.5])
    shift = rng.choice([1, 3])
    outs, ins = p.output_nodes, p.input_nodes
    ops = {
        "standardize": p.standardize,
        "shift-direct": lambda: p.shift_signals(method="direct"),
        "shift-mc": lambda: (p.standardize(), p.shift_signals(method="mc")),
        "minimize": p.minimize_space,
        "minimize-order": lambda: p.minimize_space([]),
        "parallelize": p.parallelize_pattern,
        "push": p.perform_pauli_pushing,
        "no-pauli": p.remove_pauli_measurements,
        "no-clifford": p.remove_local_clifford_commands,
        "infer": p.infer_pauli_measurements,
        "blochify": p.blochify,
        "reindex": lambda: p.reindex(lambda n: n + shift),
        "reindex-default": lambda: p.reindex(),
        "remove-inputs": p.remove_input_nodes,
        "outputs": lambda: p.reorder_output_nodes(rng.sample(outs, len(outs))),
        "inputs": lambda: p.reorder_input_nodes(rng.sample(ins, len(ins))),
        "apply": lambda: p.apply(lambda m: m.to_bloch()),
        "extend": lambda: extend(rng, p),
        "add": lambda: extend(rng, p, 1),
        "clear-replace": lambda: p.replace(list(p), p.input_nodes),
    }
    new = {
        "copy": p.copy,
        "compose": lambda: p.compose(q := gen.small_pattern(rng, cliffords=0.0), dict(zip(q.input_nodes, p.output_nodes)))[0],
        "rebuild": lambda: type(p)(input_nodes=p.input_nodes, cmds=list(p), output_nodes=p.output_nodes),
        "map": lambda: p.map(lambda m: m.to_bloch()),
        "reindex-copy": lambda: p.reindex(lambda n: 2 * n + 1, copy=True),
        "no-pauli-copy": lambda: p.remove_pauli_measurements(copy=True),
        "no-clifford-copy": lambda: p.remove_local_clifford_commands(copy=True),
    }
    name = rng.choice(list(ops) + list(new))
    trace.append(name)
    if name in new:
        return new[name]()
    ops[name]()
    return p


def extend(rng, p, n=None):
    from graphix import command

    for _ in range(n or rng.randrange(1, 4)):
        live = p.output_nodes
        fresh = max(p.nodes(), default=0) + 1
        done = sorted(p.nodes() - set(live))
        dom = gen.subset(rng, done, 0.5)
        acts = [command.N(fresh)]
        if live:
            u = rng.choice(live)
            acts += [command.X(u, dom), command.Z(u, dom), command.M(u, gen.measurement(rng), dom, gen.subset(rng, done, 0.3))]
            if len(live) > 1:
                acts += [command.E(tuple(rng.sample(live, 2)))] * 2
        p.add(rng.choice(acts))


def source(rng):
    r = rng.random()
    if r < 0.35:
        return gen.small_pattern(rng, any_clifford=rng.random() < 0.15, cliffords=rng.choice([0, 0.1, 0.2]), plus_only=rng.random() < 0.6)
    if r < 0.55:
        n_in = rng.choice([0, 1, 2])
        return gen.pattern(rng, n_in=n_in, n_new=rng.randrange(2, 7), n_meas=rng.randrange(1, 6), extra=rng.randrange(0, 9), dom=rng.choice([0.1, 0.3, 0.6]), e_rate=rng.choice([0.4, 1, 1.5]), cliffords=0.05)
    if r < 0.6:
        return gen.pattern(rng, n_in=0, n_new=rng.randrange(0, 3), n_meas=9, extra=1)
    if r < 0.85:
        return gen.compiled_pattern(rng, rng.choice([1, 2, 2, 3]), rng.randrange(1, 5), measure=rng.choice([0, 0.2]))
    p = gen.compiled_pattern(rng, rng.choice([1, 2]), rng.randrange(1, 4))
    p.standardize()
    return p


def mapping_queries(rng, p):
    out = []
    nodes = sorted(p.nodes())
    for _ in range(2):
        given = {n: rng.randrange(12) for n in nodes if rng.random() < 0.3}
        if rng.random() < 0.1:
            given[max(nodes, default=0) + 5] = 50
        q = {"given": sorted(given.items()), "start": rng.randrange(5), "avoids": sorted(gen.subset(rng, range(12), 0.3)), "preserves": sorted(gen.subset(rng, nodes, 0.3)), "refused": 0, "result": []}
        try:
            q["result"] = sorted(p.node_mapping(given, start=q["start"], avoids=rng.choice([set, list, tuple])(q["avoids"]), preserves=rng.choice([set, list, frozenset])(q["preserves"])).items())
        except ValueError:
            q["refused"] = 1
        out.append(q)
    return out


def reports(rng, p):
    from graphix.optimization import StandardizedPattern
    from graphix.space_minimization import SpaceMinimizationHeuristics

    q = {"n_node": p.n_node, "nodes": sorted(p.nodes()), "outputs": list(p.output_nodes), "inputs": list(p.input_nodes), "length": len(p), "space_list": p.space_list(), "max_space": p.max_space(),
         "standard": int(p.is_standard()), "strict": int(p.is_standard(strict=True)), "mdict": [[n, repr(c)] for n, c in p.measurement_commands().items()], "mappings": mapping_queries(rng, p)}
    q["items"] = [str(p[i].clifford) if p[i].kind.name == "C" else repr(p[i]) for i in range(len(p))]
    cliffs = [c.node for c in p if c.kind.name == "C"]
    if len(set(cliffs)) == len(cliffs):
        q["cdict"] = [[n, str(c)] for n, c in p.clifford_commands().items()]
    if p.is_standard():
        q["corrections"] = [repr(c) for c in p.correction_commands()]
    order = [c.node for c in p if c.kind.name == "M"]
    rng.shuffle(order)
    q["sorted"] = [[n, c.node] for n, c in zip(order, p.sort_measurement_commands(order))]
    before = repr(p)
    try:
        sp = StandardizedPattern.from_pattern(p)
    except NotImplementedError:
        q["refused"] = 1
        return q
    q["refused"] = 0
    q["layers"] = [sorted(x) for x in p.partial_order_layers()]
    try:
        og = p.to_opengraph()
        q["grefused"] = 0
    except ValueError:      # some node is not prepared in |+>
        q["grefused"] = 1
    else:
        q |= {"max_degree": p.max_degree(), "isolated": sorted(p.isolated_nodes()), "gnodes": sorted(og.graph.nodes), "gedges": [sorted(e) for e in og.graph.edges],
          "gins": list(og.input_nodes), "gouts": list(og.output_nodes), "gmeas": sorted(og.measurements)}
    q["connected"] = []
    for n in rng.sample(q["nodes"], min(3, len(q["nodes"]))):
        prepared = gen.subset(rng, q["nodes"], 0.2)
        q["connected"].append({"n": n, "prepared": sorted(prepared), "nodes": p.connected_nodes(n, prepared) if prepared or rng.random() < 0.5 else p.connected_nodes(n)})
    q["lazy"] = [sp.max_space(), sp.to_space_optimal_pattern().max_space(), p.minimize_space([], copy=True).max_space(), p.minimize_space([SpaceMinimizationHeuristics.order_unchanged], copy=True).max_space()]
    small = p.minimize_space(copy=True)
    q["minimized"] = small.max_space()
    r = SpaceMinimizationHeuristics.causal_flow(sp)
    if r is not None and r.known_optimal and len(order) <= 12:
        q["optimal"] = p.minimize_space([SpaceMinimizationHeuristics.causal_flow], copy=True).max_space()
    par = p.copy()
    par.parallelize_pattern()
    q["parallel"] = [c.node for c in par if c.kind.name == "M"]
    if repr(p) != before:
        q["length"] = -1      # a report changed the pattern
    return q


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 86028121 + 30)
    cases, meta, used = [], {}, {}
    refused = optimal = 0
    for i in range(6000 if quick else 30000):
        cid = f"p{i}"
        trace = []

        def go():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p = source(rng)
                start = repr(p)
                for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                    try:
                        p = rewrite(rng, p, trace)
                    except NotImplementedError:
                        trace[-1] += " (refused)"
                    if len(p) > 90:
                        break
                return start, p, reports(rng, p)

        r, err = observe(chk, cid, go, {"trace": trace})
        if err is not None:
            continue
        start, p, q = r
        for t in trace:
            used[t] = used.get(t, 0) + 1
        refused += q["refused"]
        optimal += "optimal" in q
        cases.append({"id": cid, "ins": list(map(int, p.input_nodes)), "cmds": wire(p), "q": q})
        meta[cid] = {"source": start[:1500], "history": trace, "pattern": repr(p)[:3000]}
    res = run_batch("Metrics", cases, coverage=True, timeout=800 if quick else 7000, chunk=4000)
    chk.absorb(res, cases, meta)
    chk.cov.update(patterns=len(cases), rewriting=used, refused_for_cliffords=refused, optimality_searches=optimal)
    chk.assumptions.append("patterns of up to about 25 nodes; schedules searched exhaustively for patterns of up to 12 measurements whose minimised order is claimed optimal")
