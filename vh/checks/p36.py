"""P36: circuits, patterns and open graphs built call by call hold exactly what was accepted."""
from __future__ import annotations

import copy
import json
import random

from .. import gen
from ..tlc import generate
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ state machines (Builder.tla) for circuits, patterns and open graphs: TLC enumerates every history of calls up to a length with what has to be observed after each, and each history is replayed into the real objects"
NOTE = ("Exhaustive over the histories of the stated alphabets (wires 1-3, triples, pattern nodes 2-3, graphs of 2-3 nodes with every choice of input and output lists, measured sets and Clifford keys); "
        "each abstract call is made through a randomly chosen concrete one (gate kind, method, add, extend).")
JIT = False


def circuit_call(rng, c, call, width):
    """Make the call; returns the instruction it should have added."""
    from graphix import instruction as I
    from graphix.fundamentals import Axis

    wild = rng.choice([width, width + 3, -1])
    a = [wild if q == width else q for q in call["a"]]
    ang = gen.angle(rng)
    match call["k"]:
        case "m":
            ax = rng.choice(list(Axis))
            ins, direct = I.M(a[0], ax), lambda: c.m(a[0], ax)
        case "g1":
            name = rng.choice(gen.G1 + gen.GR + ["r"])
            if name == "r":
                ax = rng.choice(list(Axis))
                ins, direct = {"X": I.RX, "Y": I.RY, "Z": I.RZ}[ax.name](a[0], ang), lambda: c.r(a[0], ax, ang)
            elif name in gen.GR:
                ins, direct = getattr(I, name.upper())(a[0], ang), lambda: getattr(c, name)(a[0], ang)
            else:
                ins, direct = getattr(I, name.upper())(a[0]), lambda: getattr(c, name)(a[0])
        case "g2":
            name = rng.choice(["cnot", "cz", "swap", "rzz"])
            direct = lambda: getattr(c, name)(*a, *([ang] if name == "rzz" else []))
            ins = I.CNOT(control=a[0], target=a[1]) if name == "cnot" else I.CZ((a[0], a[1])) if name == "cz" else I.SWAP((a[0], a[1])) if name == "swap" \
                else I.RZZ(control=a[0], target=a[1], angle=ang)
        case _:
            ins, direct = I.CCX(controls=(a[0], a[1]), target=a[2]), lambda: c.ccx(*a)
    how = rng.choice(["direct", "direct", "add", "extend"])
    return ins, direct if how == "direct" else (lambda: c.add(ins)) if how == "add" else (lambda: c.extend(iter([ins])))


def circuit_history(chk, rng, cid, width, h):
    from graphix import Circuit

    c, held, asked = Circuit(width), [], []
    for n, call in enumerate(h):
        ins, go = circuit_call(rng, c, call, width)
        asked.append(ins)
        org = {"width": width, "calls": [repr(x) for x in asked], "expected": "accepted" if call["ok"] else "refused"}
        try:
            go()
            ok = True
        except Exception:  # noqa: BLE001
            ok = False
        if ok != call["ok"]:
            chk.violate(cid, "accepted-invalid" if ok else "refused-valid", org)
            return
        if ok:
            held.append(ins)
        if list(c.instruction) != held or c.width != width:
            chk.violate(cid, "contents", {**org, "got": repr(c)})
            return
    # the same circuit built in one go
    good = [x for x, call in zip(asked, h) if call["ok"]]
    d, err = observe(chk, cid, lambda: Circuit(width, iter(good)), [repr(x) for x in good])
    if err is None and (list(d.instruction) != held or d.width != width):
        chk.violate(cid, "constructor", {"calls": [repr(x) for x in good], "got": repr(d)})
    if len(good) < len(asked):
        try:
            Circuit(width, asked)
            chk.violate(cid, "constructor-accepted-invalid", {"width": width, "calls": [repr(x) for x in asked]})
        except Exception:  # noqa: BLE001
            pass


def pattern_history(chk, rng, cid, ins0, size, h, meas):
    from graphix import Pattern
    from graphix import command as C

    def concrete(c):
        n = c["n"]
        match c["k"]:
            case "N":
                return C.N(n)
            case "M":
                return C.M(n, meas[n])
            case "X":
                return C.X(n)
            case _:
                return C.E((n, (n + 1) % size))

    p, seen = Pattern(input_nodes=iter(ins0)), []
    others = []
    for n, step in enumerate(h):
        call = step["k"]
        seen.append(call)
        org = {"inputs": ins0, "calls": seen, "expected": step}
        if rng.random() < 0.3:
            others.append((p.copy() if rng.random() < 0.5 else copy.deepcopy(p), repr(p), org))

        def go():
            match call[0]:
                case "add":
                    cmd = concrete(call[1])
                    [lambda: p.add(cmd), lambda: p.extend(cmd), lambda: p.extend(iter([cmd])), lambda: p.extend([], [cmd])][rng.randrange(4)]()
                case "clear":
                    p.clear()
                case "replace":
                    cmds = [concrete(c) for c in call[1]]
                    if call[2][0] == "same":
                        p.replace(cmds)
                    else:
                        arg = list(call[2][1])
                        p.replace(cmds, arg)
                        arg.append(77)
                    cmds.append(C.X(77))
                case "outs":
                    arg = list(call[1])
                    p.reorder_output_nodes(iter(arg) if rng.random() < 0.5 else arg)
                    arg.append(77)
                case "ins":
                    arg = list(call[1])
                    p.reorder_input_nodes(iter(arg) if rng.random() < 0.5 else arg)
                    arg.append(77)
                case "reindex":
                    f = lambda v: (v + 1) % size
                    r = p.reindex(f if rng.random() < 0.5 else {v: f(v) for v in range(size)})
                    if r is not p:
                        raise AssertionError("reindex did not return the pattern itself")

        try:
            go()
            ok = True
        except Exception as e:  # noqa: BLE001
            ok, org = False, {**org, "error": repr(e)}
        if ok != step["ok"]:
            chk.violate(cid, "accepted-invalid" if ok else "refused-valid", org)
            return
        if call[0] == "reindex":
            meas = {(v + 1) % size: m for v, m in meas.items()}
        want = [concrete(c) for c in step["cmds"]]
        got = {"cmds": list(p), "ins": p.input_nodes, "outs": p.output_nodes, "made": p.n_node, "nodes": sorted(p.nodes()), "len": len(p)}
        exp = {"cmds": want, "ins": list(step["ins"]), "outs": list(step["outs"]), "made": step["made"], "nodes": sorted(step["nodes"]), "len": len(want)}
        bad = [k for k in exp if got[k] != exp[k]]
        if bad or [p[i] for i in range(len(p))] != want:
            chk.violate(cid, "observed-" + "-".join(bad or ["item"]), {**org, "got": repr(got), "wanted": repr(exp)})
            return
        # what is handed out is a copy
        p.input_nodes.append(78)
        p.output_nodes.clear()
        if p.input_nodes != exp["ins"] or p.output_nodes != exp["outs"]:
            chk.violate(cid, "view-not-copy", org)
            return
    for q, r, org in others:
        if repr(q) != r:
            chk.violate(cid, "copy-changed", {**org, "got": repr(q), "was": r})
            return
    # built in one go, and equality sees every part
    fresh, err = observe(chk, cid, lambda: Pattern(iter(p.input_nodes), iter(list(p)), iter(p.output_nodes)), seen)
    if err is None:
        if fresh != p or repr(fresh) != repr(p):
            chk.violate(cid, "constructor", {"calls": seen, "got": repr(fresh), "wanted": repr(p)})
        for what, other in (("inputs", Pattern(list(reversed(p.input_nodes)), list(p))), ("commands", Pattern(p.input_nodes, [*p, C.Z(5)], p.output_nodes))):
            same = what == "inputs" and len(p.input_nodes) < 2 and other.output_nodes == p.output_nodes
            if (other == p) != same:
                chk.violate(cid, "equality", {"calls": seen, "what": what, "one": repr(p), "other": repr(other)})
        for wrong in ([*p.output_nodes, 99], p.output_nodes[1:], [*p.output_nodes, *p.output_nodes]):
            if wrong == p.output_nodes:
                continue
            try:
                Pattern(p.input_nodes, list(p), wrong)
                chk.violate(cid, "constructor-accepted-invalid", {"calls": seen, "outputs": wrong})
            except Exception:  # noqa: BLE001
                pass


def graph_build(chk, rng, cid, nodes, r):
    import networkx as nx

    from graphix.clifford import Clifford
    from graphix.fundamentals import Plane
    from graphix.measurements import Measurement
    from graphix.opengraph import OpenGraph

    g = nx.Graph()
    g.add_nodes_from(nodes)
    for i, a in enumerate(nodes):
        for b in nodes[:i]:
            if rng.random() < 0.6:
                g.add_edge(a, b)
    m = {v: rng.choice([Plane.XY, Measurement.XZ(0.25), Measurement.X]) for v in r["m"]}
    c = {v: rng.choice([Clifford.I, Clifford.H]) for v in r["c"]}
    org = {"nodes": nodes, **r}
    try:
        og = OpenGraph(g, list(r["i"]), tuple(r["o"]), m, c) if c or rng.random() < 0.5 else OpenGraph(g, list(r["i"]), tuple(r["o"]), m)
        ok = True
    except Exception:  # noqa: BLE001
        ok = False
    if ok != r["ok"]:
        chk.violate(cid, "graph-accepted-invalid" if ok else "graph-refused-valid", org)
    elif ok and (list(og.input_nodes) != list(r["i"]) or list(og.output_nodes) != list(r["o"]) or dict(og.measurements) != m or dict(og.output_cliffords) != c
                 or set(og.graph.nodes) != set(nodes) or set(map(frozenset, og.graph.edges)) != set(map(frozenset, g.edges))):
        chk.violate(cid, "graph-contents", {**org, "got": repr(og)})


def run(chk):
    from graphix.measurements import Measurement

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 15485863 + 36)
    triples = [[0, 1, 2], [2, 0, 1], [0, 1, 0], [1, 1, 2], [0, 2, 2], [3, 1, 0], [0, 3, 1], [1, 0, 3]]
    confs = [
        {"machine": "circuit", "width": 3, "len": 3, "triples": triples},
        {"machine": "circuit", "width": 2, "len": 3, "triples": [[0, 1, 2], [0, 1, 1]]},
        {"machine": "circuit", "width": 1, "len": 4, "triples": []},
        {"machine": "circuit", "width": 0, "len": 1, "triples": [[0, 0, 0]]},
        {"machine": "pattern", "nodes": [0, 1, 2], "inputs": [[0, 1], [2]], "len": 3 if not quick else 2},
        {"machine": "pattern", "nodes": [0, 1], "inputs": [[], [1], [1, 0]], "len": 3},
        {"machine": "graph", "nodes": [0, 1], "len": 1},
    ]
    if not quick:
        confs += [{"machine": "circuit", "width": 2, "len": 4, "triples": [[0, 1, 2]]},
                  {"machine": "pattern", "nodes": [0, 1], "inputs": [[0], [0, 1]], "len": 4},
                  {"machine": "graph", "nodes": [0, 1, 2], "len": 1}]
    total = 0
    for k, conf in enumerate(confs):
        full = {"width": 0, "triples": [], "nodes": [0], "inputs": [[]], **conf}
        recs, res = generate("Builder", [full], timeout=800 if quick else 5000, heap="14g")
        chk.states += res.states
        chk.distinct += res.distinct
        for a, v in res.coverage.items():
            chk.actions[a] = chk.actions.get(a, 0) + v
        recs.sort(key=lambda r: json.dumps(r["h"], sort_keys=True))
        for i, r in enumerate(recs):
            total += 1
            cid = f"{conf['machine']}{k}-{i}"
            if conf["machine"] == "circuit":
                circuit_history(chk, rng, cid, conf["width"], r["h"])
            elif conf["machine"] == "graph":
                graph_build(chk, rng, cid, conf["nodes"], r["h"][0])
            else:
                meas = {v: rng.choice([Measurement.XY(0.25), Measurement.YZ(-0.5), Measurement.X, -Measurement.Z]) for v in full["nodes"]}
                pattern_history(chk, rng, cid, r["start"], len(full["nodes"]), r["h"], meas)
        chk.samples.append({"config": conf, "histories": len(recs), "example": recs[len(recs) // 2] if recs else None})
    chk.traces = total
    chk.cov = {"histories_replayed": total, "decided_by": "Builder.tla histories enumerated by TLC, replayed"}
    chk.assumptions.append("alphabets of at most 3 wires or nodes, histories up to the stated lengths; exhaustive within them")
