"""P33: drawings show exactly the object that was drawn."""
from __future__ import annotations

import os
import dataclasses
import random
import tempfile
import warnings

from .. import flowgen, gen
from ..picture import figure, read
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ reader of pictures (Picture.tla): TLC looks at every recorded mark, stroke, arrowhead, text and legend entry, works out which graph, corrections, layers and annotations the picture shows, and compares them with the object"
NOTE = ("Random open graphs, causal flows, generalised flows, Pauli flows, corrections, patterns and graph states (4 to 9 nodes, quick) drawn with every option, recorded as the elements handed to matplotlib. "
        "Whether strokes avoid marks they do not belong to is a matter of looks and not judged.")
JIT = False


def describe(og) -> dict:
    from graphix.fundamentals import Axis

    def word(m) -> str:
        return m.to_plane_or_axis().name

    pauli = [n for n, m in og.measurements.items() if isinstance(m.to_plane_or_axis(), Axis)]
    sides = [[n, 1, word(m)] for n, m in og.measurements.items()] + [[n, 2, str(c)] for n, c in og.output_cliffords.items()]
    return {"nodes": list(og.graph.nodes), "ins": list(og.input_nodes), "outs": list(og.output_nodes), "pauli": pauli, "sides": sides,
            "edges": [list(e) for e in og.graph.edges], "arrows": [], "layers": [], "loops": [], "hollow": []}


def of_flow(f) -> dict:
    return {**describe(f.og), "arrows": [[n, c, "black"] for n, cs in f.correction_function.items() for c in cs], "layers": [list(l) for l in f.partial_order_layers]}


def of_corrections(x) -> dict:
    arrows = []
    for n in x.og.measurements:
        xs, zs = set(x.x_corrections.get(n, ())), set(x.z_corrections.get(n, ()))
        arrows += [[n, c, "brown" if c in xs and c in zs else "red" if c in xs else "green"] for c in xs | zs]
    return {**describe(x.og), "arrows": arrows, "layers": [list(l) for l in x.partial_order_layers]}


def options(rng, nodes) -> tuple[dict, dict, list]:
    kw: dict = {}
    names = [[str(n), n] for n in nodes]
    r = rng.random()
    if r < 0.1:
        kw["node_labels"] = False
        names = []
    elif r < 0.3:
        names = [[f"q{(7 * i) % 101}", n] for i, n in enumerate(nodes)]
        kw["node_labels"] = {n: l for l, n in names}
    elif r < 0.4:
        kw["node_labels"] = True
    if rng.random() < 0.5:
        kw["measurement_labels"] = rng.random() < 0.8
    if rng.random() < 0.6:
        kw["local_clifford"] = rng.random() < 0.8
    if rng.random() < 0.4:
        kw["legend"] = rng.random() < 0.5
    if rng.random() < 0.3:
        kw["pauli_measurements"] = rng.random() < 0.4
    if rng.random() < 0.4:
        kw["node_distance"] = rng.choice([(1, 1), (0.7, 0.6), (2, 1), (1, 2), (1.5, 0.8)])
    if rng.random() < 0.2:
        kw["figsize"] = (8, 6)
    return kw, names


def run(chk):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(chk)


def _run(chk):
    from graphix.flow.core import XZCorrections
    from graphix.pattern import DrawPatternAnnotations

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 6151 + 33)
    cases, meta = [], {}
    stats: dict[str, int] = {}

    def take(cid, draw, alts, kw, names, origin, graph=0, save=False):
        dx, dy = kw.get("node_distance", (1, 1))
        opt = {"names": names, "legend": int(kw.get("legend", True) and not graph), "meas": int(kw.get("measurement_labels", False)), "cliff": int(kw.get("local_clifford", False)),
               "pauli": int(kw.get("pauli_measurements", True)), "dx": round(dx * 1000), "dy": round(dy * 1000), "graph": graph}
        origin = {"object": origin, "options": str(kw)}
        with figure() as plt:
            if save:
                with tempfile.TemporaryDirectory(prefix="vh-pic-") as d:
                    path = os.path.join(d, "picture.png")
                    _, err = observe(chk, cid, lambda: draw(filename=path, **kw), origin)
                    if err is None and not (os.path.exists(path) and os.path.getsize(path) > 0):
                        chk.violate(cid, "not-saved", origin)
            else:
                _, err = observe(chk, cid, lambda: draw(**kw), origin)
            if err is not None:
                return
            els, legend = read(plt.gca())
        if not alts[0]["nodes"]:
            opt["legend"] = 0
        cases.append({"id": cid, "els": els, "legend": legend, "alts": alts, "opt": opt, "gap": 2 if graph else round(min(dx, dy) * 500)})
        meta[cid] = {"origin": origin}
        kind = cid.split("-")[-1]
        stats[kind] = stats.get(kind, 0) + 1

    def objects(i):
        """(suffix, object, description) for one random open graph."""
        n = rng.randrange(1, 8 if quick else 10)
        style = rng.choice(["abstract", "concrete"])
        labels = rng.choice([["XY"], flowgen.PLANES, flowgen.PLANES + flowgen.AXES, ["XY", "X", "Y"]])
        make = flowgen.flowish_spec if rng.random() < 0.7 else flowgen.random_spec
        s = make(rng, n, labels)
        if rng.random() < 0.5:
            s = flowgen.renamed(s, rng)
        og = s.build(rng, style)
        yield "graph", og, describe(og)
        # corrections that need not come from a flow
        order = list(s.lab) + [v for v in s.nodes if v not in s.lab]
        dens = rng.choice([0.2, 0.5])
        xs, zs = ({v: {w for w in order[k + 1:] if rng.random() < dens} for k, v in enumerate(order) if v in s.lab} for _ in range(2))
        x = XZCorrections.from_measured_nodes_mapping(og, {v: c for v, c in xs.items() if c}, {v: c for v, c in zs.items() if c})
        yield "xz", x, of_corrections(x)
        for how in ("to_causalflow_or_none", "to_gflow_or_none", "to_pauliflow_or_none"):
            if rng.random() < 0.4:
                continue
            if how != "to_pauliflow_or_none" and any(l in flowgen.AXES for l in s.lab.values()):
                continue
            f = getattr(og, how)()
            if f is None:
                continue
            yield "flow", f, of_flow(f)
            if rng.random() < 0.6:
                x = f.to_xzcorrections()
                yield "xz", x, of_corrections(x)

    def origin(o):
        og = getattr(o, "og", o)
        return {"graph": str(list(og.graph.edges)), "nodes": str(list(og.graph.nodes)), "inputs": str(og.input_nodes), "outputs": str(og.output_nodes), "measurements": str(og.measurements),
                "corrections": str(getattr(o, "correction_function", getattr(o, "x_corrections", None))), "z": str(getattr(o, "z_corrections", None))}

    count = 45 if quick else 500
    for i in range(count):
        try:
            objs = list(objects(i))
        except Exception:  # noqa: BLE001  (failures of the searches belong to P08)
            chk.skipped += 1
            continue
        for suffix, o, d in objs:
            kw, names = options(rng, d["nodes"])
            take(f"d{i}.{len(cases)}-{suffix}", o.draw, [d], kw, names, origin(o), save=rng.random() < 0.05)
    # patterns: the annotations asked for, from the pattern or its open graph
    for i in range(25 if quick else 300):
        try:
            p = gen.compiled_pattern(rng, rng.randrange(1, 4), rng.randrange(0, 4)) if rng.random() < 0.7 else gen.small_pattern(rng)
            if rng.random() < 0.5:
                p.infer_pauli_measurements()
                if rng.random() < 0.5:
                    p.standardize()
                    p.remove_pauli_measurements()
            if i % 5 == 4:      # forget the corrections: only the graph may have a flow
                bare = [dataclasses.replace(c, s_domain=set(), t_domain=set()) if c.kind.name == "M" else c for c in p if c.kind.name not in "XZ"]
                p.replace(bare, input_nodes=list(p.input_nodes))
            og = p.to_opengraph()
            if len(og.graph.nodes) > 14:
                continue
            ann = rng.choice([None, DrawPatternAnnotations.XZCorrections, DrawPatternAnnotations.Flow])
            extra = {}
            if ann is None:
                alts = [describe(og)]
            elif ann is DrawPatternAnnotations.XZCorrections:
                alts = [of_corrections(p.to_xzcorrections())]
            else:
                fp = rng.random() < 0.6
                extra["flow_from_pattern"] = fp
                alts = []
                for src in ([p.to_xzcorrections()] if fp else []) + [og]:
                    for how in ("to_causalflow", "to_pauliflow"):
                        try:
                            alts.append(of_flow(getattr(src.downcast_bloch() if how == "to_causalflow" else src, how)()))
                        except Exception:  # noqa: BLE001
                            continue
                if not alts:
                    continue
        except Exception:  # noqa: BLE001
            chk.skipped += 1
            continue
        kw, names = options(rng, alts[0]["nodes"])
        take(f"p{i}-pattern", lambda **k: p.draw(annotations=ann, **extra, **k), alts, kw, names, {"pattern": str(p), "annotations": str(ann), **extra}, save=rng.random() < 0.1)
    # graph states
    from graphix.graphsim import GraphState

    for i in range(15 if quick else 150):
        n = rng.randrange(1, 7)
        nodes = rng.sample(range(0, 12), n)
        edges = [(a, b) for k, a in enumerate(nodes) for b in nodes[k + 1:] if rng.random() < 0.5]
        try:
            g = GraphState(nodes=nodes, edges=edges)
            for _ in range(rng.randrange(0, 6)):
                getattr(g, rng.choice(["h", "s", "z"]))(rng.choice(nodes))
        except Exception:  # noqa: BLE001
            continue
        d = {"nodes": list(g.nodes), "ins": [], "outs": [], "pauli": [], "sides": [], "edges": [list(e) for e in g.edges], "arrows": [], "layers": [],
             "loops": [v for v in g.nodes if g.nodes[v]["loop"]], "hollow": [v for v in g.nodes if g.nodes[v]["hollow"]]}
        names = [[("-" if g.nodes[v]["sign"] else "") + str(v), v] for v in g.nodes]
        take(f"g{i}-state", lambda **k: g.draw(), [d], {}, names, {"nodes": str(dict(g.nodes(data=True))), "edges": str(edges)}, graph=1)
    res = run_batch("Picture", cases, timeout=600, coverage=True)
    chk.absorb(res, cases, meta)
    chk.cov.update(pictures=len(cases), elements=sum(len(c["els"]) for c in cases), **{f"pictures_{k}": v for k, v in stats.items()})
