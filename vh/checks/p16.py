"""P16: composing and renaming patterns and open graphs composes their maps."""
from __future__ import annotations

import random
import warnings

from .. import dump, gen
from .. import flowgen as fg
from ..tlc import run_batch
from ..util import branches, case, observe, rel

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ specifications Compose.tla (structure, ports, names, refusals) and MBQC.tla (maps on every branch), both run by TLC on recorded calls"
NOTE = ("Seeded random patterns, circuits and open graphs (with output Cliffords, overlapping ports, legal and illegal mappings); Compose.tla builds the composed object itself and compares, MBQC.tla compares "
        "composed patterns of circuits and composed open graphs with the composed program on every branch. Trusts TLC and the generator's reach.")


def pat_json(p) -> dict:
    d = dump.pattern(p, sched=False)
    d.pop("sched")
    return d


def og_json(og) -> dict:
    ms = []
    for n, m in og.measurements.items():
        pl, a = dump.meas(m)
        ms.append([int(n), pl, a])
    return {"V": [int(n) for n in og.graph.nodes], "E": [[int(a), int(b)] for a, b in og.graph.edges], "I": [int(n) for n in og.input_nodes],
            "O": [int(n) for n in og.output_nodes], "M": ms, "C": [[int(n), dump.clifford_matrix(c)] for n, c in og.output_cliffords.items()]}


def pairs(m) -> list:
    return [[int(a), int(b)] for a, b in m.items()]


def run(chk):
    import networkx as nx
    from graphix import Pattern
    from graphix.clifford import Clifford
    from graphix.opengraph import OpenGraph, OpenGraphError
    from graphix.pattern import PatternError

    warnings.simplefilter("ignore")
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 49979687 + 16)
    scale = 1 if quick else 12
    cs, meta, kinds = [], {}, {}
    mc, mmeta = [], {}

    def kind(k):
        kinds[k] = kinds.get(k, 0) + 1

    # ------------------------------------------------------ pattern composition, structure
    for i in range(700 * scale):
        p1 = gen.small_pattern(rng, plus_only=False) if rng.random() < 0.95 else Pattern()
        p2 = gen.small_pattern(rng, plus_only=False) if rng.random() < 0.95 else Pattern()
        outs, ins = list(p1.output_nodes), list(p2.input_nodes)
        v1, v2 = sorted(p1.nodes()), sorted(p2.nodes())
        rng.shuffle(outs)
        rng.shuffle(ins)
        k = rng.randrange(min(len(outs), len(ins)) + 1) if rng.random() < 0.5 else min(len(outs), len(ins))
        m = dict(zip(ins[:k], outs[:k]))
        for n in v2:
            r = rng.random()
            if n not in m and r < 0.25:
                f = rng.randrange(60)
                if f not in v1 and f not in m.values():
                    m[n] = f
            elif r < 0.28 and v1:
                m[n] = rng.choice(v1)       # possibly illegal
        if rng.random() < 0.03:
            m[max(v2, default=0) + 7] = 99
        m = dict(rng.sample(list(m.items()), len(m)))
        pm = rng.randrange(2)
        cid = f"pc{i}"
        a, b = pat_json(p1), pat_json(p2)
        org = {"self": repr(p1), "other": repr(p2), "mapping": repr(m), "preserve_mapping": pm}
        got, err = observe(chk, cid, lambda: p1.compose(p2, m, preserve_mapping=bool(pm)), org, expect=(PatternError,))
        if got is None and not isinstance(err, PatternError):
            continue
        c = {"id": cid, "t": "pat", "P1": a, "P2": b, "map": pairs(m), "pm": pm, "err": "" if err is None else type(err).__name__, "R": a, "full": []}
        if err is None:
            c["R"], c["full"] = pat_json(got[0]), pairs(got[1])
        if pat_json(p1) != a or pat_json(p2) != b:
            chk.violate(cid, "argument-changed", org)
        kind("pattern-" + ("refused" if err else "composed"))
        cs.append(c)
        meta[cid] = {**org, "result": repr(got)}

    # ------------------------------------------------------ node_mapping, reindex
    for i in range(300 * scale):
        p = gen.small_pattern(rng, plus_only=False)
        v = sorted(p.nodes())
        m = {n: rng.randrange(15) for n in v if rng.random() < 0.3}
        if rng.random() < 0.05:
            m[77] = 3
        start = rng.choice([0, 0, 1, 5])
        rest = [n for n in v if n not in m]
        pres = [n for n in rest if rng.random() < 0.25 and n not in m.values()]
        av = rng.sample(range(12), rng.randrange(5))
        cid = f"nm{i}"
        org = {"pattern": repr(p), "mapping": repr(m), "start": start, "avoids": av, "preserves": pres}
        kw = {"start": start}
        if av or rng.random() < 0.5:
            kw["avoids"] = av
        if pres or rng.random() < 0.5:
            kw["preserves"] = pres
        got, err = observe(chk, cid, lambda: p.node_mapping(m if m or rng.random() < 0.5 else None, **kw), org, expect=(ValueError,))
        if got is None and not isinstance(err, ValueError):
            continue
        cs.append({"id": cid, "t": "nm", "nodes": v, "map": pairs(m), "start": start, "avoids": av, "preserves": pres,
                   "err": "" if err is None else "ValueError", "full": pairs(got or {})})
        meta[cid] = {**org, "result": repr(got)}
        kind("node_mapping")
        names = rng.sample(range(40), len(v))
        f = dict(zip(v, names))
        if rng.random() < 0.3:      # partial renaming, still injective
            f = {n: x for n, x in f.items() if rng.random() < 0.6}
            if len({f.get(n, n) for n in v}) != len(v):
                f = dict(zip(v, names))
        cid = f"rn{i}"
        a = pat_json(p)
        q = gen.rebuild(p)
        cp = rng.random() < 0.5
        arg = f if rng.random() < 0.6 else (lambda n, f=f: f.get(n, n))
        r, err = observe(chk, cid, lambda: q.reindex(arg, copy=cp), {"pattern": repr(p), "mapping": repr(f), "copy": cp})
        if err is None:
            if (r is q) == cp or (cp and pat_json(q) != a):
                chk.violate(cid, "copy-flag", {"pattern": repr(p), "mapping": repr(f), "copy": cp})
            cs.append({"id": cid, "t": "ren", "P1": a, "map": pairs(f), "err": "", "R": pat_json(r)})
            meta[cid] = {"pattern": repr(p), "mapping": repr(f), "copy": cp, "result": repr(r)}
            kind("reindex")
            # reordering ports changes only the order
            o, n_ = rng.sample(list(r.output_nodes), len(r.output_nodes)), rng.sample(list(r.input_nodes), len(r.input_nodes))
            before = pat_json(r)
            _, err = observe(chk, cid, lambda: (r.reorder_output_nodes(iter(o)), r.reorder_input_nodes(iter(n_))), {"pattern": repr(r), "outputs": o, "inputs": n_})
            after = pat_json(r)
            if err is None:
                before["inputs"], before["outputs"] = n_, o
                cs.append({"id": cid + "o", "t": "ren", "P1": before, "map": [], "err": "", "R": after})
                meta[cid + "o"] = {"pattern": repr(r), "outputs": o, "inputs": n_}

    # ------------------------------------------------------ open graphs
    def graph():
        labels = fg.PLANES + fg.AXES
        for _ in range(20):
            s = fg.renamed(fg.flowish_spec(rng, rng.choice([1, 2, 3, 4, 5]), labels) if rng.random() < 0.6 else fg.random_spec(rng, rng.choice([1, 2, 3, 4]), labels), rng)
            if len(s.ins) <= 3 and len(s.outs) <= 4:
                break
        og = s.build(rng, "concrete")
        if s.outs and rng.random() < 0.5:
            og = OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements,
                           {o: Clifford(rng.randrange(24)) for o in s.outs if rng.random() < 0.5})
        return og

    for i in range(900 * scale):
        g1, g2 = graph(), graph()
        if i % 150 == 7:
            g1 = OpenGraph(nx.Graph(), [], [], {})
        v1, v2 = sorted(g1.graph.nodes), sorted(g2.graph.nodes)
        outs, ins = list(g1.output_nodes), list(g2.input_nodes)
        rng.shuffle(outs)
        rng.shuffle(ins)
        mode = rng.random()
        m = {}
        if mode < 0.6:
            k = min(len(outs), len(ins))
            k = rng.randrange(k + 1) if rng.random() < 0.3 else k
            m = dict(zip(ins[:k], outs[:k]))
        elif mode < 0.75:
            k = min(len(g1.input_nodes), len(g2.output_nodes))
            m = dict(zip(rng.sample(list(g2.output_nodes), k), rng.sample(list(g1.input_nodes), k)))
        else:
            k = rng.randrange(min(len(v1), len(v2)) + 1)
            m = dict(zip(rng.sample(v2, k), rng.sample(v1, k)))
            if rng.random() < 0.5:      # make shared measurements agree
                ms = {**g1.measurements, **{m_[1]: g2.measurements[m_[0]] for m_ in m.items() if m_[1] in g1.measurements and m_[0] in g2.measurements}}
                g1 = OpenGraph(g1.graph, g1.input_nodes, g1.output_nodes, ms, g1.output_cliffords)
        for n in v2:
            if n not in m and rng.random() < 0.2:
                f = rng.randrange(40)
                if (f not in v1 or rng.random() < 0.1) and f not in m.values():
                    m[n] = f
        if rng.random() < 0.02 and m:
            m[max(v2) + 3] = 50
        m = dict(rng.sample(list(m.items()), len(m)))
        cid = f"og{i}"
        a, b = og_json(g1), og_json(g2)
        org = {"self": repr(g1) + " " + repr((g1.graph.nodes, g1.graph.edges)), "other": repr(g2) + " " + repr((g2.graph.nodes, g2.graph.edges)), "mapping": repr(m)}
        got, err = observe(chk, cid, lambda: g1.compose(g2, m), org, expect=(ValueError, OpenGraphError))
        if got is None and not isinstance(err, (ValueError, OpenGraphError)):
            continue
        c = {"id": cid, "t": "og", "G1": a, "G2": b, "map": pairs(m), "err": "" if err is None else type(err).__name__, "R": a, "full": []}
        if err is None:
            c["R"], c["full"] = og_json(got[0]), pairs(got[1])
        if og_json(g1) != a or og_json(g2) != b:
            chk.violate(cid, "argument-changed", org)
        cs.append(c)
        meta[cid] = {**org, "result": repr(got) + (repr((got[0].graph.nodes, got[0].graph.edges)) if got else "")}
        kind("opengraph-" + ("refused" if err else "composed"))
        # the map of the composition, when outputs of self feed inputs of other
        merged = {u: v for v, u in m.items() if u in g1.graph}
        if err is None and all(u in g1.output_nodes and v in g2.input_nodes for u, v in merged.items()):
            og, full = got
            if len(og.input_nodes) > 3 or len(og.graph) > 9:
                continue
            inv = {y: x for x, y in full.items()}
            common = any(g2.graph.has_edge(inv[x], inv[y]) for x, y in g1.graph.edges if x in merged and y in merged)
            blocked = any(c_ != Clifford.I and g2.graph.degree(merged[u]) for u, c_ in g1.output_cliffords.items() if u in merged)
            if common or blocked:
                continue
            A = dump.opengraph(og)
            r1, r2 = dump.opengraph(g1), dump.opengraph(g2)
            ren = {x: (y if y in merged else 1000 + x) for x, y in full.items()}
            cm2 = []
            for x in r2["cmds"]:
                y = dict(x)
                for f in ("n", "a", "b"):
                    if f in y and not (f == "a" and y["k"] == "M"):
                        y[f] = ren[y[f]]
                cm2.append(y)
            g1out = [n for n in r1["outputs"] if n not in merged]
            B = {"inputs": [n for n in r1["inputs"]] + [ren[n] for n in r2["inputs"] if ren[n] not in merged], "outputs": [], "cmds": r1["cmds"] + cm2}
            B["outputs"] = g1out + [ren[n] for n in r2["outputs"]] if not any(ren[n] in merged for n in r2["outputs"]) else None
            if B["outputs"] is None:    # outputs merged with outputs keep the place they had in self
                o2 = [ren[n] for n in r2["outputs"]]
                B["outputs"] = [n for n in r1["outputs"] if n not in merged or n in o2] + [n for n in o2 if n not in merged]
            i2 = [ren[n] for n in r2["inputs"]]
            B["inputs"] = list(r1["inputs"]) + [n for n in i2 if n not in merged]
            B["sched"] = dump.schedule(B)
            br = [[x, 0] for x in dump.measured(A)]
            cc = case(f"{cid}m", A, B, [rel(n) for n in dump.measured(B)], [br], ka=0, kb=0)
            if chk.affordable(cc):
                mc.append(cc)
                mmeta[cc["id"]] = meta[cid]
                kind("opengraph-map")

    # ------------------------------------------------------ composed circuits
    for i in range(80 * scale):
        w1, w2 = rng.choice([1, 2, 2]), rng.choice([1, 2, 2])
        c1, c2 = (gen.circuit(rng, w, rng.randrange(0, 4), ccx=0) for w in (w1, w2))
        p1, p2 = c1.transpile().pattern, c2.transpile().pattern
        if rng.random() < 0.5:
            p1 = p1.to_bloch() if hasattr(p1, "to_bloch") else p1
        k = rng.randrange(min(w1, w2) + 1) if rng.random() < 0.4 else min(w1, w2)
        qs2, qs1 = rng.sample(range(w2), k), rng.sample(range(w1), k)
        m = {p2.input_nodes[b]: p1.output_nodes[a] for a, b in zip(qs1, qs2)}
        pm = rng.randrange(2)
        cid = f"cc{i}"
        org = {"self": repr(c1), "other": repr(c2), "qubits": repr((qs1, qs2)), "preserve_mapping": pm}
        got, err = observe(chk, cid, lambda: p1.compose(p2, m, preserve_mapping=bool(pm)), org)
        if err is not None:
            continue
        A = dump.pattern(got[0])
        b1, _ = dump.circuit(c1)
        b2, _ = dump.circuit(c2)
        at = {b: a for a, b in zip(qs1, qs2)}
        wire = {q: at.get(q, 100 + q) for q in range(w2)}
        cmds = b1["cmds"] + [{**g, "q": [wire[q] for q in g["q"]]} for g in b2["cmds"]]
        outs = list(range(w1)) if pm and k == w2 else [q for q in range(w1) if q not in qs1] + [wire[q] for q in range(w2)]
        B = {"inputs": list(range(w1)) + [wire[q] for q in range(w2) if q not in at], "outputs": outs, "cmds": cmds, "sched": []}
        ms = dump.measured(A)
        cc = case(cid, A, B, [], branches(rng, ms, 6), ka=len(ms), kb=0)
        if chk.affordable(cc):
            mc.append(cc)
            mmeta[cid] = {**org, "result": repr(got[0])}
            kind("circuit")
    res = run_batch("Compose", cs, coverage=True, timeout=600 if quick else 5000)
    chk.absorb(res, cs, meta)
    res2 = run_batch("MBQC", mc, coverage=True, timeout=600 if quick else 7000)
    chk.absorb(res2, mc, mmeta)
    chk.cov.update(programs=len(cs) + len(mc), disagreements_checked=sum(res.ok.values()) + sum(res2.ok.values()), kinds=kinds)
