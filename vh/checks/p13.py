"""P13: circuits extracted from flows implement the flow's map."""
from __future__ import annotations

import copy
import random
import warnings

from .. import dump
from .. import flowgen as fg
from ..tlc import run_batch
from ..util import case, observe, rel
from .p08 import SEARCH

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC: extracted circuit, exponentials and Clifford map, each as a program, against the open graph projected on outcome 0"
NOTE = ("Seeded random open graphs up to 8 nodes (some of 9 to 14 nodes on up to three wires) (all planes, axes, signs), flows from all three searches and unfocused ones, square and isometric; exact comparison from a Choi state. "
        "Only the circuit's action up to a scalar is compared. Trusts TLC and the generator's reach.")


def pexps(rng, dag, outs, inverse: bool) -> list[dict]:
    """Pauli exponentials exp(i angle P), earliest measured first, any order within a layer."""
    ops = []
    for layer in reversed(dag.partial_order_layers[1:]):
        ns = sorted(layer)
        rng.shuffle(ns)
        for n in ns:
            pe = dag.pauli_exponentials[n]
            ps = pe.pauli_string
            qs = sorted(ps.axes)
            x = float(pe.angle) * dump.GRID
            k = round(x)
            if abs(x - k) > 1e-5 or ps.dim != len(outs):
                ops.append({"k": "G", "g": "OFFGRID", "q": [], "a": 0})
                continue
            k = k if ps.sign.name == "PLUS" else -k
            ops.append({"k": "G", "g": "PEXP", "q": [int(outs[q]) for q in qs], "ax": [ps.axes[q].name for q in qs], "a": (-k if inverse else k)})
    return ops[::-1] if inverse else ops


def proj(ps, outs) -> dict:
    qs = sorted(ps.axes)
    return {"k": "G", "g": "PROJ", "q": [int(outs[q]) for q in qs], "ax": [ps.axes[q].name for q in qs], "a": 1 if ps.sign.name == "MINUS" else 0}


def extended(prog, before, after):
    p = copy.deepcopy(prog)
    p["cmds"] = before + p["cmds"] + after
    p["sched"] = dump.schedule(p)
    return p


def run(chk):
    from graphix.flow.core import CausalFlow, GFlow, PauliFlow

    warnings.simplefilter("ignore")
    CLS = {"c": CausalFlow, "g": GFlow, "p": PauliFlow}
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 15485863 + 13)
    n = 1500 if quick else 20000
    cases, meta, kinds = [], {}, {}

    def add(c, org, what):
        if chk.affordable(c):
            kinds[what] = kinds.get(what, 0) + 1
            cases.append(c)
            meta[c["id"]] = org

    for i in range(n):
        kind = "ppgc"[i % 4]
        labels = {"c": ["XY"], "g": fg.PLANES, "p": fg.PLANES + fg.AXES}[kind]
        size = rng.choice([2, 3, 4, 4, 5, 5, 6, 6, 7, 8])
        square = None
        big = rng.random() < 0.05
        for _ in range(12):
            if big:
                s = fg.renamed(fg.grown_spec(rng, rng.randrange(9, 15), kind, rng.choice([1, 2, 2, 3]))[0], rng)
                og = s.build(rng, "concrete")
                flow = getattr(og, SEARCH[kind])()
                break
            s = fg.flowish_spec(rng, size, labels) if rng.random() < 0.75 else fg.random_spec(rng, size, labels)
            if rng.random() < 0.85 and len(s.ins) != len(s.outs) and len(s.outs) <= size // 2 + 1:
                # prefer unitaries: spread inputs
                k = len(s.outs)
                s.ins = rng.sample(s.nodes, min(k, len(s.nodes)))
            s = fg.renamed(s, rng)
            og = s.build(rng, "concrete")
            flow = getattr(og, SEARCH[kind])()
            if flow is not None and s.outs:
                square = len(s.ins) == len(s.outs)
                if square or rng.random() < 0.3:
                    break
            flow = None
        if flow is None or len(s.outs) > 4:
            continue
        cid = f"{kind}{i}"
        org = {"graph": repr(s), "measurements": repr(og.measurements), "flow": repr(flow.correction_function), "layers": repr(flow.partial_order_layers)}
        nz = len(s.ins) == len(s.outs)
        zero = dump.opengraph(og)
        rels = [rel(x) for x in dump.measured(zero)]
        outs = list(og.output_nodes)
        # an unfocused flow is refused, never extracted wrongly
        if not flow.is_focused():
            er, err = observe(chk, cid, flow.extract_circuit, org, expect=(ValueError,))
            if er is not None:
                chk.violate(cid, "unfocused-accepted", org)
            else:
                kinds["refused"] = kinds.get("refused", 0) + 1
            if kind != "c":
                chk.violate(cid, "search-unfocused", org)
            flow = og.to_pauliflow() if kind != "c" else og.to_gflow()
            if flow is None:
                continue
            org["flow"], org["layers"] = repr(flow.correction_function), repr(flow.partial_order_layers)
        er, err = observe(chk, cid, flow.extract_circuit, org)
        if err is not None:
            continue
        org["pexps"] = repr({k: (float(v.angle), str(v.pauli_string)) for k, v in er.pexp_dag.pauli_exponentials.items()})
        org["map"] = repr(([str(x) for x in er.clifford_map.x_map], [str(x) for x in er.clifford_map.z_map]))
        if set(er.pexp_dag.pauli_exponentials) != set(og.measurements) or list(er.pexp_dag.output_nodes) != outs \
                or list(er.clifford_map.output_nodes) != outs or list(er.clifford_map.input_nodes) != list(og.input_nodes) \
                or len(er.clifford_map.x_map) != len(og.input_nodes) or len(er.clifford_map.z_map) != len(og.input_nodes):
            chk.violate(cid, "ports", org)
            continue
        # (3) the Clifford map: C P_in = map(P_in) C with C = (exponentials)^-1 . M
        inv = pexps(rng, er.pexp_dag, outs, True)
        B0 = extended(zero, [], inv)
        for q, nd in enumerate(og.input_nodes):
            for ax, m in (("X", er.clifford_map.x_map), ("Z", er.clifford_map.z_map)):
                if rng.random() < (0.5 if quick else 1.0):
                    sg = rng.randrange(2)
                    pr = proj(m[q], outs)
                    pr["a"] ^= sg
                    A = extended(zero, [{"k": "G", "g": "PROJ", "q": [int(nd)], "ax": [ax], "a": sg}], inv)
                    B = extended(zero, [], [*inv, pr])
                    add(case(f"{cid}{ax}{q}", A, B, rels, [[[x, 0] for x in dump.measured(A)]], ka=0, kb=0), org, "clifford-map")
        if not nz:
            _, err = observe(chk, cid, er.to_circuit, org, expect=(NotImplementedError,))
            continue
        # (2) circuit of the Clifford map, then the exponentials
        cm, err = observe(chk, cid, lambda: er.to_circuit(pexp_cp=lambda _d, _c: None), org)
        if err is None and cm.width == len(outs):
            bad = [x.kind.name for x in cm.instruction if x.kind.name not in {"H", "S", "X", "Y", "Z", "CNOT", "SWAP", "CZ", "I"}]
            if bad:
                chk.violate(cid, "clifford-circuit-gates", {**org, "gates": bad})
            A, ms = dump.circuit(cm)
            A["cmds"] = A["cmds"] + pexps(rng, er.pexp_dag, A["outputs"], False)
            add(case(cid + "d", A, zero, rels, [[]], nz=1), {**org, "cm": repr(cm)}, "exponentials")
        # (1) the whole circuit
        which = rng.randrange(2)
        circ, err = observe(chk, cid, (lambda: er.to_circuit()) if which or kind != "p" else (lambda: og.to_circuit()), org)
        if err is not None:
            continue
        if circ.width != len(outs):
            chk.violate(cid, "width", {**org, "circuit": repr(circ)})
            continue
        A, ms = dump.circuit(circ)
        add(case(cid + "c", A, zero, rels, [[]], nz=1), {**org, "circuit": repr(circ)}, "circuit")
        # ... and against the pattern of the flow, on one random branch
        if rng.random() < 0.25:
            pat, err = observe(chk, cid, og.to_pattern, org)
            if err is None:
                B = dump.pattern(pat)
                bs = [rel(x, c=rng.randrange(2)) for x in dump.measured(B)]
                add(case(cid + "p", A, B, bs, [[]], nz=1), {**org, "circuit": repr(circ), "pattern": repr(pat)}, "pattern")
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())), kinds=kinds)
