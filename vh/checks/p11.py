"""P11: patterns generated from a flow are deterministic."""
from __future__ import annotations

import random
import warnings

from .. import dump
from .. import flowgen as fg
from ..tlc import run_batch
from ..util import branches, case, observe, rel
from .p08 import SEARCH
from .p10 import mutate

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC: every branch of each generated pattern against the open graph with every node projected on outcome 0"
NOTE = ("Seeded random open graphs (up to 7 nodes, some of 9 to 14, all planes, axes, signs, output Cliffords), flows from every search and other well-formed flows (unfocused, finer layers), random admissible "
        "total orders; TLC runs every branch from a Choi state in exact finite-field arithmetic and checks map and weight. Trusts TLC and the generator's reach.")


def linear_extension(rng, layers, measured):
    o = []
    for l in reversed(layers):
        ns = sorted(n for n in l if n in measured)
        rng.shuffle(ns)
        o += ns
    return o


def determinism_case(cid, pat, og, rng, cap=32):
    A, B = dump.pattern(pat), dump.opengraph(og)
    return case(cid, A, B, [rel(n) for n in dump.measured(B)], branches(rng, dump.measured(A), cap), ka=0, kb=0, nz=1)


def run(chk):
    from graphix.clifford import Clifford
    from graphix.flow.core import CausalFlow, GFlow, PauliFlow
    from graphix.opengraph import OpenGraph

    warnings.simplefilter("ignore")
    CLS = {"c": CausalFlow, "g": GFlow, "p": PauliFlow}
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 67867967 + 11)
    n = 2400 if quick else 30000
    cases, meta, kinds = [], {}, {}
    for i in range(n):
        kind = "cgpp"[i % 4]
        labels = {"c": ["XY"], "g": fg.PLANES, "p": fg.PLANES + fg.AXES}[kind]
        size = rng.choice([2, 3, 3, 4, 4, 5, 5, 6, 7])
        s = fg.renamed(fg.flowish_spec(rng, size, labels) if rng.random() < 0.75 else fg.random_spec(rng, size, labels), rng)
        if rng.random() < 0.03:
            s = fg.renamed(fg.grown_spec(rng, rng.randrange(9, 15), kind, rng.choice([0, 1, 1, 2, 2, 2]))[0], rng)
        og = s.build(rng, "concrete")
        if s.outs and rng.random() < 0.2:
            og = OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements,
                           {o: Clifford(rng.randrange(24)) for o in s.outs if rng.random() < 0.6})
        flow = getattr(og, SEARCH[kind])()
        if flow is None:
            continue
        cid = f"{kind}{i}"
        c, ls = {k: set(v) for k, v in flow.correction_function.items()}, list(flow.partial_order_layers)
        variant = "search"
        r = rng.random()
        if r < 0.15:
            fine = ls[:1] if s.outs else []
            for l in ls[len(fine):]:
                ns = sorted(l)
                rng.shuffle(ns)
                fine += [frozenset({v}) for v in ns]
            flow, variant = CLS[kind](og, flow.correction_function, tuple(fine)), "finer"
        elif r < 0.55:
            for _ in range(6):
                c2, l2 = mutate(rng, s, c, ls, rng.choice([1, 2]))
                pos = {v: k for k, l in enumerate(l2) for v in l}
                for u in list(c2):
                    later = [w for w in c2 if pos.get(w, 9) < pos.get(u, 0)]
                    if later and rng.random() < 0.5:
                        c2[u] = c2[u] ^ c2[rng.choice(later)]
                f2 = CLS[kind](og, {k: frozenset(v) for k, v in c2.items()}, tuple(l2))
                if (c2 != c or l2 != ls) and f2.is_well_formed():
                    flow, variant = f2, "other"
                    break
        org = {"graph": repr(s), "cliffords": repr(og.output_cliffords), "flow": repr(flow.correction_function), "layers": repr(flow.partial_order_layers), "measurements": repr(og.measurements)}
        order = linear_extension(rng, flow.partial_order_layers, s.lab) if rng.random() < 0.6 else None
        org["order"] = order

        def go():
            xz = flow.to_xzcorrections()
            return xz.to_pattern(order) if order is not None else (og.to_pattern() if variant == "search" and rng.random() < 0.3 else xz.to_pattern())

        pat, err = observe(chk, cid, go, org)
        if err is not None:
            continue
        kinds[kind + ":" + variant] = kinds.get(kind + ":" + variant, 0) + 1
        if list(pat.input_nodes) != s.ins or list(pat.output_nodes) != s.outs:
            chk.violate(cid, "ports", {**org, "pattern": repr(pat)})
            continue
        if order is not None and [x.node for x in pat if x.kind.name == "M"] != order:
            chk.violate(cid, "order-not-respected", {**org, "pattern": repr(pat)})
        case_ = determinism_case(cid, pat, og, rng)
        if chk.affordable(case_):
            cases.append(case_)
            meta[cid] = {**org, "pattern": repr(pat)}
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())), flows=kinds)
