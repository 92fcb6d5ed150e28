"""P10: well-formedness checks of flows and corrections."""
from __future__ import annotations

import random
import warnings

from .. import flowgen as fg
from ..tlc import run_batch
from ..util import observe
from .p08 import SEARCH

LEVEL = "model_checking"
TECHNIQUE = "TLA+ definitions of flows and XZ-corrections (Flow.tla); TLC judges verdict and reported reason of every check run on valid, mutated and random objects"
NOTE = ("Flows found on seeded random open graphs (1 to 6 nodes), every kind of mutation of correction sets and layers, and unstructured random objects; TLC evaluates the definition and that the "
        "reported clause is violated. Bounded size; trusts TLC.")


def mutate(rng, s, c, layers, nmut):
    """Random edits of a correction function and a layering."""
    c = {k: set(v) for k, v in c.items()}
    ls = [set(l) for l in layers]
    nodes = list(s.nodes)
    for _ in range(nmut):
        k = rng.randrange(14)
        u = rng.choice(sorted(c)) if c else None
        if k <= 3 and u is not None:
            c[u] ^= {rng.choice(nodes)}
        elif k == 4 and u is not None:
            c[u] = {v for v in nodes if rng.random() < 0.4}
        elif k == 5 and u is not None and rng.random() < 0.4:
            del c[u]
        elif k == 6 and rng.random() < 0.4:
            c[rng.choice([*nodes, 77])] = {rng.choice(nodes)}
        elif k == 7 and ls:
            i = rng.randrange(len(ls))
            if ls[i]:
                v = rng.choice(sorted(ls[i]))
                ls[i].discard(v)
                j = rng.randrange(len(ls) + 1)
                if j == len(ls):
                    ls.append({v})
                else:
                    ls[j].add(v)
        elif k == 8 and len(ls) >= 2:
            i, j = rng.sample(range(len(ls)), 2)
            ls[i], ls[j] = ls[j], ls[i]
        elif k == 9 and len(ls) >= 2:
            i = rng.randrange(len(ls) - 1)
            ls[i] |= ls.pop(i + 1)
        elif k == 10 and rng.random() < 0.4:
            ls.insert(rng.randrange(len(ls) + 1), set())
        elif k == 11 and ls and rng.random() < 0.5:
            rng.choice(ls).add(rng.choice(nodes))
        elif k == 12 and ls and rng.random() < 0.5:
            l = rng.choice(ls)
            if l and rng.random() < 0.7:
                l.discard(rng.choice(sorted(l)))
            else:
                l.add(77)
        elif k == 13:
            if u is not None and rng.random() < 0.3:
                c[u] ^= {77}
            elif rng.random() < 0.1:
                ls = []
            elif ls and rng.random() < 0.5:
                i = rng.randrange(len(ls))
                for v in sorted(ls[i]):
                    if rng.random() < 0.5 and len(ls[i]) > 1:
                        ls[i].discard(v)
                        ls.insert(i + 1, {v})
                        break
    return c, [frozenset(l) for l in ls]


def random_object(rng, s):
    meas = [v for v in s.nodes if v not in s.outs]
    c = {u: {v for v in s.nodes if (v not in s.ins or rng.random() < 0.05) and rng.random() < 0.45} for u in meas}
    rng.shuffle(meas)
    ls = [frozenset(s.outs)] if s.outs else []
    while meas:
        k = rng.randrange(1, 3)
        ls.append(frozenset(meas[:k]))
        meas = meas[k:]
    return c, ls


def ind_corrections(rng, s):
    """Random correction dictionaries, sometimes ill formed."""
    meas = [v for v in s.nodes if v not in s.outs]
    order = list(meas)
    rng.shuffle(order)
    pos = {v: i for i, v in enumerate(order)}
    out = []
    for _ in range(2):
        d = {}
        for u in meas:
            if rng.random() < 0.6:
                d[u] = {v for v in s.nodes if (v in s.outs or pos[v] > pos[u]) and rng.random() < 0.5}
        if rng.random() < 0.1 and d:
            d[rng.choice(sorted(d))].add(rng.choice([77, *s.nodes]))
        if rng.random() < 0.05:
            d[rng.choice([77, *s.nodes])] = {rng.choice(s.nodes)}
        out.append({k: v for k, v in d.items()})
    return out


def xz_json(d):
    return [[int(k), sorted(int(x) for x in v)] for k, v in d.items()]


def run(chk):
    from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
    from graphix.flow.exceptions import FlowError, XZCorrectionsError

    warnings.simplefilter("ignore")
    CLS = {"c": CausalFlow, "g": GFlow, "p": PauliFlow}
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 49979687 + 10)
    n = 2000 if quick else 60000
    cases, meta = [], {}

    def add(cid, case, org):
        cases.append({"id": cid, **case})
        meta[cid] = org

    reasons: dict[str, int] = {}
    for i in range(n):
        kind = "cgp"[i % 3]
        labels = {"c": ["XY"] if rng.random() < 0.9 else fg.PLANES, "g": fg.PLANES, "p": fg.PLANES + fg.AXES}[kind]
        size = rng.choice([1, 2, 3, 3, 4, 4, 5, 6]) if i % 50 else 0
        if size == 0:
            s = fg.Spec([], [], [], [], {})
        else:
            s = fg.flowish_spec(rng, size, labels) if rng.random() < 0.7 else fg.random_spec(rng, size, labels)
            s = fg.renamed(s, rng)
        style = "concrete" if rng.random() < 0.4 else "abstract"
        og = s.build(rng, style)
        flow = getattr(og, SEARCH[kind])()
        variants = [random_object(rng, s)] if s.nodes else [({}, [frozenset()] if rng.random() < 0.5 else [])]
        if flow is not None and s.nodes:
            c0 = {k: set(v) for k, v in flow.correction_function.items()}
            l0 = list(flow.partial_order_layers)
            variants += [(c0, l0)] + [mutate(rng, s, c0, l0, rng.choice([1, 1, 1, 2, 3])) for _ in range(4)]
            # a finer, still well-formed layering
            fine = [l0[0]] if s.outs else []
            for l in l0[len(fine):]:
                ns = sorted(l)
                rng.shuffle(ns)
                fine += [frozenset({v}) for v in ns] if rng.random() < 0.6 else [frozenset(ns)]
            variants.append((c0, fine))
        for j, (c, ls) in enumerate(variants):
            cid = f"{kind}{i}-{j}"
            org = {"graph": repr(s), "c": repr(c), "layers": repr(ls), "kind": kind}
            fl = CLS[kind](og, {k: frozenset(v) for k, v in c.items()}, tuple(ls))
            _, err = observe(chk, cid, fl.check_well_formed, org, expect=(FlowError,))
            if err is not None and not isinstance(err, FlowError):
                continue
            wf, err2 = observe(chk, cid, fl.is_well_formed, org)
            if err2 is None and wf != (err is None):
                chk.violate(cid, "is_well_formed", org)
            r = fg.NOREASON if err is None else fg.reason(err)
            reasons[r["why"]] = reasons.get(r["why"], 0) + 1
            base = {"kind": kind, "all": 0, "c": fg.cf_json(c), "layers": fg.layers_json(ls), **s.base()}
            add(cid, {"t": "wf", "ok": int(err is None), "r": r, **base}, org)
            known = set(s.nodes)
            if set(c) == known - set(s.outs) and all(set(v) <= known for v in c.values()):
                foc, err3 = observe(chk, cid + "f", fl.is_focused, org)
                if err3 is None:
                    add(cid + "f", {"t": "foc", "ok": int(foc), **base}, org)
            if err is None:
                # corrections of a well-formed flow, their own check, and compatible orders
                xz, err4 = observe(chk, cid + "x", fl.to_xzcorrections, org)
                if err4 is None:
                    if layers_differ(xz.partial_order_layers, ls):
                        chk.violate(cid + "x", "correction-layers", org)
                    add(cid + "x", {"t": "cor", "ok": 1, "x": xz_json(xz.x_corrections), "z": xz_json(xz.z_corrections), **base}, org)
                    _, err5 = observe(chk, cid + "x", xz.check_well_formed, org)
                    orders(chk, rng, cid, s, xz, base, add, org)
        # XZ-corrections
        if s.nodes:
            cid = f"x{i}"
            x, z = ind_corrections(rng, s)
            org = {"graph": repr(s), "x": repr(x), "z": repr(z)}
            base = {"kind": kind, "all": 0, "x": xz_json(x), "z": xz_json(z), "c": [], **s.base()}
            fx, fz = ({k: frozenset(v) for k, v in d.items()} for d in (x, z))
            xz, err = observe(chk, cid, lambda: XZCorrections.from_measured_nodes_mapping(og, fx, fz), org, expect=(XZCorrectionsError,))
            if err is None or isinstance(err, XZCorrectionsError):
                ls = [] if xz is None else xz.partial_order_layers
                r = fg.NOREASON if err is None else fg.reason(err)
                reasons["ind:" + r["why"]] = reasons.get("ind:" + r["why"], 0) + 1
                add(cid, {"t": "ind", "ok": int(err is None), "r": r, "layers": fg.layers_json(ls), **base}, org)
                if xz is not None:
                    orders(chk, rng, cid, s, xz, {**base, "layers": fg.layers_json(ls)}, add, org)
            good = xz.partial_order_layers if xz is not None else random_object(rng, s)[1]
            for j in range(2):
                _, ls = mutate(rng, s, {}, good, rng.choice([0, 1, 1, 2]))
                cid = f"y{i}-{j}"
                org = {"graph": repr(s), "x": repr(x), "z": repr(z), "layers": repr(ls)}
                obj = XZCorrections(og, fx, fz, ls)
                _, err = observe(chk, cid, obj.check_well_formed, org, expect=(XZCorrectionsError,))
                if err is None or isinstance(err, XZCorrectionsError):
                    r = fg.NOREASON if err is None else fg.reason(err)
                    reasons["xz:" + r["why"]] = reasons.get("xz:" + r["why"], 0) + 1
                    add(cid, {"t": "xz", "ok": int(err is None), "r": r, "layers": fg.layers_json(ls), **base}, org)
    res = run_batch("Flow", cases, coverage=True, timeout=800 if quick else 7000, chunk=30000)
    chk.absorb(res, cases, meta)
    chk.cov.update(objects=len(cases), reported_reasons=reasons)


def layers_differ(a, b):
    return [set(x) for x in a] != [set(x) for x in b]


def orders(chk, rng, cid, s, xz, base, add, org):
    """Compatibility of total measurement orders with the layers; the generated order must be compatible."""
    gen, err = observe(chk, cid + "g", xz.generate_total_measurement_order, org)
    cands = []
    if err is None:
        cands.append((list(gen), True))
    o = [v for v in s.nodes if v not in s.outs]
    rng.shuffle(o)
    cands.append((o, False))
    if err is None and len(gen) >= 2:
        g = list(gen)
        i = rng.randrange(len(g) - 1)
        g[i], g[i + 1] = g[i + 1], g[i]
        cands.append((g, False))
        if rng.random() < 0.3:
            cands.append((g[:-1] + [rng.choice(g)], False))
            cands.append((g + [g[0]], False))
    for j, (o, must) in enumerate(cands):
        k = f"{cid}o{j}"
        ok, err = observe(chk, k, lambda: xz.is_compatible(o), {**org, "order": o})
        if err is None:
            if must and not ok:
                chk.violate(k, "generated-order-incompatible", {**org, "order": o})
            add(k, {"t": "ord", "ok": int(bool(ok)), "order": [int(v) for v in o], **base}, {**org, "order": o})
