"""P08: flow search is sound and complete."""
from __future__ import annotations

import random
import warnings

from .. import flowgen as fg
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ model of causal/generalised/Pauli flow (Flow.tla); TLC decides existence and conditions for every open graph searched by the code"
NOTE = ("All open graphs up to 2 (thorough: 3) nodes with every label, input and output choice, plus seeded random ones up to 9 (12) nodes, causal ones up to 20, and graphs of 10 to 26 nodes grown together with a flow; TLC builds flows from their "
        "definition and compares existence, and checks every condition on the flow the code returned. Bounded size; trusts TLC.")
SEARCH = {"c": "to_causalflow_or_none", "g": "to_gflow_or_none", "p": "to_pauliflow_or_none"}


COUNTS = ([("c", 4, 400), ("c", 5, 400), ("c", 6, 500), ("c", 8, 400), ("c", 12, 100), ("c", 20, 60), ("g", 3, 600), ("g", 4, 800), ("g", 5, 900), ("g", 6, 700), ("g", 8, 300), ("g", 9, 150),
           ("p", 3, 800), ("p", 4, 900), ("p", 5, 900), ("p", 6, 700), ("p", 8, 250), ("p", 9, 100)],
          [("c", 4, 2000), ("c", 6, 6000), ("c", 8, 6000), ("c", 10, 3000), ("c", 14, 1500), ("c", 20, 800), ("g", 4, 6000), ("g", 5, 8000), ("g", 6, 8000), ("g", 7, 6000), ("g", 8, 5000), ("g", 10, 1500), ("g", 12, 300),
           ("p", 4, 9000), ("p", 5, 10000), ("p", 6, 8000), ("p", 7, 5000), ("p", 8, 3000), ("p", 10, 800), ("p", 12, 150)])


def specs(rng, quick, n_all, counts):
    """(id, kind, spec) triples."""
    for n in range(1, n_all + 1):
        for i, s in enumerate(fg.enumerate_specs(n, fg.PLANES)):
            for k in "cg":
                if k == "g" or set(s.lab.values()) <= {"XY"}:
                    yield f"{k}{n}-{i}", k, s
        for i, s in enumerate(fg.enumerate_specs(n, fg.PLANES + fg.AXES)):
            yield f"p{n}-{i}", "p", s
    for kind, n, cnt in counts:
        for i in range(cnt):
            labels = {"c": ["XY"], "g": fg.PLANES, "p": fg.PLANES + fg.AXES}[kind]
            r = rng.random()
            if r < 0.45:
                s = fg.flowish_spec(rng, n, labels, extra=rng.choice([0, 1, 2]))
            elif r < 0.8 and n >= 3:
                no = rng.randrange(1, n)
                s = fg.random_spec(rng, n, labels, n_out=no, n_in=rng.choice([0, 0, max(0, no - 2), max(0, no - 1), no]))
            else:
                s = fg.random_spec(rng, n, labels)
            yield f"{kind}r{n}-{i}", kind, fg.renamed(s, rng)


def searched(chk, rng, it, all_for=lambda n: False):
    cases, meta = [], {}
    for cid, kind, s in it:
        style = "concrete" if rng.random() < 0.4 else "abstract"
        og = s.build(rng, style)
        flow, err = observe(chk, cid, lambda: getattr(og, SEARCH[kind])(), repr(s))
        if err is not None:
            continue
        cases.append(fg.search_case(cid, s, kind, flow, 1 if all_for(len(s.nodes)) and rng.random() < 0.3 else 0))
        meta[cid] = {"search": SEARCH[kind], "graph": repr(s), "result": repr(getattr(flow, "correction_function", None))}
        if style == "concrete" and kind == "p":
            # The pattern and the corrections obtained through the search exist exactly when the flow does.
            from graphix.flow.exceptions import FlowError
            from graphix.opengraph import OpenGraphError

            pat, err = observe(chk, cid, lambda: og.to_pattern(), repr(s), expect=(OpenGraphError, FlowError))
            if (pat is None) != (flow is None):
                chk.violate(cid, "to_pattern-existence", {"graph": repr(s), "error": repr(err), "flow": repr(flow)})
    return cases, meta


BIG = ({"c": 60, "g": 150, "p": 200}, {"c": 600, "g": 2500, "p": 3000})


def grown(chk, rng, counts):
    """Larger open graphs that have a flow by construction."""
    cases, meta = [], {}
    for kind, cnt in counts.items():
        for i in range(cnt):
            s, c = fg.cert_case(f"{kind}big-{i}", rng, kind, rng.randrange(10, 27))
            og = s.build(rng, "concrete" if rng.random() < 0.4 else "abstract")
            flow, err = observe(chk, c["id"], lambda: getattr(og, SEARCH[kind])(), repr(s))
            if err is not None:
                continue
            if flow is not None:
                c |= {"ok": 1, "f": fg.cf_json(flow.correction_function), "fl": fg.layers_json(flow.partial_order_layers)}
            cases.append(c)
            meta[c["id"]] = {"search": SEARCH[kind], "graph": repr(s), "known": c["c"], "result": repr(getattr(flow, "correction_function", None))}
    return cases, meta


def run(chk):
    warnings.simplefilter("ignore")
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 15485863 + 8)
    counts = COUNTS[0 if quick else 1]
    cases, meta = searched(chk, rng, specs(rng, quick, 2 if quick else 3, counts), lambda n: n <= 4)
    more, mm = grown(chk, rng, BIG[0 if quick else 1])
    cases += more
    meta |= mm
    res = run_batch("Flow", cases, coverage=True, timeout=800 if quick else 7000, chunk=20000)
    for k in list(res.fail):
        res.fail[k] = [r for r in res.fail[k] if r["c"] not in ("depth", "focus")]
        if not res.fail[k]:
            del res.fail[k]
    chk.absorb(res, cases, meta)
    nf = sum(c["ok"] for c in cases)
    chk.cov.update(grown=len(more), graphs=len(cases), with_flow=nf, without_flow=len(cases) - nf)
