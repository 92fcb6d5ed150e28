"""P12: open graphs, corrections and flows extracted from patterns."""
from __future__ import annotations

import random
import warnings

from .. import dump, gen
from .. import flowgen as fg
from ..tlc import run_batch
from ..util import branches, case, observe, rel
from .p08 import SEARCH
from .p10 import ind_corrections, xz_json
from .p11 import linear_extension

LEVEL = "translation_validation"
TECHNIQUE = "TLA+: MBQC.tla compares every branch of pattern and regenerated pattern; Flow.tla judges graph, corrections and flow extracted (soundness and existence)"
NOTE = ("Random runnable patterns, flow-generated patterns and compiled circuits after random rewriting; TLC compares extracted open graph and corrections on every branch, and decides from the definitions "
        "whether a causal, generalised or Pauli flow could be read off and whether the one returned is right. Trusts TLC and the generator's reach.")


def label(m) -> str:
    from graphix.measurements import PauliMeasurement

    from graphix.fundamentals import Axis, Plane

    if isinstance(m, (Axis, Plane)):
        return m.name
    return m.axis.name if isinstance(m, PauliMeasurement) else m.plane.name


def og_json(og) -> dict:
    return {"V": [int(v) for v in og.graph.nodes], "E": [[int(a), int(b)] for a, b in og.graph.edges], "I": [int(v) for v in og.input_nodes],
            "O": [int(v) for v in og.output_nodes], "lab": [[int(n), label(m)] for n, m in og.measurements.items()]}


def source(rng, i):
    """A pattern, and whether it is deterministic."""
    k = i % 5
    if k == 0:
        p = gen.compiled_pattern(rng, rng.choice([1, 2, 2]), rng.randrange(1, 5))
        det = True
    elif k <= 2:
        while True:
            labels = rng.choice([["XY"], fg.PLANES, fg.PLANES + fg.AXES])
            s = fg.renamed(fg.flowish_spec(rng, rng.choice([3, 4, 5, 6]), labels), rng)
            og = s.build(rng, "concrete")
            kind = rng.choice("gp") if set(s.lab.values()) <= set(fg.PLANES) else "p"
            flow = getattr(og, SEARCH[kind])()
            if kind == "g" and rng.random() < 0.4:
                flow = og.to_causalflow_or_none() or flow
            if flow is not None:
                p = flow.to_xzcorrections().to_pattern(linear_extension(rng, flow.partial_order_layers, s.lab))
                det = True
                break
    else:
        return gen.small_pattern(rng, cliffords=rng.choice([0, 0, 0.3]), planes=rng.choice([("XY",), ("XY", "XZ", "YZ")])), False, "random"
    how = rng.choice(["as is", "as is", "standardize", "shift", "minimize", "infer"])
    if how == "standardize":
        p.standardize()
    elif how == "shift":
        p.standardize()
        p.shift_signals()
    elif how == "minimize":
        p.minimize_space()
    elif how == "infer":
        p = p.infer_pauli_measurements(copy=True)
    return p, det, how


def run(chk):
    from graphix.flow.core import XZCorrections
    from graphix.flow.exceptions import FlowError, XZCorrectionsError
    from graphix.measurements import PauliMeasurement

    warnings.simplefilter("ignore")
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 86028121 + 12)
    n = 600 if quick else 14000
    mb, fl, meta = [], [], {}
    stat: dict[str, int] = {}
    for i in range(n):
        p, det, how = source(rng, i)
        cid, org = f"p{i}", {"pattern": repr(p), "rewriting": how}
        meta[cid] = org
        before = gen.rebuild(p)
        og, err = observe(chk, cid, p.to_opengraph, org, expect=(NotImplementedError,))
        if err is not None:
            continue
        cmds = dump.pattern(p, False)["cmds"]
        fl.append({"id": f"{cid}-og", "t": "og", "kind": "p", "all": 0, "ok": 1, **og_json(og), "pI": p.input_nodes, "pO": p.output_nodes,
                   "pN": [c["n"] for c in cmds if c["k"] == "N"], "pE": [[c["a"], c["b"]] for c in cmds if c["k"] == "E"],
                   "pM": [c["n"] for c in cmds if c["k"] == "M"]})
        if all(c["k"] != "C" for c in cmds) and any(og.measurements[c.node] != c.measurement for c in p if c.kind.name == "M"):
            chk.violate(cid, "measurements", org)
        xz, err = observe(chk, cid, p.to_xzcorrections, org)
        if err is not None:
            continue
        B = dump.pattern(p)
        q, err = observe(chk, cid, xz.to_pattern, org)
        if err is None:
            A = dump.pattern(q)
            c = case(f"{cid}-xz", A, B, [rel(m, [m]) for m in dump.measured(B)], branches(rng, dump.measured(A), 8), ka=0, kb=0)
            if q.input_nodes != p.input_nodes or q.output_nodes != p.output_nodes:
                chk.violate(cid, "xz-ports", org)
            elif chk.affordable(c):
                mb.append(c)
                meta[c["id"]] = org
        xzbase = {"all": 0, "x": xz_json(xz.x_corrections), "z": xz_json(xz.z_corrections), "layers": fg.layers_json(xz.partial_order_layers)}
        for kind, name in (("c", "to_causalflow"), ("g", "to_gflow"), ("p", "to_pauliflow")):
            src = p
            if kind != "p" and any(isinstance(m, PauliMeasurement) for m in og.measurements.values()):
                src = p.to_bloch()
            f, err = observe(chk, f"{cid}-{kind}", getattr(src, name), org, expect=(FlowError,))
            if err is not None and not isinstance(err, FlowError):
                continue
            stat[f"{kind}:{'flow' if f is not None else 'none'}"] = stat.get(f"{kind}:{'flow' if f is not None else 'none'}", 0) + 1
            sog = og if src is p else src.to_opengraph()
            fl.append({"id": f"{cid}-{kind}", "t": "rec" if kind == "p" else "ext", "kind": kind, **og_json(sog), **xzbase, "ok": int(f is not None),
                       "c": [] if f is None else fg.cf_json(f.correction_function)})
            meta[f"{cid}-{kind}"] = {**org, "flow": repr(f and f.correction_function)}
            if f is not None:
                if [set(a) for a in f.partial_order_layers] != [set(a) for a in xz.partial_order_layers]:
                    chk.violate(f"{cid}-{kind}", "layers", org)
                if det:
                    q, err = observe(chk, f"{cid}-{kind}", lambda: f.to_xzcorrections().to_pattern(), org)
                    if err is None:
                        A = dump.pattern(q)
                        c = case(f"{cid}-{kind}", A, B, [rel(m) for m in dump.measured(B)], branches(rng, dump.measured(A), 8), ka=0, kb=0, nz=1)
                        if chk.affordable(c):
                            mb.append(c)
        if p != before:
            chk.violate(cid, "argument-modified", org)
    # Pauli flows reconstructed from corrections that come from no pattern
    for i in range(1200 if quick else 30000):
        labels = fg.PLANES + fg.AXES + fg.AXES
        s = fg.renamed((fg.flowish_spec if rng.random() < 0.7 else fg.random_spec)(rng, rng.choice([2, 3, 4, 5]), labels), rng)
        og = s.build(rng, rng.choice(["abstract", "concrete"]))
        flow = og.to_pauliflow_or_none()
        if flow is not None and rng.random() < 0.75:
            xz = flow.to_xzcorrections()
            x, z = ({k: set(v) for k, v in d.items()} for d in (xz.x_corrections, xz.z_corrections))
            if rng.random() < 0.6 and s.lab:
                d = rng.choice([x, z])
                d.setdefault(rng.choice(sorted(s.lab)), set()).symmetric_difference_update({rng.choice(s.nodes)})
        else:
            x, z = ind_corrections(rng, s)
        cid, org = f"r{i}", {"graph": repr(s), "x": repr(x), "z": repr(z)}
        xz, err = observe(chk, cid, lambda: XZCorrections.from_measured_nodes_mapping(og, x, z), org, expect=(XZCorrectionsError,))
        if xz is None:
            continue
        f, err = observe(chk, cid, xz.to_pauliflow, org, expect=(FlowError,))
        if err is not None and not isinstance(err, FlowError):
            continue
        fl.append({"id": cid, "t": "rec", "kind": "p", "all": 0, **og_json(og), "x": xz_json(x), "z": xz_json(z), "layers": fg.layers_json(xz.partial_order_layers),
                   "ok": int(f is not None), "c": [] if f is None else fg.cf_json(f.correction_function)})
        fl[-1]["lab"] = s.base()["lab"]
        meta[cid] = {**org, "flow": repr(f and f.correction_function)}
        stat[f"r:{'flow' if f is not None else 'none'}"] = stat.get(f"r:{'flow' if f is not None else 'none'}", 0) + 1
    res = run_batch("Flow", fl, coverage=True, timeout=800 if quick else 7000, chunk=30000)
    chk.absorb(res, fl, meta)
    res = run_batch("MBQC", mb, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, mb, meta)
    chk.cov.update(programs=len(mb), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())), extractions=stat)
