"""P35: sequences of rewriting passes."""
from __future__ import annotations

import random
import warnings

from .. import dump, gen
from .. import flowgen as fg
from ..tlc import generate, run_batch
from ..util import branches, case, observe, rel
from .p02 import ORDER, pair, refused
from .p03 import DEP
from .p04 import leftover
from .p08 import SEARCH
from .p11 import linear_extension

LEVEL = "model_checking"
TECHNIQUE = "TLA+: Pipeline.tla (facts guaranteed by each pass) enumerated by TLC, every pass sequence replayed on real patterns with each fact looked up after each pass; MBQC.tla compares every branch of the final pattern with the original"
NOTE = ("Compiled circuits and patterns of flows through sequences of 25 documented passes enumerated by TLC (all pairs, sampled longer ones); the guaranteed facts, runnability and ports are looked up on the "
        "real pattern after every pass, and TLC compares the final pattern with the original. The passes that only split or drop domains are also compared branch by branch on arbitrary patterns. "
        "Trusts TLC and the generator's reach.")

PASSES = ["standardize", "optimize", "shift", "shift mc", "infer", "infer copy", "bloch", "bloch copy", "push", "push copy", "push standard", "remove", "remove copy",
          "remove standard", "unclifford", "unclifford copy", "parallel", "space", "space copy", "space degree", "space same", "space optimal", "reindex", "reindex copy",
          "copy", "useless", "single", "inputs", "corrections"]


def apply(name, p, rng):
    """Perform a pass; returns (result, what p must still look like or None)."""
    from graphix import optimization as opt
    from graphix.space_minimization import SpaceMinimizationHeuristics as H

    def inplace(f):
        f()
        return p

    def names():
        ns = sorted(p.nodes())
        new = rng.sample(range(3 * len(ns) + 2), len(ns))
        return dict(zip(ns, new))

    std = opt.StandardizedPattern.from_pattern
    return {
        "standardize": lambda: inplace(p.standardize), "optimize": lambda: opt.standardize(p),
        "shift": lambda: inplace(p.shift_signals), "shift mc": lambda: inplace(lambda: p.shift_signals("mc")),
        "infer": lambda: p.infer_pauli_measurements(), "infer copy": lambda: p.infer_pauli_measurements(copy=True),
        "bloch": lambda: p.blochify(), "bloch copy": lambda: p.to_bloch(),
        "push": lambda: p.perform_pauli_pushing(), "push copy": lambda: p.perform_pauli_pushing(copy=True),
        "push standard": lambda: p.perform_pauli_pushing(copy=True, standardize=True),
        "remove": lambda: p.remove_pauli_measurements(), "remove copy": lambda: p.remove_pauli_measurements(copy=True),
        "remove standard": lambda: p.remove_pauli_measurements(copy=True, standardize=True),
        "unclifford": lambda: inplace(p.remove_local_clifford_commands), "unclifford copy": lambda: p.remove_local_clifford_commands(copy=True),
        "parallel": lambda: inplace(p.parallelize_pattern),
        "space": lambda: inplace(p.minimize_space), "space copy": lambda: p.minimize_space(copy=True),
        "space degree": lambda: p.minimize_space([H.greedy_degree], copy=True), "space same": lambda: p.minimize_space([], copy=True),
        "space optimal": lambda: std(p).to_space_optimal_pattern(),
        "reindex": lambda: (lambda r: r[0] if isinstance(r, tuple) else r)(p.reindex(names())),
        "reindex copy": lambda: (lambda r: r[0] if isinstance(r, tuple) else r)(p.reindex(names(), copy=True)),
        "copy": p.copy, "useless": lambda: opt.remove_useless_domains(p), "single": lambda: opt.single_qubit_domains(p),
        "inputs": lambda: inplace(p.remove_input_nodes), "corrections": lambda: p.to_xzcorrections().to_pattern(),
    }[name]


COPIES = {"optimize", "infer copy", "bloch copy", "push copy", "push standard", "remove copy", "remove standard", "unclifford copy", "space copy", "space degree", "space same",
          "space optimal", "reindex copy", "copy", "useless", "single", "corrections"}
RENAMES = {"reindex", "reindex copy", "unclifford", "unclifford copy"}
NEEDS_PLUS = {"parallel", "corrections", "space", "space copy", "space degree"}


def holds(fact, p, special) -> bool:
    from graphix.fundamentals import Axis, Sign
    from graphix.measurements import BlochMeasurement, PauliMeasurement

    cmds = list(p)
    ms = [c for c in cmds if c.kind.name == "M"]
    if fact in ("std", "strict"):
        rank = {**ORDER, **({"C": 3} if fact == "std" else {})}
        ks = [rank[c.kind.name] for c in cmds]
        return ks == sorted(ks) and p.is_standard(strict=fact == "strict")
    if fact == "sig":
        return not any({"s": c.s_domain, "t": c.t_domain}[DEP[dump.meas(c.measurement)[0]]] for c in ms)
    if fact == "noC":
        return all(c.kind.name != "C" for c in cmds)
    if fact == "bloch":
        return all(isinstance(c.measurement, BlochMeasurement) for c in ms)
    if fact == "inferred":
        return all(isinstance(c.measurement, PauliMeasurement) or c.measurement.to_pauli_or_none() is None for c in ms)
    if fact == "gone":
        return not leftover(p, special)
    if fact == "one":
        return all(len(d) <= 1 for c in cmds for d in ((c.s_domain, c.t_domain) if c.kind.name == "M" else (c.domain,) if c.kind.name in "XZ" else ()))
    if fact == "nox":
        return not any(isinstance(c.measurement, PauliMeasurement) and c.measurement.sign == Sign.PLUS
                       and {Axis.X: c.s_domain, Axis.Y: (), Axis.Z: c.t_domain}[c.measurement.axis] for c in ms)
    if fact == "noin":
        return not p.input_nodes
    if fact == "pushed":
        seen = False
        for c in ms:
            pauli = isinstance(c.measurement, PauliMeasurement)
            if pauli and (seen or c.s_domain or c.t_domain):
                return False
            seen |= not pauli
        return True
    if fact == "layered":
        depth = {}
        for c in ms:
            depth[c.node] = 1 + max([depth[x] for x in c.s_domain | c.t_domain], default=0)
        seq = [depth[c.node] for c in ms]
        return seq == sorted(seq)
    raise AssertionError(fact)


def source(rng):
    """A deterministic pattern."""
    from graphix import command
    from graphix.clifford import Clifford

    if rng.random() < 0.6:
        p = gen.compiled_pattern(rng, rng.choice([1, 2, 2]), rng.randrange(1, 4), ccx=0)
    else:
        while True:
            s = fg.renamed(fg.flowish_spec(rng, rng.choice([3, 4, 5]), rng.choice([["XY"], fg.PLANES, fg.PLANES + fg.AXES])), rng)
            og = s.build(rng, "concrete")
            flow = getattr(og, SEARCH["g" if set(s.lab.values()) <= set(fg.PLANES) and rng.random() < 0.5 else "p"])()
            if flow is not None:
                p = flow.to_xzcorrections().to_pattern(linear_extension(rng, flow.partial_order_layers, s.lab))
                break
    if rng.random() < 0.4:
        for o in p.output_nodes:
            if rng.random() < 0.7:
                p.add(command.C(o, Clifford(rng.randrange(24))))
    return p


def run(chk):
    from graphix.states import BasicStates

    warnings.simplefilter("ignore")
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 86028157 + 35)
    paths = []
    confs = [(PASSES, 2, None if not quick else 420)]
    for _ in range(3 if quick else 40):
        confs.append((sorted(rng.sample(PASSES, 7)), 4, 90 if quick else 500))
    confs.append((["standardize", "shift", "infer", "push", "remove", "unclifford", "space", "single"], 4 if quick else 5, 250 if quick else 4000))
    for passes, depth, cap in confs:
        recs, res = generate("Pipeline", [{"passes": list(passes), "len": depth, "init": []}], timeout=600)
        chk.states += res.states
        chk.distinct += res.distinct
        for a, v in res.coverage.items():
            chk.actions[a] = chk.actions.get(a, 0) + v
        ps = sorted((r["p"] for r in recs), key=lambda x: [y["p"] for y in x])     # TLC prints them in any order
        paths += ps if cap is None or len(ps) <= cap else rng.sample(ps, cap)
    cases, meta = [], {}
    done: dict[str, int] = {}
    for i, path in enumerate(paths):
        cid = f"q{i}"
        p = source(rng)
        org = gen.rebuild(p)
        info = {"pattern": repr(p), "passes": [x["p"] for x in path]}
        closed = False
        for k, step in enumerate(path):
            name, facts = step["p"], set(step["f"])
            nonplus = {c.node for c in p if c.kind.name == "N" and c.state != BasicStates.PLUS}
            olds = nonplus if name.startswith("remove") else None
            before = gen.rebuild(p)
            at = {**info, "at": k, "input": repr(before)}
            q, err = observe(chk, cid, apply(name, p, rng), at, expect=(ValueError,) if nonplus and name in NEEDS_PLUS else ())
            if err is not None:
                q = None
                break
            at["result"] = repr(q)
            done[name] = done.get(name, 0) + 1
            if name in COPIES and p != before:
                chk.violate(cid, "argument-modified", at)
            _, err = observe(chk, cid, q.check_runnability, at)
            if err is not None:
                q = None
                break
            closed |= name == "inputs"
            if name == "inputs":
                before.remove_input_nodes()
            if name not in RENAMES and (list(q.input_nodes) != list(before.input_nodes) or (set(q.output_nodes) != set(before.output_nodes) and not name.startswith("remove"))):
                chk.violate(cid, "ports", at)
            if name not in RENAMES and not name.startswith("remove") and q.output_nodes != before.output_nodes:
                chk.violate(cid, "output-order", at)
            if len(q.input_nodes) != len(before.input_nodes) or len(q.output_nodes) != len(before.output_nodes) or (closed and q.input_nodes):
                chk.violate(cid, "arity", at)
                q = None
                break
            special = set(q.input_nodes) | ({c.node for c in q if c.kind.name == "N" and c.state != BasicStates.PLUS} if olds is None else olds)
            for f in sorted(facts):
                if not holds(f, q, special):
                    chk.violate(cid, f"not-{f}", at)
            if q.n_node != len(q.nodes()):
                chk.violate(cid, "node-count", {**at, "n_node": q.n_node})
            p = q
        if q is None:
            chk.skipped += 1
            continue
        B = dump.pattern(org, False)
        if closed:
            B["cmds"] = [{"k": "N", "n": n, "st": "PLUS"} for n in B["inputs"]] + B["cmds"]
            B["inputs"] = []
        B["sched"] = dump.schedule(B)
        A = dump.pattern(p)
        c = case(cid, A, B, [rel(x, ()) for x in dump.measured(B)], branches(rng, dump.measured(A), 4 if quick else 16), nz=1)
        if not chk.affordable(c):
            continue
        meta[cid] = {**info, "result": repr(p)}
        cases.append(c)
    # the passes on domains and inputs, branch by branch, on patterns of any kind
    for i in range(450 if quick else 6000):
        p = gen.small_pattern(rng, cliffords=rng.choice([0, 0.2]), dom=rng.choice([0.5, 0.9]), pauli=rng.choice([0.3, 0.8]), n_meas=rng.choice([2, 3, 4]), n_new=rng.choice([3, 4, 5]))
        if rng.random() < 0.7:
            p = p.infer_pauli_measurements(copy=True)
        name = ("single", "useless", "inputs")[i % 3]
        cid, before = f"d{i}", gen.rebuild(p)
        info = {"pattern": repr(p), "pass": name}
        q, err = observe(chk, cid, apply(name, p, rng), info)
        if err is not None:
            continue
        info["result"] = repr(q)
        if name in COPIES and p != before:
            chk.violate(cid, "argument-modified", info)
        B = dump.pattern(before, False)
        if name == "inputs":
            B["cmds"] = [{"k": "N", "n": n, "st": "PLUS"} for n in B["inputs"]] + B["cmds"]
            B["inputs"] = []
        elif list(q.input_nodes) != list(before.input_nodes):
            chk.violate(cid, "ports", info)
            continue
        if list(q.output_nodes) != list(before.output_nodes):
            chk.violate(cid, "ports", info)
            continue
        B["sched"] = dump.schedule(B)
        if not holds({"single": "one", "useless": "nox", "inputs": "noin"}[name], q, set()):
            chk.violate(cid, "promise", info)
        c = pair(cid, before, q, rng, b=B)
        if not chk.affordable(c):
            continue
        meta[cid] = info
        cases.append(c)
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 9000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())), passes_performed=done)
    chk.assumptions.append("compiled circuits of up to 2 qubits and flow patterns of up to 5 nodes; sequences of up to 4 passes (5 in the thorough tier)")
