"""P19: the tensor-network back end agrees with the exact semantics."""
from __future__ import annotations

import random

import numpy as np

from .. import dump, gen, sim
from .. import simrun as sr
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification Sim.tla: TLC enumerates every measurement branch of each pattern or history of network operations with exact states and expectation values, and the tensor-network back end replays it"
NOTE = ("Random patterns from |+> inputs under the sequential, parallel and automatic preparation modes, followed by operators on the output; random histories of network operations (qubits, operators, "
        "measurements, graph states, copies); every query (state vector, basis coefficients, amplitudes, norm, expectation values, permuted indices) is compared. Probabilities are compared for isolated nodes; "
        "for other nodes the back end announces 1/2 by design.")
TOL = 1e-7


def expect(rec):
    return [complex(e[1], e[2]) / e[3] for e in rec["log"] if e[0] == "E"]


def permuted(v, outs, order):
    n = len(outs)
    return v.reshape([2] * n).transpose([outs.index(x) for x in order]).reshape(-1)


def hermitian(rng, k):
    m = sr.gmatrixn(rng, k) if k > 1 else sr.gmatrix(rng)
    return m + m.conj().T


def queries(rng, tn, outs, v, default):
    """Every read-only query of the network against the exact vector v over outs; returns what is wrong."""
    n = len(outs)
    if default:
        if not sim.same_vec(tn.to_statevector(), v, TOL):
            return f"to_statevector() = {tn.to_statevector()!r}, expected {v!r}"
        if rng.random() < 0.3 and not sim.same_vec(tn.flatten(), v, TOL):
            return f"flatten() = {tn.flatten()!r}, expected {v!r}"
    order = rng.sample(outs, n)
    w = permuted(v, outs, order)
    got = tn.to_statevector(order)
    if not sim.same_vec(got, w, TOL):
        return f"to_statevector({order}) = {got!r}, expected {w!r}"
    if rng.random() < 0.5:
        use = order if not default or rng.random() < 0.5 else None
        ref = w if use else v
        kw = {"indices": use} if use else {}
        raw = rng.random() < 0.3
        coef = np.array([tn.basis_coefficient(i if rng.random() < 0.6 else format(i, f"0{n}b") if n else "0", **({"normalize": False} if raw else {}), **kw) for i in range(1 << n)])
        if raw:
            nm = tn.norm()
            if not abs(np.linalg.norm(coef) - nm) < TOL * max(1, nm):
                return f"norm() = {nm}, expected {np.linalg.norm(coef)}"
            coef = coef / nm
        if not sim.same_vec(coef, ref, TOL) or abs(np.linalg.norm(coef) - 1) > TOL:
            return f"basis coefficients {coef!r}, expected {ref!r}"
    if default and rng.random() < 0.4:
        i = rng.randrange(1 << n)
        a = tn.basis_amplitude(i if rng.random() < 0.5 or n == 0 else format(i, f"0{n}b"))
        if not abs(a - abs(v[i]) ** 2) < TOL:
            return f"basis_amplitude({i}) = {a}, expected {abs(v[i]) ** 2}"
    return None


def tail(rng, outs):
    """Operators and expectation values on the output: specification commands and calls."""
    cmds, calls = [], []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.randrange(1, min(2, len(outs)) + 1)
        q = rng.sample(outs, k)
        m = sr.gmatrixn(rng, k) if k > 1 else sr.gmatrix(rng)
        cmds.append({"k": "OP", "q": q, "m": sr.ints(m)})
        calls.append(("evolve1" if k == 1 and rng.random() < 0.5 else "evolve", q, sr.unit(m), rng.random() < 0.7))
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.randrange(1, min(3, len(outs)) + 1)
        q = rng.sample(outs, k)
        m = hermitian(rng, k)
        cmds.append({"k": "EXP", "q": q, "m": sr.ints(m)})
        calls.append(("exp", q, m, rng.sample(outs, len(outs)) if rng.random() < 0.4 else rng.sample(outs, rng.randrange(k, len(outs) + 1)) if rng.random() < 0.3 else None))
    return cmds, calls


def do_calls(rng, tn, outs, calls, rec, skip_exp=False):
    exps = iter(expect(rec))
    for kind, q, m, opt in calls:
        if kind == "exp":
            want = next(exps)
            listed = opt if opt is not None and set(q) <= set(opt) else outs
            kw = {"output_node_indices": listed} if listed is not outs else {}
            op = m if rng.random() < 0.5 else m.reshape([2] * (2 * len(q)))
            if len(q) == 1 or rng.random() < 0.5:
                got = tn.expectation_value(op, [list(listed).index(x) for x in q], **kw)
            else:       # the same operator with its qubits listed in another order
                sh = rng.sample(range(len(q)), len(q))
                k = len(q)
                op2 = m.reshape([2] * (2 * k)).transpose([*sh, *[k + x for x in sh]]).reshape(1 << k, 1 << k)
                got = tn.expectation_value(op2, [list(listed).index(q[x]) for x in sh], **kw)
            if not abs(got - want) < TOL * max(1, np.abs(m).sum()):
                return f"expectation value of {m!r} on {q} (indices {listed}) = {got}, expected {want}"
        elif kind == "evolve1":
            tn.evolve_single(q[0], m)
        else:
            tn.evolve(m, [outs.index(x) for x in q], decompose=opt)
    return None


def replay(chk, rng, cid, p, mode, calls, rec, org, state):
    from graphix.sim.tensornet import TensorNetworkBackend
    from graphix.simulator import DefaultMeasureMethod, PatternSimulator

    log = sr.mlog(rec)
    sel = sr.make_script({e[1]: e[2] for e in log})
    mm = DefaultMeasureMethod()
    way = rng.randrange(3)
    outs = list(p.output_nodes)

    def go():
        g = np.random.default_rng(1)
        if way == 0:
            return p.simulate("tensornetwork", graph_prep=mode, branch_selector=sel, measure_method=mm, rng=g)
        if way == 1:
            s = PatternSimulator(p, "tensornetwork", graph_prep=mode, branch_selector=sel, measure_method=mm)
        else:
            s = PatternSimulator(p, TensorNetworkBackend(p, graph_prep=mode, branch_selector=sel), measure_method=mm)
        s.run(rng=g)
        return s.backend.state

    tn, err = observe(chk, cid, go, org, expect=(NotImplementedError,))
    if isinstance(err, NotImplementedError):
        try:        # patterns without open graph (a Clifford that does not commute with a later E) are refused
            p.to_opengraph()
        except NotImplementedError:
            chk.skipped += 1
        else:
            chk.violate(cid, "refused", {"origin": org, "error": str(err)})
        return False
    if tn is None:
        return False
    if [q for q, _ in sel.seen] != [e[1] for e in log] or {k: int(v) for k, v in mm.results.items()} != {e[1]: e[3] for e in log}:
        chk.violate(cid, "outcomes", {"origin": org, "seen": sel.seen, "recorded": mm.results, "expected": log})
        return False
    touched = {x for c in p for x in (c.nodes if hasattr(c, "nodes") else ())}
    for (q, pr), e in zip(sel.seen, log):
        exact = e[4] / (e[4] + e[5])
        if abs(pr - exact) > 1e-8 and (q not in touched or abs(pr - 0.5) > 1e-8):
            chk.violate(cid, "probability", {"origin": org, "node": q, "got": float(pr), "expected": exact})
            return False
    v = sim.vec(rec)

    def ask():
        nonlocal tn
        if rng.random() < 0.3:
            tn = tn.copy(deep=rng.random() < 0.3)
        if rng.random() < 0.1:
            junk = tn.copy(deep=True)       # the data is copied as well
            for t in junk.tensors:
                if t.data.flags.writeable:
                    t.data[...] = 0
        if rng.random() < 0.2 and outs:
            junk = tn.copy()
            junk.evolve_single(rng.choice(outs), np.array([[0, 1], [1, 0]]))
            junk.evolve(np.array([[1, 1], [1, -1]]) / 2 ** 0.5, [rng.randrange(len(outs))])
            if junk.default_output_nodes is not None:
                junk.default_output_nodes.reverse()
        return do_calls(rng, tn, outs, calls, rec) or queries(rng, tn, outs, v, True)

    before = list(map(repr, p))
    why, err = observe(chk, cid, ask, org)
    if err:
        return False
    if why:
        chk.violate(cid, "state", {"origin": org, "why": why, "behaviour": rec})
        return False
    if before != list(map(repr, p)):
        chk.violate(cid, "pattern-altered", {"origin": org})
        return False
    return True


# ---------------------------------------------------------------- histories of network operations
NAMED = {"plus": ["XY", 0, 0], "minus": ["XY", 0, 2], "zero": ["YZ", 0, 0], "one": ["YZ", 0, 2], "iplus": ["XY", 0, 1], "iminus": ["XY", 0, 3]}


def history(rng):
    """Specification commands, calls (name, args), live nodes in the order of the default output."""
    cmds, calls, live, force = [], [], [], {}
    names = iter(rng.sample(range(20), 12))
    graph = None
    if rng.random() < 0.4:
        ns = [next(names) for _ in range(rng.randrange(1, 4))]
        es = [(a, b) if rng.random() < 0.5 else (b, a) for i, a in enumerate(ns) for b in ns[:i] if rng.random() < 0.6]
        rng.shuffle(es)
        graph = (ns, es)
        cmds += [{"k": "N", "n": n, "st": ["XY", 0, 0]} for n in ns] + [{"k": "E", "a": a, "b": b} for a, b in es]
        live += ns
    outs = None
    for _ in range(rng.randrange(1, 9)):
        acts = (["add", "addm"] if len(live) < 4 else []) + (["op1", "op1"] if live else []) + (["ev"] * 2 if live else []) + (["me"] if len(live) > 1 else [])
        a = rng.choice(acts)
        if a in ("add", "addm"):
            ns = [next(names) for _ in range(rng.randrange(1, 3) if a == "addm" else 1) if len(live) < 5]
            sts, specs = [], []
            for _ in ns:
                if rng.random() < 0.6:
                    nm = rng.choice(list(NAMED))
                    sts.append(nm)
                    specs.append(NAMED[nm])
                else:
                    st = sr.prep_state(rng)
                    sts.append(st.to_statevector_numpy())
                    specs.append(sim.state(st))
            if a == "add":
                calls.append(("add_qubit", ns[0], sts[0]))
            elif rng.random() < 0.4:
                specs = [specs[0]] * len(ns)
                calls.append(("add_qubits", ns, sts[0]))
            else:
                calls.append(("add_qubits", ns, sts if rng.random() < 0.5 else tuple(sts)))
            cmds += [{"k": "N", "n": n, "st": s} for n, s in zip(ns, specs)]
            live += ns
        elif a == "op1":
            n, m = rng.choice(live), sr.gmatrix(rng)
            cmds.append({"k": "OP", "q": [n], "m": sr.ints(m)})
            calls.append(("evolve_single", n, sr.unit(m)))
        elif a == "ev":
            k = rng.randrange(1, min(3, len(live)) + 1)
            q = rng.sample(live, k)
            m = sr.gmatrixn(rng, k) if k > 1 else sr.gmatrix(rng)
            cmds.append({"k": "OP", "q": q, "m": sr.ints(m)})
            calls.append(("evolve", q, sr.unit(m), rng.random() < 0.6))
        else:
            n = live.pop(rng.randrange(len(live)))
            ax = rng.choice("XYZ")
            cmds.append({"k": "M", "n": n, "pl": "YZ" if ax == "Z" else "XY", "a": [0, 1 if ax == "Y" else 0], "s": [], "t": [], "fl": 0})
            calls.append(("measure_single", n, ax))
    return cmds, calls, graph, live


def replay_history(chk, rng, cid, h, rec, org):
    from graphix.sim.tensornet import MBQCTensorNet

    _, calls, graph, live = h
    log = {e[1]: e for e in sr.mlog(rec)}
    sel = sr.make_script({n: e[2] for n, e in log.items()})

    def go():
        kw = {}
        if graph:
            kw = {"graph_nodes": graph[0], "graph_edges": graph[1]}
        mine = list(live)
        tn = MBQCTensorNet(branch_selector=sel, default_output_nodes=mine, **kw)
        mine.reverse()          # the caller's list stays the caller's
        for c in calls:
            if rng.random() < 0.1:
                old, tn = tn, tn.copy()
                if graph or old.tensor_map:
                    for t in list(sim.dangling(old))[:1]:
                        old.evolve_single(int(t), np.array([[1, 1], [1, -1]]) / 2 ** 0.5)
            if c[0] == "evolve":
                tn.default_output_nodes = rng.sample(c[1], len(c[1]))
                tn.evolve(c[2], [tn.default_output_nodes.index(x) for x in c[1]], decompose=c[3])
                tn.default_output_nodes = list(live)
            elif c[0] == "measure_single":
                b = log[c[1]][2]
                r = tn.measure_single(c[1], c[2], outcome=b) if rng.random() < 0.5 else tn.measure_single(c[1], c[2], rng=np.random.default_rng(2))
                if r != b:
                    return f"measure_single returned {r} instead of {b}"
            else:
                getattr(tn, c[0])(*c[1:])
        return queries(rng, tn, live, sim.vec(rec), True) or ""

    why, err = observe(chk, cid, go, org)
    if err:
        return False
    if why:
        chk.violate(cid, "history", {"origin": org, "why": why, "behaviour": rec})
        return False
    return True


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 32452843 + 19)
    scale = 1 if quick else 12
    cases, todo = [], {}
    while len(cases) < 200 * scale:
        r = rng.random()
        if r < 0.25:
            p = sr.wire_pattern(rng, rng.choice([1, 1, 2]), rng.randrange(1, 4))
        else:
            n_in, n_new = rng.choice([0, 1, 1, 2, 2]), rng.choice([0, 1, 2, 3, 3])
            if n_in + n_new == 0:
                continue
            p = sr.draw_pattern(rng, prep=None, plus_only=True, n_in=n_in, n_new=n_new, n_meas=rng.randrange(0, min(4, n_in + n_new) + 1), max_live=5, e_rate=rng.choice([0.3, 1, 1.5]))
        if rng.random() < 0.6:
            try:
                p.standardize()
            except (NotImplementedError, ValueError):
                pass
        if not list(p) and not p.output_nodes:
            continue
        if rng.random() < 0.15:     # entangling twice cancels
            es = [c for c in p if c.kind.name == "E"]
            if es and p.is_standard():
                q = type(p)(input_nodes=p.input_nodes)
                e = rng.choice(es)
                for c in p:
                    q.add(c)
                    if c is e:
                        q.add(type(c)(rng.choice([c.nodes, c.nodes[::-1]])))
                q.reorder_output_nodes(list(p.output_nodes))
                p = q
        outs = list(p.output_nodes)
        try:
            body = [{"k": "N", "n": q, "st": ["XY", 0, 0]} for q in p.input_nodes] + [sim.command(c) for c in p]
        except dump.OffGrid:
            continue
        more, calls = tail(rng, outs) if outs else ([], [])
        mode = rng.choice(["sequential", "auto"] + ["parallel"] * 3 * p.is_standard())
        cid = f"t{len(cases)}"
        c = sim.case(cid, body + more, outs)
        if sim.bits(c["cmds"]) > 29 or sim.work(c) > 30_000 or len(outs) > 4:
            chk.skipped += 1
            continue
        cases.append(c)
        todo[cid] = ("pattern", (p, mode, calls), {"pattern": repr(p), "mode": mode, "then": [x[:2] for x in calls]})
    m = 0
    while m < 150 * scale:
        h = history(rng)
        cid = f"h{m}"
        c = sim.case(cid, h[0], h[3])
        if sim.bits(c["cmds"]) > 29 or sim.work(c) > 30_000:
            chk.skipped += 1
            continue
        m += 1
        cases.append(c)
        todo[cid] = ("history", h, {"calls": repr(h[1]), "graph": h[2], "outputs": h[3]})
    recs, res = sim.run(cases)
    chk.states += res.states
    chk.distinct += res.distinct
    chk.actions.update(res.coverage)
    n = 0
    for cid, rs in recs.items():
        kind, args, org = todo[cid]
        rs = rs if len(rs) <= 3 else rng.sample(rs, 3)
        if len(chk.samples) < 12:
            chk.samples.append({"case": cid, **org, "behaviours": len(rs)})
        for rec in rs:
            n += 1
            with sr.quiet():
                ok = replay(chk, rng, cid, *args, rec, org, None) if kind == "pattern" else replay_history(chk, rng, cid, args, rec, org)
            if not ok:
                break
    chk.traces += n
    # every pattern without a |+> preparation is refused rather than simulated wrongly
    from graphix import Pattern, command
    from graphix.states import BasicStates

    for i, st in enumerate(BasicStates.VEC[1:]):
        p = Pattern(input_nodes=[0], cmds=[command.N(1, st), command.E((0, 1)), command.M(0)])
        for mode in ("sequential", "parallel"):
            try:
                p.simulate("tensornetwork", graph_prep=mode)
            except (NotImplementedError, ValueError):
                pass
            else:
                chk.violate(f"refuse{i}{mode}", "unsupported-state-accepted", {"state": repr(st), "mode": mode})
    chk.cov = {"cases": len(cases), "behaviours_replayed": n, "decided_by": "Sim.tla behaviours enumerated by TLC and replayed on the tensor network"}
