"""P18: density-matrix simulation is exact (patterns on every branch, and histories of the DensityMatrix interface)."""
from __future__ import annotations

import itertools
import random

import numpy as np

from .. import dump, sim
from .. import simrun as sr
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification Sim.tla (exact ensembles over the Gaussian integers, with channels and partial trace): TLC enumerates every behaviour and the implementation replays it; Register.tla decides which density-matrix descriptions are valid"
NOTE = ("Patterns with mixed inputs and random histories of the DensityMatrix interface (products, operators, channels given by name or by operators, partial traces, projections, permutations, "
        "expectation values, fidelities, copies) are enumerated by TLC with exact probabilities and density matrices, then replayed on the real code (tolerance 1e-8). A share of the behaviours is simulated with symbolic angles (an expression class of this framework with complex arithmetic, as a plugin would provide) on the symbolic density-matrix back end; the parameters are then substituted and the result compared the same way.")
TOL = 1e-8


def dm_inputs(rng, ins):
    """(data factory, commands, description) for the inputs of a pattern, mixed ones included."""
    from graphix.sim.density_matrix import DensityMatrix

    n = len(ins)
    if rng.random() < 0.5:
        data, cmds, desc = sr.inputs(rng, ins, mixed=True)
        if hasattr(data, "__next__"):
            lst = list(data)
            return (lambda: iter(lst)), cmds, desc
        if data is not None and rng.random() < 0.2 and n:
            try:
                dm = DensityMatrix(data) if not isinstance(data, (list, np.ndarray)) or n else data
                if dm.nqubit == n:
                    return (lambda: dm), cmds, "matrix object of " + desc
            except (TypeError, ValueError):
                pass
        return (lambda: data), cmds, desc
    a = rng.randrange(1, 3) if n else 1
    v, rho = sr.random_mixed(rng, n, a)
    anc = [900 + i for i in range(a)]
    cmds = [{"k": "IN", "ns": [*ins, *anc], "amp": sim.flat(v)}, *({"k": "TR", "n": q} for q in anc)]
    if np.abs(rho.imag).max() == 0 and rng.random() < 0.5:
        rho = rho.real
    r = rng.random()
    if r < 0.4:
        return (lambda: rho), cmds, f"matrix (reduced from {v!r})"
    if r < 0.6:
        return (lambda: [list(x) for x in rho]), cmds, f"rows (reduced from {v!r})"
    return (lambda: DensityMatrix(rho)), cmds, f"density matrix (reduced from {v!r})"


def replay_pattern(chk, rng, cid, p, data, rec, org):
    from .. import symbolic
    from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
    from graphix.simulator import DefaultMeasureMethod, PatternSimulator

    outcomes = {e[1]: e[2] for e in sr.mlog(rec)}
    lazy = {n for n in outcomes if rng.random() < 0.15}
    q, ang = symbolic.sometimes(cid, outcomes, symbolic.pattern, p)
    if ang:
        p, lazy = q, set(outcomes)      # probabilities that depend on parameters are not asked for
        org = {**org, "symbolic": {v.name: x for v, x in ang.assignment.items()}}
    sel = sr.make_script(outcomes, lazy)
    x = data()
    kw = {} if x is None else {"input_state": x}
    before = x.rho.copy() if isinstance(x, DensityMatrix) else None
    way = rng.randrange(3)
    mm = DefaultMeasureMethod()
    sy = {"symbolic": True} if rng.random() < 0.25 or ang else {}      # arrays of arbitrary objects: plain numbers or expressions

    def go():
        st, results = run_it()
        return (ang.substitute(st) if ang else st), results

    def run_it():
        if way == 0:
            return p.simulate(backend="densitymatrix", branch_selector=sel, **sy, **kw), None
        if way == 1:
            s = PatternSimulator(p, DensityMatrixBackend(branch_selector=sel, **sy), measure_method=mm)
        else:
            s = PatternSimulator(p, "densitymatrix", branch_selector=sel, measure_method=mm, **sy)
        s.run(*([kw["input_state"]] if kw else []), rng=np.random.default_rng(7))
        return s.backend.state, dict(mm.results)

    with sr.quiet():
        got, _ = observe(chk, cid, go, org)
    if got is None:
        return False
    st, results = got
    why = sr.close_probs(sel.seen, rec)
    if why:
        chk.violate(cid, "probability", {"origin": org, "why": why, "behaviour": rec})
        return False
    if results is not None and results != outcomes:
        chk.violate(cid, "recorded-outcomes", {"origin": org, "got": results, "expected": outcomes})
        return False
    if not close(st.rho, sim.rho(rec)):
        chk.violate(cid, "state", {"origin": org, "got": repr(st.rho), "expected": repr(sim.rho(rec)), "behaviour": rec})
        return False
    if before is not None and not np.array_equal(before, x.rho):
        chk.violate(cid, "input-altered", {"origin": org, "got": repr(x.rho), "expected": repr(before)})
        return False
    return True


def close(a, b, tol=TOL):
    a = np.asarray(a)
    if a.dtype == object:
        a = a.astype(complex)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) < tol))


# ------------------------------------------------------------------ interface histories
def history(rng, n_ops, live_max=3):
    cmds, fresh, live, meas = [], itertools.count(100), 0, 0

    def add(k, **kw):
        cmds.append({"k": k, **kw})

    for _ in range(n_ops):
        acts = (["grow"] * 3 if live < live_max else []) + (["M"] * 2 if live and meas < 3 else [])
        acts += ["C", "EXP", "CH", "CH", "FID"] if live else []
        acts += ["E", "CNOT", "SWAP", "OP", "PERM"] if live >= 2 else []
        acts += ["TR"] if live >= 2 or (live and rng.random() < 0.3) else []
        a = rng.choice(acts)
        q = rng.randrange(live) if live else 0
        if a == "grow":
            k = rng.randrange(1, live_max - live + 1)
            ns = [next(fresh) for _ in range(k)]
            r = rng.random()
            if r < 0.35:
                st = sr.prep_state(rng)
                for n in ns:
                    add("N", n=n, st=sim.state(st), _new=(len(ns), st) if n == ns[0] else None)
            elif r < 0.65:
                v = sim.random_vec(rng, k)
                add("IN", ns=ns, amp=sim.flat(v), _v=v, _rho=None)
            else:
                e = 1
                v, rho = sr.random_mixed(rng, k, e)
                add("IN", ns=[*ns, next(fresh)], amp=sim.flat(v), _v=None, _rho=rho if np.abs(rho.imag).max() or rng.random() < 0.5 else rho.real)
                add("TR", n=live + k, _skip=True)
            live += k
        elif a == "M":
            from graphix.fundamentals import Plane

            pl, ang = rng.choice(list(Plane)), sim.angle(rng, 0.7)
            add("M", n=q, pl=pl.name, a=sim.ang(ang), s=[], t=[], fl=0, _m=(pl, ang))
            live -= 1
            meas += 1
        elif a == "TR":
            k = rng.randrange(1, min(2, live) + 1)
            qs = rng.sample(range(live), k)
            for i, x in enumerate(sorted(qs, reverse=True)):
                add("TR", n=x, _group=qs if i == 0 else None)
            live -= k
        elif a == "C":
            m = sr.gmatrix(rng)
            add("C", n=q, m=sr.ints(m), _m=sr.unit(m))
        elif a == "E":
            x, y = rng.sample(range(live), 2)
            add("E", a=x, b=y)
        elif a == "CNOT":
            x, y = rng.sample(range(live), 2)
            add("G", g="CNOT", q=[x, y], a=[0, 0])
        elif a == "SWAP":
            x, y = rng.sample(range(live), 2)
            add("SWAP", a=x, b=y)
        elif a == "PERM":
            add("PERM", p=rng.sample(range(live), live))
        elif a == "OP":
            k = rng.randrange(1, min(3, live) + 1)
            m = sr.gmatrixn(rng, k)
            add("OP", q=rng.sample(range(live), k), m=sr.ints(m), _m=sr.unit(m))
        elif a == "CH":
            k = rng.randrange(1, min(2, live) + 1)
            if rng.random() < 0.5:
                c, f, args = sr.named_channel(rng, k)
                add("CH", q=rng.sample(range(live), k), c=c, cond=0, d=[], _f=(f, args), _ops=None)
            else:
                c, data = sr.custom_channel(rng, k)
                add("CH", q=rng.sample(range(live), k), c=c, cond=0, d=[], _f=None, _ops=data)
        elif a == "EXP":
            m = np.array([complex(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(4)]).reshape(2, 2)
            add("EXP", q=[q], m=sr.ints(m), _m=m)
        else:
            v = sim.random_vec(rng, live)
            add("FID", amp=sim.flat(v), _v=v)
    return cmds


NOISES = {"depolarising_channel": "DepolarisingNoise", "two_qubit_depolarising_channel": "TwoQubitDepolarisingNoise",
          "amplitude_damping_channel": "AmplitudeDampingNoise", "two_qubit_amplitude_damping_channel": "TwoQubitAmplitudeDampingNoise"}


def replay_history(chk, rng, cid, cmds, rec, org):
    import graphix.channels as gc
    from graphix.channels import KrausChannel, KrausData
    from graphix.noise_models import amplitude_damping, depolarising
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.sim.statevec import Statevector

    outs, log = iter(sr.measured_order(rec)), iter(rec["log"])
    held: list = []

    def bad(clause, **kw):
        chk.violate(cid, clause, {"origin": org, "behaviour": rec, **kw})

    symbolic = rng.random() < 0.2       # operators, hence the state, as arrays of arbitrary objects

    def op(m):
        return m.astype(object) if symbolic and rng.random() < 0.7 else m

    def go():
        dm = DensityMatrix(nqubit=0)
        size = 0
        for c in cmds:
            k = c["k"]
            if rng.random() < 0.12:
                held.append((dm, dm.rho.copy()))
                r = rng.random()
                dm = DensityMatrix(dm) if r < 0.5 else DensityMatrix(dm, nqubit=dm.nqubit) if r < 0.7 else DensityMatrix((dm.rho + dm.rho.conj().T) / 2 + 0)
            if k == "N":
                if c["_new"] is None:
                    continue
                n, st = c["_new"]
                r = rng.random()
                if r < 0.4:
                    dm.add_nodes(n, st)
                elif r < 0.6:
                    dm.add_nodes(n, [st] * n)
                elif r < 0.8:
                    dm.tensor(DensityMatrix(st, nqubit=n))
                else:
                    dm.tensor(DensityMatrix(Statevector(st, nqubit=n)))
                size += n
            elif k == "IN":
                r = rng.random()
                if c["_rho"] is not None:
                    n = c["_rho"].shape[0].bit_length() - 1
                    x = c["_rho"]
                    x = x if r < 0.3 else [list(y) for y in x] if r < 0.5 else DensityMatrix(x)
                else:
                    n = len(c["ns"])
                    u = c["_v"] / np.linalg.norm(c["_v"])
                    x = list(u) if r < 0.3 else Statevector(u) if r < 0.6 else np.outer(u, u.conj()) if r < 0.8 else DensityMatrix(u)
                was = x.rho.copy() if isinstance(x, DensityMatrix) else None
                if isinstance(x, DensityMatrix) and rng.random() < 0.5:
                    dm.tensor(x)
                else:
                    dm.add_nodes(n, x)
                if was is not None and not np.array_equal(was, x.rho):
                    bad("operand-altered", got=repr(x.rho), expected=repr(was))
                    return None
                size += n
            elif k == "TR":
                if c.get("_skip") or c["_group"] is None:
                    continue
                g = c["_group"]
                r = rng.random()
                if len(g) == 1 and r < 0.4:
                    dm.ptrace(g[0])
                elif len(g) == 1 and r < 0.7:
                    dm.remove_qubit(g[0])
                else:
                    dm.ptrace(g if r < 0.85 else tuple(g))
                size -= len(g)
            elif k == "M":
                pl, ang = c["_m"]
                b, e = next(outs), next(log)
                m0 = op(sim.projector(pl.polar(ang), 0))
                was = dm.rho.copy()
                p0 = dm.expectation_single(m0, c["n"])
                if abs(p0 - e[4] / (e[4] + e[5])) > TOL:
                    bad("expectation_single", got=repr(p0), expected=[e[4], e[5]])
                    return None
                if not close(dm.rho, was):
                    bad("query-altered-state", got=repr(dm.rho), expected=repr(was))
                    return None
                dm.project_qubit(op(sim.projector(pl.polar(ang), b)), c["n"])
                size -= 1
            elif k == "C":
                dm.evolve_single(op(c["_m"]), c["n"]) if rng.random() < 0.6 else dm.evolve(op(c["_m"]), [c["n"]])
            elif k == "OP":
                dm.evolve(op(c["_m"]), c["q"] if rng.random() < 0.5 else tuple(c["q"]))
            elif k == "E":
                dm.entangle((c["a"], c["b"]))
            elif k == "G":
                dm.cnot(tuple(c["q"]))
            elif k == "SWAP":
                dm.swap((c["a"], c["b"]))
            elif k == "PERM":
                dm.permute(c["p"])
            elif k == "CH":
                if c["_f"]:
                    f, args = c["_f"]
                    ch = getattr(gc, f)(*args)
                    nz = NOISES.get(f)
                    if nz and rng.random() < 0.4:
                        cls = getattr(depolarising, nz, None) or getattr(amplitude_damping, nz)
                        dm.apply_noise(c["q"], cls(*args))
                    else:
                        dm.apply_channel(ch, c["q"])
                else:
                    ch = KrausChannel([KrausData(a, o) for a, o in c["_ops"]])
                    dm.apply_channel(ch, c["q"])
            elif k == "EXP":
                e = next(log)
                was = dm.rho.copy()
                v = dm.expectation_single(op(c["_m"]), c["q"][0])
                if not abs(v - complex(e[1], e[2]) / e[3]) < TOL * 20:
                    bad("expectation", got=repr(v), expected=e)
                    return None
                # the query reports on the state and leaves it alone, normalised or not
                dm2 = DensityMatrix(dm)
                dm2.evolve_single(np.array([[0.6, 0], [0, 0.6j]]), c["q"][0])
                was2 = dm2.rho.copy()
                v2 = dm2.expectation_single(c["_m"] @ np.eye(2), c["q"][0])
                if not close(dm.rho, was) or not close(dm2.rho, was2):
                    bad("query-altered-state", got=repr(dm2.rho), expected=repr(was2))
                    return None
                del v2
            elif k == "FID":
                e = next(log)
                f = dm.fidelity(Statevector(c["_v"] / np.linalg.norm(c["_v"]), max_qubits=dm.nqubit + rng.randrange(2)))
                if not abs(f - e[1] / (e[2] * e[3])) < TOL * 20:
                    bad("fidelity", got=f, expected=e)
                    return None
            if dm.nqubit != size or dm.dims() != (1 << size, 1 << size):
                bad("size", got=[dm.nqubit, dm.dims()], expected=size)
                return None
        return dm

    dm, err = observe(chk, cid, go, org)
    if dm is None:
        return False
    exp = sim.rho(rec)
    if not close(dm.rho, exp) or not close(dm.flatten(), exp.reshape(-1)):
        bad("state", got=repr(dm.rho), expected=repr(exp))
        return False
    for d, was in held:
        if d is not dm and not np.array_equal(d.rho, was):
            bad("copy-altered", got=repr(d.rho)[:300], expected=repr(was)[:300])
            return False
    return True


# ------------------------------------------------------------------ descriptions
def descriptions(chk, rng, count):
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.sim.statevec import Statevector

    cs, meta = [], {}
    for i in range(count):
        kind = rng.choice(["one", "states", "amps", "amps", "sv", "dm", "empty", "rows", "rows", "rows", "rows"])
        nq = rng.choice([-1, -1, -1, 0, 1, 2, 3, -2])
        n = rng.randrange(0, 4)
        d = {"k": kind, "n": n, "normed": 1, "cap": 0}
        if kind == "one":
            data = sr.prep_state(rng)
        elif kind == "states":
            d["n"] = n = max(1, n)
            data = rng.choice([list, tuple, iter])([sr.prep_state(rng) for _ in range(n)])
        elif kind == "amps":
            L = rng.choice([1, 2, 2, 3, 4, 4, 5, 7, 8])
            d["n"], d["normed"] = L, int(rng.random() < 0.8)
            v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(L)])
            v = v / np.linalg.norm(v) * (1 if d["normed"] else rng.choice([0.5, 1.1, 2.0]))
            data = v if rng.random() < 0.5 else list(v)
            if nq >= 0 and rng.random() < 0.6:
                nq = L.bit_length() - 1
        elif kind in ("sv", "dm"):
            d["cap"] = n
            data = Statevector(sr.prep_state(rng), nqubit=n)
            data = DensityMatrix(data) if kind == "dm" else data
            if nq >= 0 and rng.random() < 0.6:
                nq = n
        elif kind == "rows":
            r, c = rng.choice([(1, 1), (2, 2), (2, 2), (4, 4), (4, 4), (8, 8), (3, 3), (2, 4), (4, 2), (2, 1), (6, 6)])
            if rng.random() < 0.5:
                a = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(rng.choice([1, 2, c]))] for _ in range(r)], dtype=object)
                k = min(len(x) for x in a) if len({len(x) for x in a}) > 1 else len(a[0])
                a = np.array([[z for z in list(x)[:k]] for x in a], dtype=complex)
                m = a @ a.conj().T
                m = m / np.trace(m).real
            else:
                w = [rng.random() for _ in range(r)]
                m = np.diag([complex(x / sum(w)) for x in w])
            if c != r:
                m = np.array([[complex(rng.gauss(0, 1), 0) for _ in range(c)] for _ in range(r)])
            d.update(rows=r, cols=c, tr1=1, psd=1)
            spoil = rng.random()
            if r == c and spoil < 0.15:
                m, d["tr1"] = m * rng.choice([0.5, 2.0, 1.01]), 0
            elif r == c and r > 1 and spoil < 0.3:
                m = m.copy()
                m[0, r - 1] += rng.choice([0.2, 0.1j])
                d["psd"] = 0
            elif r == c and r > 1 and spoil < 0.45:
                u = np.linalg.qr(np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(r)] for _ in range(r)]))[0]
                ev = [-0.05] + [1.05 / (r - 1)] * (r - 1)
                m, d["psd"] = u @ np.diag(ev) @ u.conj().T, 0
            data = m if rng.random() < 0.5 else [list(x) for x in m]
            if r == c and r & (r - 1) == 0 and nq >= 0 and rng.random() < 0.6:
                nq = r.bit_length() - 1
        else:
            data = []
        cid = f"reg{i}"
        org = {"data": kind, **d, "nqubit": nq, "given": repr(data)[:300]}

        def go():
            try:
                s = DensityMatrix(data, **({} if nq == -1 and rng.random() < 0.7 else {"nqubit": None if nq == -1 else nq}))
            except ValueError:
                return {"ok": 0, "rn": 0, "rlen": 0, "rm": 0}
            return {"ok": 1, "rn": int(s.nqubit), "rlen": len(s.rho), "rm": 0}

        got, _ = observe(chk, cid, go, org)
        if got:
            cs.append({"id": cid, "data": d, "nq": nq, "mq": -1, "cap": 0, **got})
            meta[cid] = {**org, "observed": got}
    chk.absorb(run_batch("Register", cs), cs, meta)
    return len(cs)


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 15485863 + 18)
    scale = 1 if quick else 15
    cases, todo = [], {}
    while len(cases) < 240 * scale:
        r = rng.random()
        p = sr.wire_pattern(rng, rng.randrange(1, 3), rng.randrange(1, 4)) if r < 0.12 else sr.draw_pattern(rng)
        data, cmds, desc = dm_inputs(rng, list(p.input_nodes))
        cid = f"pat{len(cases)}"
        try:
            body = [sim.command(c) for c in p]
        except dump.OffGrid:
            continue
        c = sim.case(cid, cmds + body, p.output_nodes)
        if sim.bits(c["cmds"]) > 29 or sim.work(c) > 40_000:
            chk.skipped += 1
            continue
        cases.append(c)
        todo[cid] = ("pat", p, data, {"pattern": repr(p), "input": desc})
    npat = len(cases)
    while len(cases) < npat + 420 * scale:
        cmds = history(rng, rng.randrange(3, 12))
        c = sim.case(f"api{len(cases)}", sr.public(cmds), None, pos=1)
        if sim.bits(c["cmds"]) > 29 or sim.work(c) > 40_000:
            chk.skipped += 1
            continue
        cases.append(c)
        todo[c["id"]] = ("api", cmds, None, {"history": repr(sr.public(cmds))})
    recs, res = sim.run(cases)
    chk.states += res.states
    chk.distinct += res.distinct
    chk.actions.update(res.coverage)
    n = 0
    for cid, rs in recs.items():
        kind, x, data, org = todo[cid]
        rs = rs if len(rs) <= 16 else rng.sample(rs, 16)
        if len(chk.samples) < 6 or (kind == "api" and len(chk.samples) < 12):
            chk.samples.append({"case": cid, **org, "behaviours": len(rs)})
        for rec in rs:
            n += 1
            ok = replay_pattern(chk, rng, cid, x, data, rec, org) if kind == "pat" else replay_history(chk, rng, cid, x, rec, org)
            if not ok:
                break
    chk.traces += n
    d = descriptions(chk, rng, 400 * scale)
    chk.cov = {"patterns": npat, "histories": len(cases) - npat, "behaviours_replayed": n, "register_descriptions": d,
               "decided_by": "Sim.tla behaviours enumerated by TLC, replayed; Register.tla verdicts"}
