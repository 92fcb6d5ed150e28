"""P17: state-vector simulation is exact (patterns on every branch, and histories of the Statevector interface)."""
from __future__ import annotations

import itertools
import random

import numpy as np

from .. import dump, sim
from .. import simrun as sr
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification Sim.tla (exact Gaussian-integer simulator): TLC enumerates every behaviour of each case and the implementation replays it; Register.tla decides which register descriptions are valid"
NOTE = ("Every measurement branch of seeded random patterns (arbitrary planes, angles k*alpha + j*pi/2 with alpha irrational, prepared states, input states) and of random histories of the Statevector interface is enumerated by TLC "
        "with exact probabilities and amplitudes, then replayed on the real code (tolerance 1e-8). Histories are also replayed inside 16- and 17-qubit registers to reach the multi-threaded kernels.")
JIT = True
TOL = 1e-8


# ------------------------------------------------------------------ patterns
def replay_pattern(chk, rng, cid, p, data, rec, org):
    from graphix.sim.statevec import Statevector, StatevectorBackend
    from graphix.simulator import DefaultMeasureMethod, PatternSimulator
    from graphix.states import BasicStates

    outcomes = {e[1]: e[2] for e in sr.mlog(rec)}
    lazy = {n for n in outcomes if rng.random() < 0.15}
    sel = sr.make_script(outcomes, lazy)
    kw = {} if data is None else {"input_state": data() if callable(data) else data}
    way = rng.randrange(4)
    mm = DefaultMeasureMethod()

    def go():
        if way == 0:
            return p.simulate(branch_selector=sel, **kw), None
        if way == 1:
            be = StatevectorBackend(branch_selector=sel)
            s = PatternSimulator(p, be, measure_method=mm)
        elif way == 2:
            be = StatevectorBackend.with_capacity(p.max_space() + rng.randrange(3), branch_selector=sel)
            s = PatternSimulator(p, backend=be, measure_method=mm)
        else:
            s = PatternSimulator(p, "statevector", branch_selector=sel, measure_method=mm)
        s.run(*( [kw["input_state"]] if kw else []), rng=np.random.default_rng(7))
        return s.backend.state, dict(mm.results)

    got, _ = observe(chk, cid, go, org)
    if got is None:
        return False
    st, results = got
    why = sr.close_probs(sel.seen, rec)
    if why:
        chk.violate(cid, "probability", {"origin": org, "why": why, "behaviour": rec})
        return False
    if results is not None and results != outcomes:
        chk.violate(cid, "recorded-outcomes", {"origin": org, "got": results, "expected": outcomes})
        return False
    if not sim.same_vec(st.flatten(), sim.vec(rec), TOL):
        chk.violate(cid, "state", {"origin": org, "got": repr(st.flatten()), "behaviour": rec})
        return False
    return True


# ------------------------------------------------------------------ interface histories
def history(rng, n_ops, live_max=4):
    """Commands of the specification (names are positions) with what the real call needs."""
    cmds, fresh, live, meas = [], itertools.count(100), 0, 0

    def add(k, **kw):
        cmds.append({"k": k, **kw})

    def grow():
        nonlocal live
        k = rng.randrange(1, min(3, live_max - live) + 1)
        v = sim.skewed_vec(rng, k) if rng.random() < 0.2 else sim.random_vec(rng, k)
        ns = [next(fresh) for _ in range(k)]
        if rng.random() < 0.5:
            st = sr.prep_state(rng)
            for n in ns:
                add("N", n=n, st=sim.state(st), _new=(len(ns), st) if n == ns[0] else None)
        else:
            add("IN", ns=ns, amp=sim.flat(v), _v=v)
        live += k

    for _ in range(n_ops):
        acts = (["grow"] * 3 if live < live_max else []) + (["M"] * 2 if live and meas < 4 else [])
        acts += ["C"] * 2 + ["EXP1"] if live else []
        acts += ["E", "SWAP", "OP", "EXPN"] if live >= 2 else []
        acts += ["PERM", "FID"] if live else []
        a = rng.choice(acts)
        q = rng.randrange(live) if live else 0
        if a == "grow":
            grow()
        elif a == "M":
            from graphix.fundamentals import Plane

            pl = rng.choice(list(Plane))
            ang = sim.angle(rng, 0.7)
            add("M", n=q, pl=pl.name, a=sim.ang(ang), s=[], t=[], fl=0, _m=(pl, ang))
            live -= 1
            meas += 1
        elif a == "C":
            m = sr.gmatrix(rng)
            add("C", n=q, m=sr.ints(m), _m=sr.unit(m))
        elif a == "E":
            x, y = rng.sample(range(live), 2)
            add("E", a=x, b=y)
        elif a == "SWAP":
            x, y = rng.randrange(live), rng.randrange(live)
            if x == y:
                continue
            add("SWAP", a=x, b=y)
        elif a == "PERM":
            add("PERM", p=rng.sample(range(live), live))
        elif a == "OP":
            k = rng.randrange(1, min(3, live) + 1)
            m = sr.gmatrixn(rng, k)
            add("OP", q=rng.sample(range(live), k), m=sr.ints(m), _m=sr.unit(m))
        elif a in ("EXP1", "EXPN"):
            k = 1 if a == "EXP1" else rng.randrange(1, min(2, live) + 1)
            m = np.array([complex(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(4 ** k)]).reshape(1 << k, 1 << k)
            add("EXP", q=rng.sample(range(live), k), m=sr.ints(m), _m=m)
        else:
            v = sim.random_vec(rng, live)
            add("FID", amp=sim.flat(v), _v=v)
    return cmds


class Embedded:
    """A register of `big` extra qubits in known states around the qubits of the history."""

    def __init__(self, rng, extra):
        from graphix.sim.statevec import Statevector

        self.rng = rng
        self.bys = [sr.prep_state(rng) for _ in range(extra)]
        self.where: list = list(range(extra))        # content of every position: ("b", i) or ("c", tag)
        self.sv = Statevector(self.bys) if extra else Statevector(nqubit=0, max_qubits=rng.choice([None, 0, 2, 5]))
        self.where = [("b", i) for i in range(extra)]
        self.core: list = []                          # tags of the history's qubits, in order
        self.next = 0

    def at(self, q):
        return self.where.index(("c", self.core[q]))

    def grew(self, k):
        for _ in range(k):
            self.core.append(self.next)
            self.where.append(("c", self.next))
            self.next += 1

    def expected(self, core_vec):
        t = core_vec.reshape((2,) * len(self.core))
        src = [("c", c) for c in self.core]
        for i, b in enumerate(self.bys):
            if ("b", i) in self.where:
                t = np.multiply.outer(t, b.to_statevector_numpy())
                src.append(("b", i))
        return np.transpose(t, [src.index(w) for w in self.where]).reshape(-1) if src else t.reshape(-1)


def replay_history(chk, rng, cid, cmds, rec, extra, org):
    from graphix.sim.statevec import Statevector

    outs = iter(sr.measured_order(rec))
    log = iter(rec["log"])
    R = Embedded(rng, extra)
    held: list = []     # earlier copies, which must not change

    def bad(clause, **kw):
        chk.violate(cid, clause, {"origin": org, "behaviour": rec, "extra": extra, **kw})

    def go():
        for c in cmds:
            k = c["k"]
            if rng.random() < 0.1:
                held.append((R.sv, R.sv.flatten().copy()))
                r = rng.random()
                R.sv = Statevector(R.sv) if r < 0.4 else Statevector(R.sv, nqubit=R.sv.nqubit, max_qubits=R.sv.nqubit + rng.randrange(3)) if r < 0.8 else Statevector(list(R.sv.flatten()))
            if k == "N":
                if c["_new"] is None:
                    continue
                n, st = c["_new"]
                r = rng.random()
                if r < 0.5:
                    R.sv.add_nodes(n, st)
                elif r < 0.7:
                    R.sv.add_nodes(n, [st] * n)
                elif r < 0.85:
                    R.sv.tensor(Statevector(st, nqubit=n, max_qubits=n + 1))
                else:
                    for _ in range(n):
                        R.sv.add_nodes(1, st)
                R.grew(n)
            elif k == "IN":
                u = c["_v"] / np.linalg.norm(c["_v"])
                n = len(c["ns"])
                r = rng.random()
                if r < 0.4:
                    R.sv.add_nodes(n, list(u))
                elif r < 0.7:
                    R.sv.tensor(Statevector(u, max_qubits=n + rng.randrange(3)))
                else:
                    R.sv.add_nodes(n, Statevector(u, max_qubits=n + rng.randrange(3)))
                R.grew(n)
            elif k == "M":
                pl, ang = c["_m"]
                b = next(outs)
                e = next(log)
                q = R.at(c["n"])
                m0 = sim.projector(pl.polar(ang), 0)
                p0 = R.sv.expectation_single(m0, q)
                if abs(p0 - e[4] / (e[4] + e[5])) > TOL:
                    bad("expectation_single", got=repr(p0), expected=[e[4], e[5]])
                    return False
                R.sv.project_qubit(sim.projector(pl.polar(ang), b), q)
                del R.where[q]
                del R.core[c["n"]]
            elif k == "C":
                R.sv.evolve_single(c["_m"], R.at(c["n"])) if rng.random() < 0.7 else R.sv.evolve(c["_m"], [R.at(c["n"])])
            elif k == "OP":
                R.sv.evolve(c["_m"], [R.at(q) for q in c["q"]])
            elif k == "E":
                R.sv.entangle((R.at(c["a"]), R.at(c["b"])))
            elif k == "SWAP":
                # contents of the two positions are exchanged
                R.sv.swap((R.at(c["a"]), R.at(c["b"])))
            elif k == "PERM":
                n = len(R.where)
                if extra:
                    # any permutation of the whole register; the history's own one renames its qubits
                    perm = list(range(n))
                    for _ in range(3 if n > 8 else 8):
                        i, j = rng.randrange(n), rng.randrange(n)
                        perm[i], perm[j] = perm[j], perm[i]
                    tags = list(R.core)
                    R.sv.permute(perm)
                    R.where = [R.where[i] for i in perm]
                    R.core = [tags[i] for i in c["p"]]
                else:
                    R.sv.permute(c["p"])
                    R.core = [R.core[i] for i in c["p"]]
                    R.where = [R.where[i] for i in c["p"]]
            elif k == "EXP":
                e = next(log)
                qs = [R.at(q) for q in c["q"]]
                v = R.sv.expectation_single(c["_m"], qs[0]) if len(qs) == 1 and rng.random() < 0.7 else R.sv.expectation_value(c["_m"], qs)
                if not abs(v - complex(e[1], e[2]) / e[3]) < TOL * 20:
                    bad("expectation", got=repr(v), expected=e)
                    return False
            elif k == "FID":
                e = next(log)
                if not extra:
                    f = R.sv.fidelity(Statevector(c["_v"] / np.linalg.norm(c["_v"]), max_qubits=R.sv.nqubit + rng.randrange(2)))
                    if not abs(f - e[1] / (e[2] * e[3])) < TOL * 20:
                        bad("fidelity", got=f, expected=e)
                        return False
                    if R.sv.isclose(Statevector(c["_v"] / np.linalg.norm(c["_v"])), rtol=1e-9) != (e[1] == e[2] * e[3]):
                        bad("isclose", got=f, expected=e)
                        return False
        return True

    ok, _ = observe(chk, cid, go, org)
    if not ok:
        return False
    exp = sim.vec(rec)
    full = R.expected(exp) if R.core or extra else exp
    if R.sv.nqubit != len(R.where) or not sim.same_vec(R.sv.flatten(), full, TOL):
        bad("state", got=repr(R.sv.flatten())[:500])
        return False
    if R.sv.max_qubits < R.sv.nqubit or len(R.sv.flatten()) != 1 << R.sv.nqubit:
        bad("capacity", got=[R.sv.nqubit, R.sv.max_qubits, len(R.sv.flatten())])
        return False
    for sv, was in held:
        if sv is not R.sv and not np.array_equal(sv.flatten(), was):
            bad("copy-altered", got=repr(sv.flatten())[:300], expected=repr(was)[:300])
            return False
    if not extra:
        n = R.sv.nqubit
        ph = None
        for enc in ("MSB", "LSB"):
            d, pd = R.sv.to_dict(enc), R.sv.to_prob_dict(enc)
            exp_keys = {}
            for i, z in enumerate(exp):
                if abs(z) > 1e-6:
                    key = format(i, f"0{n}b") if n else "0"
                    exp_keys[key if enc == "MSB" else key[::-1]] = z
            if n and (set(d) != set(exp_keys) or set(pd) != set(exp_keys)):
                bad("to_dict-keys", got=[repr(d), repr(pd)], encoding=enc)
                return False
            for key, z in exp_keys.items() if n else ():
                w = complex(d[key]) / z
                ph = w if ph is None else ph
                if abs(w - ph) > 1e-6 or abs(float(pd[key]) - abs(z) ** 2) > 1e-8:
                    bad("to_dict-values", got=[repr(d), repr(pd)], encoding=enc)
                    return False
    return True


# ------------------------------------------------------------------ register descriptions
def descriptions(chk, rng, count):
    from graphix.sim.statevec import Statevector
    from graphix.states import BasicStates

    cs, meta = [], {}
    for i in range(count):
        kind = rng.choice(["one", "states", "states", "amps", "amps", "amps", "sv", "empty"])
        nq = rng.choice([-1, -1, -1, 0, 1, 2, 3, -2])
        mq = rng.choice([-1, -1, 0, 1, 2, 3, 5, -3])
        n = rng.randrange(0, 4)
        d = {"k": kind, "n": n, "normed": 1, "cap": 0}
        if kind == "one":
            data = sr.prep_state(rng)
        elif kind == "states":
            d["n"] = n = max(1, n)
            data = [sr.prep_state(rng) for _ in range(n)]
            data = rng.choice([list, tuple, iter])(data)
        elif kind == "amps":
            L = rng.choice([1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9])
            d["n"], d["normed"] = L, int(rng.random() < 0.8)
            v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(L)])
            v = v / np.linalg.norm(v) * (1 if d["normed"] else rng.choice([0.5, 1.1, 2.0]))
            data = v if rng.random() < 0.5 else list(v)
            if nq >= 0 and rng.random() < 0.6:
                nq = L.bit_length() - 1
        elif kind == "sv":
            d["cap"] = n + rng.randrange(3)
            data = Statevector(sr.prep_state(rng), nqubit=n, max_qubits=d["cap"])
            if nq >= 0 and rng.random() < 0.6:
                nq = n
        else:
            data = []
        cid = f"reg{i}"
        org = {"data": kind, **d, "nqubit": nq, "max_qubits": mq}

        def go():
            try:
                s = Statevector(data, **({} if nq == -1 and rng.random() < 0.7 else {"nqubit": None if nq == -1 else nq}), **({} if mq == -1 else {"max_qubits": mq}))
            except ValueError:
                return {"ok": 0, "rn": 0, "rlen": 0, "rm": 0}
            return {"ok": 1, "rn": int(s.nqubit), "rlen": len(s.flatten()), "rm": int(s.max_qubits)}

        got, _ = observe(chk, cid, go, org)
        if got:
            cs.append({"id": cid, "data": d, "nq": nq, "mq": mq, "cap": 1, **got})
            meta[cid] = {**org, "observed": got}
    chk.absorb(run_batch("Register", cs), cs, meta)
    return len(cs)


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 32452843 + 17)
    scale = 1 if quick else 15
    cases, todo = [], {}
    # patterns
    while len(cases) < 260 * scale:
        i = len(cases)
        r = rng.random()
        p = sr.wire_pattern(rng, rng.randrange(1, 4), rng.randrange(1, 4)) if r < 0.12 else sr.draw_pattern(rng)
        data, cmds, desc = sr.inputs(rng, list(p.input_nodes))
        if hasattr(data, "__next__"):
            lst = list(data)
            data = (lambda l: lambda: iter(l))(lst)
        cid = f"pat{i}"
        try:
            body = [sim.command(c) for c in p]
        except dump.OffGrid:
            continue
        c = sim.case(cid, cmds + body, p.output_nodes)
        if sim.bits(c["cmds"]) > 29 or sim.work(c) > 40_000:
            chk.skipped += 1
            continue
        cases.append(c)
        todo[cid] = ("pat", p, data, {"pattern": repr(p), "input": desc})
    npat = len(cases)
    while len(cases) < npat + 300 * scale:
        i = len(cases)
        cmds = history(rng, rng.randrange(3, 14))
        c = sim.case(f"api{i}", sr.public(cmds), None, pos=1)
        if sim.bits(c["cmds"]) > 29 or sim.work(c) > 40_000:
            chk.skipped += 1
            continue
        cases.append(c)
        todo[c["id"]] = ("api", cmds, None, {"history": repr(sr.public(cmds))})
    recs, res = sim.run(cases)
    chk.states += res.states
    chk.distinct += res.distinct
    chk.actions.update(res.coverage)
    n, big = 0, 0
    for cid, rs in recs.items():
        kind, x, data, org = todo[cid]
        rs = rs if len(rs) <= 16 else rng.sample(rs, 16)
        chk.samples.append({"case": cid, **org, "behaviours": len(rs)}) if len(chk.samples) < 8 or (kind == "api" and len(chk.samples) < 12) else None
        for rec in rs:
            n += 1
            if kind == "pat":
                ok = replay_pattern(chk, rng, cid, x, data, rec, org)
            else:
                ok = replay_history(chk, rng, cid, x, rec, 0, org)
                if ok and big < 60 * scale and rng.random() < 0.4:
                    big += 1
                    ok = replay_history(chk, rng, cid, x, rec, rng.choice([1, 3, 5]) if rng.random() < 0.4 else rng.choice([15, 16]), org)
            if not ok:
                break
    chk.traces += n
    d = descriptions(chk, rng, 400 * scale)
    chk.cov = {"patterns": npat, "histories": len(cases) - npat, "behaviours_replayed": n, "embedded_replays": big, "register_descriptions": d,
               "decided_by": "Sim.tla behaviours enumerated by TLC, replayed; Register.tla verdicts"}
