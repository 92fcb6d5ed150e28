"""P20: noise models insert exactly the declared noise at the declared places."""
from __future__ import annotations

import math
import random

import numpy as np

from .. import dump, gen, sim
from .. import simrun as sr
from ..util import observe
from . import p18

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification: Noise.tla rewrites the program with the declared noise, Sim.tla runs it on exact ensembles over every outcome and readout flip; TLC's behaviours are replayed under the real noise model"
NOTE = ("Random patterns under random depolarising, amplitude-damping, user-defined, noiseless and composed (also nested) models with random parameters; the exact probability of every outcome, the recorded outcomes "
        "under every readout flip, and the final density matrix are compared. Readout-error frequencies are counted over 4000 seeded draws (six standard deviations). A share of the behaviours is simulated with symbolic angles (an expression class of this framework with complex arithmetic, as a plugin would provide) on the symbolic density-matrix back end; the parameters are then substituted and the result compared the same way.")

ZERO = {"num": 0, "den": 1, "cs": 1, "sn": 0, "hy": 1}


def rate(rng, kind, zero=0.5):
    if rng.random() < zero:
        return dict(ZERO), 0.0
    if kind == "depol":
        num, den = rng.choice([(1, 1), (1, 2), (3, 4), (1, 4), (15, 16)])
        return {**ZERO, "num": num, "den": den}, num / den
    cs, sn, hy = rng.choice([(3, 4, 5), (4, 3, 5), (0, 1, 1)])
    return {**ZERO, "cs": cs, "sn": sn, "hy": hy}, (sn / hy) ** 2


class Rules:
    """A user-defined model given by rules [at, channel]."""

    @staticmethod
    def make(rules):
        from graphix.channels import KrausChannel, KrausData
        from graphix.noise_models import ApplyNoise, Noise, NoiseModel
        import graphix.channels as gc

        class Given(Noise):
            def __init__(self, channel):
                self._c = channel

            @property
            def nqubits(self):
                return self._c.nqubit

            def to_krauschannel(self):
                return self._c

        def channel(r):
            f = r["_f"]
            return getattr(gc, f[0])(*f[1]) if f else KrausChannel([KrausData(a, o) for a, o in r["_ops"]])

        class Model(NoiseModel):
            def _at(self, at, nodes, dom=None):
                return [ApplyNoise(Given(channel(r)), list(nodes), set(dom) if r["cond"] and dom is not None else None) for r in rules if r["at"] == at]

            def input_nodes(self, nodes, rng=None, *, stacklevel=1):
                return [x for n in nodes for x in self._at("I", [n])]

            def command(self, cmd, rng=None, *, stacklevel=1):
                from graphix.command import CommandKind as K

                nm = {K.N: "N", K.E: "E", K.M: "M", K.X: "X", K.Z: "Z", K.C: "C"}.get(cmd.kind)
                if nm is None:
                    return [cmd]
                q = cmd.nodes if nm == "E" else [cmd.node]
                d = cmd.domain if nm in "XZ" else None
                return [*self._at(nm + "-", q, d), cmd, *self._at(nm + "+", q, d)]

            def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
                return result

        return Model()


def draw_model(rng):
    """(specification record, real model, readout error in {0, 1 or between})."""
    from graphix.noise_models import AmplitudeDampingNoiseModel, DepolarisingNoiseModel
    from graphix.noise_models.noise_model import NoiselessNoiseModel

    r = rng.random()
    if r < 0.08:
        return {"kind": "none"}, NoiselessNoiseModel(), 0.0
    if r < 0.3:
        rules = []
        for _ in range(rng.randrange(1, 4)):
            at = rng.choice(["N+", "N-", "E+", "E-", "M-", "X+", "X-", "Z+", "Z-", "C+", "I", "I", "X+", "Z+"])
            if at == "N-":
                continue
            k = 2 if at[0] == "E" else 1
            rule = {"at": at, "cond": int(at[0] in "XZ" and rng.random() < 0.6)}
            if rng.random() < 0.6:
                c, f, args = sr.named_channel(rng, k)
                rule |= {"c": c, "_f": (f, args), "_ops": None}
            else:
                c, data = sr.custom_channel(rng, k)
                rule |= {"c": c, "_f": None, "_ops": data}
            rules.append(rule)
        return {"kind": "user", "rules": [{k: v for k, v in x.items() if not k.startswith("_")} for x in rules]}, Rules.make(rules), 0.0
    kind = "depol" if r < 0.65 else "damp"
    cls = DepolarisingNoiseModel if kind == "depol" else AmplitudeDampingNoiseModel
    ps = {x: rate(rng, kind) for x in ("prep", "ent", "mch", "x", "z")}
    me = rng.choice([0.0, 0.0, 1.0, 0.3, 0.5])
    real = cls(prepare_error_prob=ps["prep"][1], x_error_prob=ps["x"][1], z_error_prob=ps["z"][1], entanglement_error_prob=ps["ent"][1],
               measure_channel_prob=ps["mch"][1], measure_error_prob=me)
    return {"kind": kind, **{k: {**v[0], "ch": ""} for k, v in ps.items()}}, real, me


def compose(rng, reals):
    from graphix.noise_models import ComposeNoiseModel

    if len(reals) == 1 and rng.random() < 0.8:
        return reals[0]
    if len(reals) == 3 and rng.random() < 0.5:
        i = rng.randrange(2)
        return ComposeNoiseModel([*reals[:i], ComposeNoiseModel(reals[i:i + 2]), *reals[i + 2:]])
    return ComposeNoiseModel(list(reals))


def scripted(model, flips, seen):
    from graphix.measurements import toggle_outcome
    from graphix.noise_models import NoiseModel

    class Scripted(NoiseModel):
        def input_nodes(self, nodes, rng=None, *, stacklevel=1):
            return model.input_nodes(nodes, rng=rng)

        def command(self, cmd, rng=None, *, stacklevel=1):
            return model.command(cmd, rng=rng)

        def transpile(self, sequence, rng=None, *, stacklevel=1):
            return model.transpile(sequence, rng=rng)

        def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
            seen.append((int(cmd.node), int(result)))
            return toggle_outcome(result) if flips[int(cmd.node)] else result

    return Scripted()


def replay(chk, rng, cid, p, data, model, certain, rec, org, prepared):
    from .. import symbolic
    from graphix.sim.density_matrix import DensityMatrixBackend
    from graphix.simulator import DefaultMeasureMethod, PatternSimulator

    log = sr.mlog(rec)
    outcomes = {e[1]: e[2] for e in log}
    recorded = {e[1]: e[3] for e in log}
    flips = {e[1]: e[2] != e[3] for e in log}
    p, ang = symbolic.sometimes(cid, outcomes, symbolic.pattern, p)
    sel = sr.make_script(outcomes, set(outcomes) if ang else frozenset())
    seen: list = []
    nm = model if certain else scripted(model, flips, seen)
    mm = DefaultMeasureMethod()
    x = data()
    way = rng.randrange(3)
    sy = {"symbolic": True} if rng.random() < 0.2 or ang else {}

    def go():
        st = run_it()
        return ang.substitute(st) if ang else st

    def run_it():
        g = np.random.default_rng(rng.randrange(1 << 30))
        kw = {} if x is None else {"input_state": x}
        if prepared:
            be = DensityMatrixBackend(branch_selector=sel, **sy)
            be.add_nodes(p.input_nodes, *([x] if x is not None else []))
            s = PatternSimulator(p, be, noise_model=nm, measure_method=mm)
            s.run(None, rng=g)
            return s.backend.state
        if way == 0:
            return p.simulate(backend="densitymatrix", branch_selector=sel, noise_model=nm, measure_method=mm, rng=g, **sy, **kw)
        s = PatternSimulator(p, "densitymatrix", branch_selector=sel, noise_model=nm, measure_method=mm, **sy) if way == 1 else PatternSimulator(
            p, DensityMatrixBackend(branch_selector=sel, **sy), noise_model=nm, measure_method=mm)
        s.run(*kw.values(), rng=g)
        return s.backend.state

    with sr.quiet():
        st, _ = observe(chk, cid, go, org)
    if st is None:
        return False
    why = sr.close_probs(sel.seen, rec)
    if why:
        chk.violate(cid, "probability", {"origin": org, "why": why, "behaviour": rec})
        return False
    if {k: int(v) for k, v in mm.results.items()} != recorded:
        chk.violate(cid, "recorded-outcomes", {"origin": org, "got": mm.results, "expected": recorded})
        return False
    if not certain and seen != [(e[1], e[2]) for e in log]:
        chk.violate(cid, "confused-outcomes", {"origin": org, "got": seen, "expected": [(e[1], e[2]) for e in log]})
        return False
    if not p18.close(st.rho, sim.rho(rec)):
        chk.violate(cid, "state", {"origin": org, "got": repr(st.rho), "expected": repr(sim.rho(rec)), "behaviour": rec})
        return False
    return True


def with_ticks(rng, p):
    from graphix import Pattern, command

    q = Pattern(input_nodes=list(p.input_nodes))
    for c in p:
        if rng.random() < 0.15:
            q.add(command.T())
        q.add(c)
    q.reorder_output_nodes(list(p.output_nodes))
    return q


def frequencies(chk, rng, count):
    """Readout errors are as frequent as declared."""
    from graphix import command

    n = 4000
    for i in range(count):
        models = [draw_model(rng) for _ in range(rng.choice([1, 1, 2]))]
        ps = []
        for _, m, _ in models:
            if hasattr(m, "measure_error_prob"):
                m.measure_error_prob = rng.choice([0.0, 1.0, 0.05, 0.25, 0.5, 0.8])
                ps.append(m.measure_error_prob)
        p = (1 - math.prod(1 - 2 * x for x in ps)) / 2
        model = compose(rng, [m for _, m, _ in models])
        g = np.random.default_rng(chk.seed * 1000 + i)
        org = {"models": [type(m).__name__ for _, m, _ in models], "readout": ps}

        def go():
            k = [0, 0]
            for b in (0, 1):
                for _ in range(n // 2):
                    k[b] += int(model.confuse_result(command.M(0), b, rng=g)) != b
            return k

        k, _ = observe(chk, f"freq{i}", go, org)
        if k is None:
            continue
        chk.traces += 1
        tol = 6 * math.sqrt(n / 2 * max(p * (1 - p), 0))
        if any(abs(x - p * n / 2) > tol for x in k):
            chk.violate(f"freq{i}", "readout-frequency", {"origin": org, "toggled": k, "of": n // 2, "expected": p * n / 2, "tolerance": tol})


def run(chk):
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 49979687 + 20)
    scale = 1 if quick else 15
    cases, todo = [], {}
    while len(cases) < 420 * scale:
        r = rng.random()
        if r < 0.08:
            p = sr.wire_pattern(rng, 1, rng.randrange(1, 3))
        else:
            n_in, n_new = (rng.choice([0, 1, 1, 2]), rng.choice([1, 1, 2, 2, 3])) if r > 0.16 else (3, rng.choice([0, 1]))
            p = sr.draw_pattern(rng, n_in=n_in, n_new=n_new, n_meas=rng.randrange(0, min(3, n_in + n_new) + 1), extra=rng.randrange(0, 5), max_live=3,
                                dom=rng.choice([0.5, 0.8]), e_rate=rng.choice([0.3, 0.7]))
        if rng.random() < 0.2:
            p = with_ticks(rng, p)
        drawn = [draw_model(rng) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        model = compose(rng, [m for _, m, _ in drawn])
        mes = [me for *_, me in drawn]
        certain = all(me in (0.0, 1.0) for me in mes)
        fl = 1 if not certain else 2 * (int(sum(mes)) % 2)
        ins = list(p.input_nodes)
        data, pre, desc = p18.dm_inputs(rng, ins)
        prepared = rng.random() < 0.12
        try:
            body = [sim.command(c, fl) for c in p]
        except dump.OffGrid:
            continue
        cid = f"n{len(cases)}"
        c = sim.case(cid, pre + body, p.output_nodes)
        c |= {"models": [m for m, *_ in drawn], "ins": [] if prepared else ins, "pre": len(pre)}
        if sim.bits(sim.noisy(c)) > 30 or sim.work(c) > 30_000:
            chk.skipped += 1
            continue
        cases.append(c)
        todo[cid] = (p, data, model, certain, prepared,
                     {"pattern": repr(p), "input": desc, "models": c["models"], "readout": mes, "prepared_backend": prepared})
    recs, res = sim.run(cases)
    chk.states += res.states
    chk.distinct += res.distinct
    chk.actions.update(res.coverage)
    n = 0
    for cid, rs in recs.items():
        p, data, model, certain, prepared, org = todo[cid]
        rs = rs if len(rs) <= 12 else rng.sample(rs, 12)
        if len(chk.samples) < 12:
            chk.samples.append({"case": cid, **org, "behaviours": len(rs)})
        for rec in rs:
            n += 1
            if not replay(chk, rng, cid, p, data, model, certain, rec, org, prepared):
                break
    chk.traces += n
    frequencies(chk, rng, 40 * scale)
    chk.cov = {"noisy_patterns": len(cases), "behaviours_replayed": n, "decided_by": "Noise.tla program, Sim.tla behaviours enumerated by TLC and replayed"}
