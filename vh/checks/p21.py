"""P21: simulation runs follow the selected branch and are reproducible."""
from __future__ import annotations

import hashlib
import math
import random
from types import MappingProxyType

import numpy as np

from .. import gen
from .. import simrun as sr
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ protocol machine Run.tla: TLC checks that every recorded history of calls (back end, selector, noise model, measure method) of a real run, and of its repetition with an equal seed, is a behaviour of the protocol"
NOTE = ("Random patterns on a recording back end and on instrumented state-vector, density-matrix and tensor-network back ends, with nested selectors, noise models, prefilled outcomes and prepared inputs; "
        "global generators are disturbed between the two runs. Selector frequencies are counted over 4000 seeded draws (six standard deviations).")
JIT = False


def base_ev(k, q=(), d="", b=0, r=0, pl="", a=0, g=1):
    return {"k": k, "q": [int(x) for x in q], "d": d, "b": int(b), "r": int(r), "pl": pl, "a": a, "g": int(g)}


def meas(m):
    """Measurement -> (pl, a) with angles in units of pi/4 (pl is an axis and a the sign for Pauli measurements)."""
    from graphix.fundamentals import Sign
    from graphix.measurements import PauliMeasurement

    if isinstance(m, PauliMeasurement):
        return m.axis.name, int(m.sign == Sign.MINUS)
    k = m.angle * 4
    assert abs(k - round(k)) < 1e-9, m
    return m.plane.name, round(k) % 8


class Tape:
    def __init__(self, rng):
        self.ev, self.rng, self.bad = [], rng, []

    def log(self, *a, **k):
        self.ev.append(base_ev(*a, **k))

    def good(self, rng, where):
        if rng is not self.rng:
            self.bad.append(where)
        r = not self.bad
        return r


def classes():
    from dataclasses import dataclass

    from graphix.branch_selector import BranchSelector
    from graphix.noise_models import ApplyNoise, NoiseModel
    from graphix.sim.base_backend import Backend
    from graphix.sim.density_matrix import DensityMatrixBackend
    from graphix.sim.statevec import StatevectorBackend
    from graphix.sim.tensornet import TensorNetworkBackend
    from graphix.simulator import DefaultMeasureMethod, DefaultPrepareMethod

    class Probe(BranchSelector):
        """Innermost selector: only watches the generator it is given."""

        def __init__(self, inner, tape):
            self.inner, self.tape = inner, tape

        def measure(self, qubit, f, rng=None, *, stacklevel=1):
            self.tape.good(rng, "inner selector")
            return self.inner.measure(qubit, f, rng=rng, stacklevel=stacklevel + 1)

    class Spy(BranchSelector):
        def __init__(self, inner, tape):
            self.inner, self.tape = inner, tape

        def measure(self, qubit, f, rng=None, *, stacklevel=1):
            self.tape.good(rng, "selector")
            b = self.inner.measure(qubit, f, rng=rng, stacklevel=stacklevel + 1)
            self.tape.log("sel", [qubit], b=b, g=not self.tape.bad)
            return b

    class Prep(DefaultPrepareMethod):
        def __init__(self, tape):
            self.tape = tape

        def prepare(self, backend, cmd, rng=None):
            self.tape.good(rng, "prepare")
            super().prepare(backend, cmd, rng)

    class Store(DefaultMeasureMethod):
        def __init__(self, tape, results=None):
            super().__init__(results)
            self.tape = tape

        def store_measurement_outcome(self, node, result):
            self.tape.log("store", [node], b=result)
            super().store_measurement_outcome(node, result)

    class Noisy(NoiseModel):
        """Noise at given places; readout of given nodes inverted."""

        def __init__(self, tape, places, flips, inner=None):
            self.tape, self.places, self.flips, self.inner, self.k = tape, places, flips, inner, 0

        def _a(self, items):
            return [ApplyNoise(n, list(q), None if d is None else set(d)) for n, q, d, _ in items]

        def input_nodes(self, nodes, rng=None, *, stacklevel=1):
            self.tape.good(rng, "noise model input_nodes")
            return self._a(self.places.get("in", []))

        def command(self, cmd, rng=None, *, stacklevel=1):
            self.tape.good(rng, "noise model command")
            k = self.k
            self.k += 1
            return [*self._a(self.places.get((k, 0), [])), cmd, *self._a(self.places.get((k, 1), []))]

        def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
            ok = self.tape.good(rng, "noise model confuse_result")
            if self.inner is not None:
                r = self.inner.confuse_result(cmd, result, rng=rng)
            else:
                r = 1 - result if cmd.node in self.flips else result
            self.tape.log("conf", [cmd.node], b=result, r=r, g=ok)
            return r

    @dataclass(frozen=True)
    class Recorder(Backend):
        def __init__(self, tape, selector, prepared):
            object.__setattr__(self, "tape", tape)
            object.__setattr__(self, "sel", selector)
            object.__setattr__(self, "live", list(prepared))
            object.__setattr__(self, "state", None)

        @property
        def nqubit(self):
            return len(self.live)

        def add_nodes(self, nodes, data=None):
            self.tape.log("add", nodes, d=repr(data), g=not self.tape.bad)
            self.live.extend(nodes)

        def entangle_nodes(self, edge):
            self.tape.log("E", edge)

        def correct_byproduct(self, cmd):
            self.tape.log(cmd.kind.name, [cmd.node])

        def apply_clifford(self, node, clifford):
            self.tape.log("C", [node], d=repr(clifford))

        def apply_noise(self, cmd):
            self.tape.log("A", cmd.nodes, d=str(cmd.noise.ident))

        def measure(self, node, measurement, rng=None, *, stacklevel=1):
            pl, a = meas(measurement)
            self.tape.log("meas", [node], pl=pl, a=a, g=self.tape.good(rng, "backend"))
            self.live.remove(node)
            return self.sel.measure(node, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)

        def finalize(self, output_nodes):
            self.tape.log("fin", output_nodes)

    def instrument(cls):
        class Instr(cls):
            def add_nodes(self, nodes, data=None):
                TAPE.log("add", nodes, d=repr(data), g=not TAPE.bad)
                super().add_nodes(nodes, data)

            def entangle_nodes(self, edge):
                TAPE.log("E", edge)
                super().entangle_nodes(edge)

            def correct_byproduct(self, cmd):
                TAPE.log(cmd.kind.name, [cmd.node])
                super().correct_byproduct(cmd)

            def apply_clifford(self, node, clifford):
                TAPE.log("C", [node], d=repr(clifford))
                super().apply_clifford(node, clifford)

            def apply_noise(self, cmd):
                TAPE.log("A", cmd.nodes, d=str(cmd.noise.ident))
                super().apply_noise(cmd)

            def measure(self, node, measurement, rng=None, *, stacklevel=1):
                pl, a = meas(measurement)
                TAPE.log("meas", [node], pl=pl, a=a, g=TAPE.good(rng, "backend"))
                return super().measure(node, measurement, rng=rng, stacklevel=stacklevel + 1)

            def finalize(self, output_nodes):
                super().finalize(output_nodes)
                st = self.state
                arr = st.rho if hasattr(st, "rho") else st.flatten() if hasattr(st, "psi") else None
                TAPE.log("fin", output_nodes, d="" if arr is None else hashlib.sha256(np.ascontiguousarray(arr).tobytes()).hexdigest()[:12])

        return Instr

    return {"Probe": Probe, "Spy": Spy, "Prep": Prep, "Store": Store, "Noisy": Noisy, "Recorder": Recorder,
            "sv": instrument(StatevectorBackend), "dm": instrument(DensityMatrixBackend), "tn": instrument(TensorNetworkBackend)}


TAPE: Tape


def commands(p):
    out = []
    for c in p:
        k = c.kind.name
        if k == "N":
            out.append({"k": "N", "n": int(c.node), "d": repr(c.state)})
        elif k == "E":
            out.append({"k": "E", "a": int(c.nodes[0]), "b": int(c.nodes[1])})
        elif k == "M":
            pl, a = meas(c.measurement)
            out.append({"k": "M", "n": int(c.node), "pl": pl, "a": a, "s": sorted(map(int, c.s_domain)), "t": sorted(map(int, c.t_domain))})
        elif k in "XZ":
            out.append({"k": k, "n": int(c.node), "d": sorted(map(int, c.domain))})
        elif k == "C":
            out.append({"k": "C", "n": int(c.node), "d": repr(c.clifford)})
        else:
            out.append({"k": "T"})
    return out


def draw_selector(rng, measured, possible_only, depth=0):
    """(specification record, builder of the real selector)."""
    from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector, RandomBranchSelector

    r = rng.random()
    if possible_only or r < 0.25:
        pr = possible_only or rng.random() < 0.6
        return {"k": "any"}, lambda w: w(RandomBranchSelector() if pr and rng.random() < 0.5 else RandomBranchSelector(pr_calc=pr))
    if r < 0.4:
        b = rng.randrange(2)
        return {"k": "const", "b": b}, lambda w: w(ConstBranchSelector(b))
    full = depth > 1 or rng.random() < 0.4
    t = {n: rng.randrange(2) for n in measured if full or rng.random() < 0.5}
    if full:
        return {"k": "table", "t": [list(x) for x in t.items()], "d": {"k": "none"}}, lambda w: w(FixedBranchSelector(t))
    rec, mk = draw_selector(rng, measured, False, depth + 1)
    return {"k": "table", "t": [list(x) for x in t.items()], "d": rec}, lambda w: FixedBranchSelector(t, default=mk(w))


def draw_noise(rng, p):
    from graphix.channels import depolarising_channel, two_qubit_depolarising_channel
    from graphix.noise_models import Noise

    class Tagged(Noise):
        def __init__(self, ident, k):
            self.ident, self.k = ident, k

        @property
        def nqubits(self):
            return self.k

        def to_krauschannel(self):
            return depolarising_channel(0.1) if self.k == 1 else two_qubit_depolarising_channel(0.2)

    places, n, live, done = {}, 0, list(p.input_nodes), []

    def some(at):
        nonlocal n
        items = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            if not live:
                break
            k = 2 if len(live) > 1 and rng.random() < 0.3 else 1
            d = None if rng.random() < 0.5 else [x for x in done if rng.random() < 0.6]
            items.append((Tagged(n, k), rng.sample(live, k), d, n))
            n += 1
        if items:
            places[at] = items

    some("in")
    for i, c in enumerate(p):
        some((i, 0))
        if c.kind.name == "N":
            live.append(c.node)
        elif c.kind.name == "M":
            live.remove(c.node)
            done.append(c.node)
        some((i, 1))
    return places


def acts(items):
    return [{"k": "A", "q": [int(x) for x in q], "id": str(i), "cond": int(d is not None), "d": sorted(d or ())} for _, q, d, i in items]


def frequencies(chk, rng, count):
    from graphix.branch_selector import FixedBranchSelector, RandomBranchSelector

    n = 4000
    for i in range(count):
        p = rng.choice([0.0, 1.0, 0.5, 0.25, 0.9, 0.03, rng.random()])
        calc = rng.random() < 0.7
        sel = RandomBranchSelector() if calc and rng.random() < 0.5 else RandomBranchSelector(pr_calc=calc)
        if rng.random() < 0.3:
            sel = FixedBranchSelector({1: 0}, default=sel)
        want = 1 - p if calc else 0.5
        g = np.random.default_rng(chk.seed * 997 + i)
        org = {"selector": repr(sel), "p0": p}
        k, _ = observe(chk, f"freq{i}", lambda: sum(int(sel.measure(0, lambda: p, rng=g)) for _ in range(n)), org)
        if k is None:
            continue
        chk.traces += 1
        if abs(k - want * n) > 6 * math.sqrt(n * want * (1 - want)):
            chk.violate(f"freq{i}", "frequency", {**org, "ones": k, "of": n, "expected": want * n})


def disturb(rng):
    import graphix.rng as grng

    np.random.seed(rng.randrange(1 << 30))
    random.seed(rng.randrange(1 << 30))
    with sr.quiet():
        grng.ensure_rng(None).random(rng.randrange(1, 5))


def run(chk):
    global TAPE
    from graphix import command
    from graphix.noise_models import ComposeNoiseModel, DepolarisingNoiseModel
    from graphix.noise_models.noise_model import NoiselessNoiseModel
    from graphix.simulator import PatternSimulator
    from graphix.states import BasicStates

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 67867967 + 21)
    C = classes()
    cases, meta = [], {}
    for i in range(1200 if quick else 15000):
        kind = rng.choice(["rec"] * 5 + ["sv", "sv", "dm", "tn"])
        det = False
        if rng.random() < 0.2:
            p = gen.compiled_pattern(rng, rng.choice([1, 2, 2]), rng.randrange(1, 5), ccx=0)
            det = True
        else:
            p = gen.small_pattern(rng, plus_only=kind == "tn" or rng.random() < 0.5, any_clifford=kind != "tn", ang=lambda r: r.randrange(-8, 9) / 4, dom=rng.choice([0.3, 0.6, 0.9]))
        try:
            cmds = commands(p)
        except AssertionError:
            continue
        if rng.random() < 0.2:
            q = type(p)(input_nodes=list(p.input_nodes))
            cmds = []
            for c in p:
                if rng.random() < 0.3:
                    q.add(command.T())
                q.add(c)
            q.reorder_output_nodes(list(p.output_nodes))
            p = q
            cmds = commands(p)
        measured = [c["n"] for c in cmds if c["k"] == "M"]
        selrec, mk = draw_selector(rng, measured, kind == "tn" or (kind in ("sv", "dm") and not det))
        if kind == "tn":
            try:
                p.to_opengraph()
            except (NotImplementedError, ValueError):
                chk.skipped += 1
                continue
            if not list(p) and not p.output_nodes:
                continue
        noisy = kind in ("rec", "dm") and rng.random() < 0.5
        places, flips, free = {}, [], False
        if noisy:
            places = draw_noise(rng, p)
            flips = [n for n in measured if rng.random() < 0.4]
            free = rng.random() < 0.3
        pre = {n: rng.randrange(2) for n in rng.sample(range(60, 70), 2) + [x for x in measured if rng.random() < 0.3]} if rng.random() < 0.3 else {}
        given = kind == "tn" or rng.random() < 0.85
        data = BasicStates.PLUS if kind == "tn" or rng.random() < 0.5 else rng.choice(BasicStates.VEC)
        seed = rng.randrange(1 << 30)
        shape, custom_prep, way = rng.randrange(3), rng.random() < 0.7, rng.random()
        org = {"pattern": repr(p), "backend": kind, "selector": selrec, "prefilled": pre, "noise": {str(k): [(list(q), d) for _, q, d, _ in v] for k, v in places.items()},
               "flips": "random" if free else flips, "input_given": given}
        before = list(map(repr, p))
        given_results, frozen = dict(pre), rng.random() < 0.2      # the caller's own mapping, given to both runs

        def once():
            global TAPE
            g = np.random.default_rng(seed)
            TAPE = tape = Tape(g)
            state = rng.getstate()
            sel = C["Spy"](mk(lambda s: C["Probe"](s, tape)), tape)
            rng.setstate(state)
            mm = C["Store"](tape, MappingProxyType(given_results) if frozen else given_results) if pre else C["Store"](tape)
            nm = None
            if noisy:
                nm = C["Noisy"](tape, places, flips, DepolarisingNoiseModel(measure_error_prob=0.5) if free else None)
                if shape:
                    nm = ComposeNoiseModel([nm, NoiselessNoiseModel()] if shape == 1 else [ComposeNoiseModel([NoiselessNoiseModel(), nm])])
            if kind == "rec":
                be = C["Recorder"](tape, sel, [] if given else list(p.input_nodes))
            elif kind == "tn":
                be = C["tn"](p, "sequential" if shape else "auto", branch_selector=sel)
            else:
                be = C[kind].with_capacity(10, branch_selector=sel) if kind == "sv" else C[kind](branch_selector=sel)
            if not given and kind != "rec":
                be.add_nodes(list(p.input_nodes), data)
                tape.ev.clear()
            kw = {"noise_model": nm} if nm else {}
            if custom_prep:
                kw["prepare_method"] = C["Prep"](tape)
            x = data if given else None
            if way < 0.4:
                p.simulate(backend=be, input_state=x, rng=g, measure_method=mm, **kw)
            else:
                s = PatternSimulator(p, be, measure_method=mm, **kw)
                s.run(x, rng=g)
                if s.measure_method is not mm or s.pattern is not p:
                    raise AssertionError("the simulator does not report its pattern or measure method")
            return tape, dict(mm.results)

        cid = f"r{i}"
        with sr.quiet():
            got, _ = observe(chk, cid, once, org)
            if got is None:
                continue
            disturb(rng)
            two, _ = observe(chk, cid, once, org)
        if two is None:
            continue
        if got[0].bad or two[0].bad:
            chk.violate(cid, "generator-not-forwarded", {"origin": org, "where": got[0].bad})
            continue
        if before != list(map(repr, p)):
            chk.violate(cid, "pattern-altered", {"origin": org})
        prog = (acts(places.get("in", [])) if given else []) + [x for k, c in enumerate(cmds) for x in (*acts(places.get((k, 0), [])), c, *acts(places.get((k, 1), [])))]
        cases.append({"id": cid, "cmds": prog, "ins": list(p.input_nodes), "input": int(given), "indata": repr(data), "outs": list(p.output_nodes),
                      "sel": selrec, "noisy": int(noisy), "free": int(free), "conf": flips, "pre": [list(x) for x in pre.items()], "kept": [[int(k), int(v)] for k, v in given_results.items()],
                      "trace": got[0].ev, "again": two[0].ev, "final": [[int(k), int(v)] for k, v in got[1].items()]})
        meta[cid] = org
    res = run_batch("Run", cases, coverage=True, timeout=800 if quick else 7000, chunk=6000)
    chk.absorb(res, cases, meta)
    frequencies(chk, rng, 40 if quick else 400)
    chk.cov = {"runs": 2 * len(cases), "events": sum(len(c["trace"]) for c in cases), "decided_by": "Run.tla accepts or rejects every recorded history"}
