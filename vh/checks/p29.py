"""P29: textual representations read back to the same object."""
from __future__ import annotations

import random
from fractions import Fraction

import numpy as np

from .. import gen
from ..flowgen import AXES, PLANES, flowish_spec
from ..qasm import near
from ..text import lex, tree
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ readers of the programmatic representations (Repr.tla) and of the ASCII, unicode and LaTeX renderings of programs (Text.tla) and states (Ket.tla, exact arithmetic), run by TLC on every recorded text and compared element by element with the object"
NOTE = ("Random and compiled patterns, circuits, flows and corrections with any command, domain, plane, angle (fractions of any size up to 20000, and parameterised) and every rendering option; the programmatic texts are also evaluated with the real "
        "constructors. Trusts TLC, the two lexers and Python's own expression grammar.")


class OffGrid(Exception):
    pass


def frac(x):
    n, d = near(float(x))
    if d == 0:
        raise OffGrid(repr(x))
    return [n, d]


def value(a):
    """An angle: number, or c * name + a."""
    from graphix.parameter import AffineExpression

    if isinstance(a, AffineExpression):
        return {"x": a.x.name, "c": frac(a.a), "a": frac(a.b)}
    return {"x": "", "c": [0, 1], "a": frac(a)}


def meas(m):
    from graphix.fundamentals import Sign
    from graphix.measurements import PauliMeasurement

    if isinstance(m, PauliMeasurement):
        return {"pauli": 1, "pl": m.axis.name, "sg": int(m.sign == Sign.MINUS), "x": "", "c": [0, 1], "a": [0, 1]}
    return {"pauli": 0, "pl": m.plane.name, "sg": 0, **value(m.angle)}


NO_M = {"pauli": 1, "pl": "X", "sg": 0, "x": "", "c": [0, 1], "a": [0, 1]}
PAULIS = {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def images(c):
    """X and Z conjugated by the gate: [axis, sign, axis, sign]."""
    u = np.asarray(c.matrix, dtype=complex)
    out = []
    for p in "XZ":
        r = u @ PAULIS[p] @ u.conj().T
        for q, v in PAULIS.items():
            t = np.trace(v @ r).real / 2
            if abs(abs(t) - 1) < 1e-6:
                out += [q, int(t < 0)]
    return out


def wire_command(c):
    k = c.kind.name
    r = {"k": k, "ns": [], "st": ["XY", [0, 1]], "m": NO_M, "s": [], "t": [], "cl": ["X", 0, "Z", 0]}
    if k == "E":
        r["ns"] = [int(n) for n in c.nodes]
    elif k != "T":
        r["ns"] = [int(c.node)]
    if k == "M":
        r["m"], r["s"], r["t"] = meas(c.measurement), sorted(c.s_domain), sorted(c.t_domain)
    elif k in "XZS":
        r["s"] = sorted(c.domain)
    elif k == "C":
        r["cl"] = images(c.clifford)
    elif k == "N":
        r["st"] = [c.state.plane.name, frac(c.state.angle)]
    return r


def wire_instruction(ins):
    k = ins.kind.name
    r = {"g": k, "a": value(ins.angle) if hasattr(ins, "angle") else value(0), "axis": "Z"}
    match k:
        case "CNOT" | "RZZ":
            r["q"] = [ins.control, ins.target]
        case "CCX":
            r["q"] = [*ins.controls, ins.target]
        case "SWAP" | "CZ":
            r["q"] = list(ins.targets)
        case _:
            r["q"] = [ins.target]
    if k == "M":
        r["axis"] = ins.axis.name
    return r


def rational(rng) -> float:
    """Angles of every kind, including those close to simple fractions."""
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, 1, -1, 2, 0.0, -0.0, 0.5, -0.5, 1.0, 2.0, -2.0, 0.25, 1.5, 3, 0.1 + 0.2, 1 - 0.9])
    if r < 0.65:
        d = rng.randrange(1, 1001)
        return rng.randrange(-3 * d, 3 * d) / d
    if r < 0.8:
        d = rng.choice([999, 1000, 1001, 1002, 1009, 2000, 4096, 19997, rng.randrange(1000, 20000)])
        return rng.randrange(-2 * d, 2 * d) / d
    d = rng.randrange(2000, 20000)
    b = rng.choice([1, 2, 3, 4, 6, 8])
    base = Fraction(rng.randrange(-2 * b, 2 * b + 1), b)
    return float(Fraction(round(base * d) + rng.choice([-1, 0, 1]), d))


class Angles:
    def __init__(self, rng, rate=0.15):
        from graphix.parameter import Placeholder

        self.rate, self.params = rate, [Placeholder(n) for n in ("alpha", "beta", "x1", "pi2")]

    def __call__(self, rng):
        if rng.random() >= self.rate:
            return rational(rng)
        p = rng.choice(self.params)
        r = rng.random()
        if r < 0.3:
            return p
        a = rng.choice([2, -1, 0.5, 3, rng.randrange(1, 500) / rng.randrange(1, 500)]) * p
        return a + rng.choice([0, 1, 0.5, -0.25, rng.randrange(-500, 500) / rng.randrange(1, 500)])


def rand_pattern(rng, ang, i):
    from graphix import command
    from graphix.states import PlanarState
    from graphix.fundamentals import Plane

    if i % 10 == 9:
        p = gen.compiled_pattern(rng, rng.choice([1, 2, 3]), rng.randrange(1, 5), ang=ang)
        if rng.random() < 0.5:
            p.standardize()
        return p
    prep = lambda r: PlanarState(r.choice(list(Plane)), r.choice([0, 1, 0.5, 1.5, 0.25, rational(r)]))  # noqa: E731
    p = gen.small_pattern(rng, any_clifford=True, cliffords=rng.choice([0.1, 0.5]), pauli=rng.choice([0.1, 0.6]), ang=ang, dom=rng.choice([0.1, 0.5, 0.9]),
                          prep=prep if rng.random() < 0.3 else None, plus_only=rng.random() < 0.5)
    if rng.random() < 0.3:
        names = {n: rng.choice([n, n + 10, n + 100, 7 * n + 3]) for n in p.nodes()}
        if len(set(names.values())) == len(names):
            p = p.reindex(names, copy=True) or p
    if rng.random() < 0.2:
        p.add(command.T())
    if rng.random() < 0.2 and p.output_nodes:
        done = [c.node for c in p if c.kind.name == "M"]
        p.add(command.S(rng.choice(p.output_nodes), gen.subset(rng, done, 0.5)))
    if i % 3 == 1:      # every combination of kind of measurement and of domains, empty ones included
        from graphix import Pattern
        from graphix.measurements import PauliMeasurement, Measurement
        from graphix.fundamentals import Axis, Sign

        cmds, done = [], []
        for c in p:
            if c.kind.name == "M":
                m = rng.choice([c.measurement, Measurement.X, PauliMeasurement(rng.choice(list(Axis)), rng.choice(list(Sign)))])
                c = command.M(c.node, m, *(gen.subset(rng, done, 0.6) if rng.random() < 0.6 else set() for _ in "st"))
                done.append(c.node)
            cmds.append(c)
        p = Pattern(input_nodes=p.input_nodes, cmds=cmds, output_nodes=p.output_nodes)
    return p


def namespace(params):
    import graphix
    from graphix import Circuit, Pattern
    from graphix.clifford import Clifford
    from graphix.fundamentals import ANGLE_PI, Axis, ComplexUnit, Plane, Sign
    from graphix.measurements import Measurement
    from graphix.pauli import Pauli
    import graphix.states

    return {"graphix": graphix, "Circuit": Circuit, "Pattern": Pattern, "Clifford": Clifford, "pi": ANGLE_PI, "Axis": Axis, "ComplexUnit": ComplexUnit,
            "Plane": Plane, "Sign": Sign, "Measurement": Measurement, "Pauli": Pauli, **{p.name: p for p in params}}


def run(chk):
    from graphix import command, instruction
    from graphix.clifford import Clifford
    from graphix.command import CommandKind
    from graphix.fundamentals import Axis, ComplexUnit, Plane, Sign
    from graphix.pauli import Pauli
    from graphix.pretty_print import OutputFormat, pattern_to_str

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 15485863 + 29)
    cmds_ns = {k: getattr(command, k) for k in "NEMXZCST"}
    ins_ns = {k.name: getattr(instruction, k.name) for k in instruction.InstructionKind}
    rep, txt, meta = [], [], {}
    skipped = 0

    def represent(cid, mode, obj, wire, info=None, ns=None, ins=(), outs=(), width=0, params=(), whole=None):
        """Record repr(obj), its expression tree and what it evaluates to."""
        nonlocal skipped
        try:
            elts = wire(obj)
        except OffGrid:
            skipped += 1
            return
        text, err = observe(chk, cid, lambda: repr(obj), info)
        if err:
            return
        again = [[], [], [], -1]
        try:
            back = eval(text, {**namespace(params), **(ns or {})})  # noqa: S307 - text produced by the code under test for this very purpose
            again = [wire(back), *(whole(back) if whole else (list(ins), list(outs), width))]
        except Exception as e:  # noqa: BLE001 - the specification rejects what does not come back
            err = repr(e)
        rep.append({"id": cid, "mode": mode, "tree": tree(text), "elts": elts, "ins": list(ins), "outs": list(outs), "width": width, "again": again})
        meta[cid] = {"text": text, "evaluation": err and str(err), "object": info}

    # -- small values, exhaustively
    for c in Clifford:
        represent(f"clifford{c.value}", "clifford", c, lambda x: [{"cl": images(x)}])
    for e in [*Axis, *Plane, *Sign, *ComplexUnit]:
        represent(f"enum-{e!s}-{type(e).__name__}-{e.name}", "enum", e, lambda x: [{"v": f"{type(x).__name__}.{x.name}"}])
    units = [ComplexUnit.ONE, ComplexUnit.J, ComplexUnit.MINUS_ONE, ComplexUnit.MINUS_J]
    for ax in "IXYZ":
        for ph, u in enumerate(units):
            p = Pauli(getattr(Pauli, ax).symbol, u)
            represent(f"pauli{ax}{ph}", "pauli", p, lambda x: [{"ax": x.symbol.name, "ph": units.index(x.unit)}])
    strings(chk, rng, rep, meta, 120 if quick else 1500)

    # -- patterns
    for i in range(320 if quick else 4000):
        ang = Angles(rng, rng.choice([0, 0.15, 0.5]))
        p, err = observe(chk, f"p{i}", lambda: rand_pattern(rng, ang, i), "generated pattern")
        if err:
            continue
        ins, outs = list(p.input_nodes), list(p.output_nodes)
        represent(f"p{i}", "pattern", p, lambda x: [wire_command(c) for c in x], ns=cmds_ns, ins=ins, outs=outs, params=ang.params,
                  whole=lambda x: (list(x.input_nodes), list(x.output_nodes), 0))
        try:
            cmds = [wire_command(c) for c in p]
        except OffGrid:
            continue
        for j, c in enumerate(p):
            if rng.random() < 0.1:
                represent(f"p{i}c{j}", "command", c, lambda x: [wire_command(x)], ns=cmds_ns, params=ang.params)
                if c.kind.name == "M":
                    represent(f"p{i}m{j}", "measurement", c.measurement, lambda x: [meas(x)], params=ang.params)
        due = []
        for c in cmds:
            m = dict(c["m"])
            if m["x"]:      # a coefficient that is not written is one radian
                m["c"] = [0, 0] if abs(m["c"][0] / m["c"][1] * np.pi - 1) < 1e-12 else m["c"]
            due.append({"k": c["k"], "ns": c["ns"], "m": m, "s": c["s"], "t": c["t"]})
        for fmt, of, meth in (("ascii", OutputFormat.ASCII, p.to_ascii), ("unicode", OutputFormat.Unicode, p.to_unicode), ("latex", OutputFormat.LaTeX, p.to_latex)):
            n = len(cmds)
            variants = [({}, 40, ["*"], 0)]
            if rng.random() < 0.7:
                kinds = rng.choice([["*"], ["*"], rng.sample("NEMXZCST", rng.randrange(0, 5))])
                limit = rng.choice([None, None, 0, 1, 2, n - 1, n, n + 1, rng.randrange(0, n + 2)])
                limit = None if limit is not None and limit < 0 else limit
                l2r = rng.random() < 0.5
                kw = {"left_to_right": l2r, "limit": limit}
                if kinds != ["*"]:
                    kw["target"] = rng.choice([list, set, tuple])(CommandKind[k] for k in kinds)
                variants.append((kw, -1 if limit is None else limit, kinds, int(l2r)))
            for v, (kw, limit, kinds, l2r) in enumerate(variants):
                cid = f"p{i}-{fmt}{v}"
                if not kw and fmt == "ascii":
                    fn = lambda: str(p)  # noqa: E731
                elif kw and rng.random() < 0.4:
                    fn = lambda: pattern_to_str(p, of, **kw)  # noqa: E731
                else:
                    fn = lambda: meth(**kw)  # noqa: E731
                text, err = observe(chk, cid, fn, repr(p))
                if err is None:
                    txt.append({"id": cid, "mode": "pattern", "fmt": fmt, "toks": lex(text, fmt), "cmds": due, "kinds": kinds, "l2r": l2r, "limit": limit,
                                "entries": [], "layers": []})
                    meta[cid] = {"text": text, "pattern": repr(p), "options": str(kw)}

    # -- circuits
    for i in range(200 if quick else 2500):
        ang = Angles(rng, rng.choice([0, 0.15, 0.5]))
        w = rng.choice([1, 2, 3, 4, 12])
        c, err = observe(chk, f"c{i}", lambda: gen.circuit(rng, w, rng.randrange(0, 12), measure=0.1, ang=ang), "generated circuit")
        if err:
            continue
        represent(f"c{i}", "circuit", c, lambda x: [wire_instruction(k) for k in x.instruction], ns=ins_ns, width=w, params=ang.params,
                  whole=lambda x: ([], [], x.width))
        for j, k in enumerate(c.instruction):
            if rng.random() < 0.1:
                represent(f"c{i}i{j}", "instruction", k, lambda x: [wire_instruction(x)], ns=ins_ns, params=ang.params)
    for i in range(150 if quick else 3000):
        a = rational(rng)
        represent(f"r{i}", "instruction", instruction.RZ(0, a), lambda x: [wire_instruction(x)], ns=ins_ns)

    flows(chk, rng, txt, meta, 120 if quick else 1500)
    states(chk, rng, meta, 220 if quick else 4000)

    chk.absorb(run_batch("Repr", rep, timeout=600 if quick else 3000), rep, meta)
    chk.absorb(run_batch("Text", txt, timeout=600 if quick else 3000), txt, meta)
    chk.skipped += skipped
    chk.cov.update(representations=len(rep), renderings=len(txt))


def strings(chk, rng, rep, meta, count):
    from graphix.circ_ext.extraction import PauliString
    from graphix.fundamentals import Axis, Sign

    def wire(x):
        return [{"dim": x.dim, "sg": int(x.sign == Sign.MINUS), "axes": sorted([int(n), a.name] for n, a in x.axes.items())}]

    for i in range(count):
        dim = rng.randrange(1, 7)
        s = PauliString(dim=dim, axes={n: rng.choice(list(Axis)) for n in rng.sample(range(dim), rng.randrange(0, dim + 1))}, sign=rng.choice(list(Sign)))
        text, err = observe(chk, f"s{i}", lambda: str(s), s.axes)
        if err:
            continue
        back, err = observe(chk, f"s{i}", lambda: PauliString.from_str(text), text)
        if err:
            continue
        rep.append({"id": f"s{i}", "mode": "string", "tree": {"k": "chars", "a": list(text)}, "elts": wire(s), "ins": [], "outs": [], "width": 0,
                    "again": [wire(back), [], [], 0]})
        meta[f"s{i}"] = {"text": text, "object": wire(s)}


def flows(chk, rng, txt, meta, count):
    for i in range(count):
        s = flowish_spec(rng, rng.randrange(2, 7), PLANES + AXES if i % 2 else PLANES)
        og = s.build(rng, "abstract" if rng.random() < 0.5 else "concrete")
        found = []
        for name in ("to_causalflow_or_none", "to_gflow_or_none", "to_pauliflow_or_none"):
            try:
                f = getattr(og, name)()
            except Exception:  # noqa: BLE001, S112 - other checks judge the flow finders
                continue
            if f is not None:
                found.append(f)
        for f in found:
            objs = [(f, [(f._CF_PREFIX, f.correction_function)])]
            try:
                x = f.to_xzcorrections()
                objs.append((x, [("x", x.x_corrections), ("z", x.z_corrections)]))
            except Exception:  # noqa: BLE001, S110
                pass
            for j, (o, parts) in enumerate(objs):
                entries = [[pre, int(n), sorted(map(int, v))] for pre, cf in parts for n, v in cf.items()]
                layers = [sorted(map(int, l)) for l in o.partial_order_layers]
                for fmt, meth in (("ascii", "to_ascii"), ("unicode", "to_unicode"), ("latex", "to_latex")):
                    for multi in (False, True):
                        if rng.random() < 0.4:
                            continue
                        cid = f"f{i}-{type(f).__name__}-{j}-{fmt}{int(multi)}"
                        fn = (lambda: str(o)) if fmt == "ascii" and not multi and rng.random() < 0.5 else lambda: getattr(o, meth)(multiline=multi)
                        text, err = observe(chk, cid, fn, repr(s))
                        if err is None and cid not in meta:
                            txt.append({"id": cid, "mode": "flow", "fmt": fmt, "toks": lex(text, fmt), "cmds": [], "kinds": ["*"], "l2r": 0, "limit": -1,
                                        "entries": entries, "layers": layers})
                            meta[cid] = {"text": text, "object": [entries, layers]}


PYTH = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25)]
SUMS = [(w, sum(w)) for w in ((1, 3), (1, 2), (2, 3), (1, 4), (1, 5), (1, 1, 2), (1, 2, 4), (1, 1, 1, 5), (1, 2, 2), (3, 4), (1, 6), (1, 9), (2, 2, 3), (1, 1, 4, 4), (1, 2, 3, 4), (3, 10))]


def phase(rng):
    from ..kets import DENS

    d = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12, rng.choice(DENS)])
    return Fraction(rng.randrange(-d, d + 1), d)


def amplitudes(rng, nmax=6):
    """Normalised amplitudes on a few basis states: [(index, amplitude, phase)], modulus when shared, whether every number is simple."""
    from ..kets import Amp, form, plain, surd

    n = min(nmax, rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]))
    kind = rng.choice(["basis", "uniform", "uniform", "pyth", "weights", "weights", "cart", "generic", "generic", "near", "halfgen"])
    if kind == "basis":
        a = form(1, 1, phase(rng))
        return n, [(rng.randrange(2**n), a, a)], form(1), True
    if kind in ("uniform", "pyth"):
        k = rng.randrange(2, min(8, 2**n) + 1)
        mod, out = surd(Fraction(1, k)), []
        for j in rng.sample(range(2**n), k):
            ph = form(1, 1, phase(rng))
            if kind == "pyth" and rng.random() < 0.6:
                a, b, c = rng.choice(PYTH)
                a, b = (a, b) if rng.random() < 0.5 else (b, a)
                ph = form(Fraction(rng.choice([a, -a]), c)) + form(Fraction(rng.choice([b, -b]), c), 1, Fraction(1, 2))
            out.append((j, mod * ph, ph))
        return n, out, mod, kind == "uniform"
    if kind == "weights":
        w, t = rng.choice([x for x in SUMS if len(x[0]) <= 2**n])
        js = rng.sample(range(2**n), len(w))
        out = [(j, surd(Fraction(x, t), phase(rng) if rng.random() < 0.5 else rng.choice([0, 0, 1, Fraction(1, 2), Fraction(-1, 2)])), None) for j, x in zip(js, w)]
        return n, out, None, True
    if kind == "cart":      # a + ib of two simple parts, and what is missing
        a, b = rng.choice([(1, 1), (2, 1), (1, 2), (3, 2), (1, 3), (2, 3)])
        d = rng.choice([4, 5, 6])
        z = form(Fraction(rng.choice([a, -a]), d)) + form(Fraction(rng.choice([b, -b]), d), 1, Fraction(1, 2))
        rest = surd(Fraction(d * d - a * a - b * b, d * d))
        js = rng.sample(range(2**n), 2)
        return n, [(js[0], z, None), (js[1], rest, None)], None, d * d - a * a - b * b in range(1, 1000)
    while True:
        k = rng.randrange(2, min(8, 2**n) + 1)
        if kind == "halfgen":       # a simple common modulus, arbitrary phases
            mod = surd(Fraction(1, k))
            phs = [Amp(z=np.exp(1j * rng.uniform(-3.1, 3.1))) for _ in range(k)]
            out = [(j, mod * p, p) for j, p in zip(rng.sample(range(2**n), k), phs)]
            if rng.random() < 0.5:
                out[0] = (out[0][0], mod, form(1))
            if all(plain(complex(p)) and plain(complex(a)) or p.exact for _, a, p in out):
                return n, out, mod, False
            continue
        if kind == "near":      # close to a simple value, beyond the tolerance
            x = rng.choice([0.5, 1 / 3, 0.25, 2**-0.5, 0.6]) + rng.choice([-1, 1]) * 10 ** rng.uniform(-6.5, -4)
            v = np.array([x, np.sqrt(1 - x * x) * rng.choice([1, 1j, np.exp(1j * rng.uniform(-3, 3))])])
            k = 2
        else:
            v = np.array([complex(rng.gauss(0, 1), rng.choice([0, 1]) * rng.gauss(0, 1)) for _ in range(k)])
            v /= np.linalg.norm(v)
        if all(plain(complex(x)) and abs(x) > 1e-2 for x in v) and max(abs(abs(a) - abs(b)) for a in v for b in v) > 1e-6:
            return n, [(j, Amp(z=complex(x)), None) for j, x in zip(rng.sample(range(2**n), k), v)], None, False


def states(chk, rng, meta, count):
    """Renderings of state vectors, density matrices and numbers."""
    from graphix.pretty_print import OutputFormat, complex_to_str, density_matrix_to_str, statevec_to_str
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.sim.statevec import Statevector

    from ..kets import Amp, form, plain
    from ..text import lexket

    cases = []
    none = Amp([]).wire()
    fmts = (("ascii", OutputFormat.ASCII), ("unicode", OutputFormat.Unicode), ("latex", OutputFormat.LaTeX))

    def add(cid, mode, fmt, text, elts, info, **kw):
        cases.append({"id": cid, "mode": mode, "fmt": fmt, "toks": lexket(text), "lsb": 0, "want": 0, "prec": 4, "width": 1, "uni": 0, "mod": none, **kw, "elts": elts})
        meta[cid] = {"text": text, **info}

    def options(precs=(2, 3, 4, 5, 6)):
        kw = {}
        if rng.random() < 0.3:
            kw["precision"] = rng.choice(precs)
        if rng.random() < 0.2:
            kw["max_denominator"] = rng.choice([1, 2, 3, 10, 100])
        return kw

    for i in range(count):
        n, amps, mod, simple = amplitudes(rng)
        v = np.zeros(2**n, dtype=complex)
        for j, a, _ in amps:
            v[j] = complex(a)
        info = {"amplitudes": str(v.tolist())}
        sv, err = observe(chk, f"k{i}", lambda: Statevector(v), info)
        if err:
            continue
        bits = lambda j: [j >> (n - 1 - b) & 1 for b in range(n)]  # noqa: E731
        elts = [{"b": bits(j), "amp": a.wire(), "ph": p.wire() if p is not None else none} for j, a, p in amps]
        for fmt, of in fmts:
            kw = options()
            lsb = rng.random() < 0.3
            if lsb:
                kw["encoding"] = "LSB"
            cid = f"k{i}-{fmt}"
            if not kw and fmt == "ascii":
                fn = lambda: str(sv)  # noqa: E731
            elif rng.random() < 0.5:
                fn = lambda: sv.draw(of, **kw)  # noqa: E731
            else:
                fn = lambda: statevec_to_str(sv, of, **kw)  # noqa: E731
            text, err = observe(chk, cid, fn, info)
            if err is None:
                add(cid, "state", fmt, text, elts, {**info, "options": str(kw)}, lsb=int(lsb), prec=kw.get("precision", 4), want=int(simple and "max_denominator" not in kw),
                    uni=int(mod is not None), mod=(mod or Amp([])).wire())
        if n <= 2 and rng.random() < 0.6:
            col = [Amp([])] * 2**n
            for j, a, _ in amps:
                col[j] = a
            ents = [x * y.conj() for x in col for y in col]
            if rng.random() < 0.3 and all(a.exact for a in col):
                ents = [form(Fraction(3, 4)) * e + (form(Fraction(1, 4 * 2**n)) if r == 0 else Amp([])) for e, r in zip(ents, [x != y for x in range(2**n) for y in range(2**n)])]
            rho = np.array([complex(e) for e in ents]).reshape(2**n, 2**n)
            if any(0 < abs(x) < 1e-2 for x in rho.flat):
                continue
            if not all(e.exact or abs(complex(e)) == 0 or plain(complex(e)) for e in ents):
                continue        # products of numbers without a simple form may have one
            dm, err = observe(chk, f"d{i}", lambda: DensityMatrix(rho), info)
            if err:
                continue
            elts = [{"b": [], "amp": e.wire(), "ph": none} for e in ents]
            for fmt, of in fmts:
                kw = options()
                cid = f"d{i}-{fmt}"
                fn = (lambda: dm.draw(of, **kw)) if rng.random() < 0.5 else (lambda: density_matrix_to_str(dm, of, **kw))
                text, err = observe(chk, cid, fn, info)
                if err is None:
                    add(cid, "matrix", fmt, text, elts, {"matrix": str(rho.tolist()), "options": str(kw)}, prec=kw.get("precision", 4), width=2**n)
    for i in range(count):
        r = rng.random()
        a = form(Fraction(rng.randrange(-40, 41), rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 16])), rng.choice([1, 1, 2, 3, 5, 6, 7, 10, 13, 15]), phase(rng) if r < 0.5 else rng.choice([0, Fraction(1, 2)]))
        if r > 0.8:
            a = a + form(Fraction(rng.randrange(-40, 41), rng.choice([1, 2, 3, 4, 5, 6])), rng.choice([1, 2, 3]), rng.choice([0, Fraction(1, 2)]))
        if not 1e-2 < abs(complex(a)) < 100:
            continue
        kw = options()
        for fmt, of in fmts:
            text, err = observe(chk, f"v{i}-{fmt}", lambda: complex_to_str(complex(a), of, **kw), str(complex(a)))
            if err is None:
                add(f"v{i}-{fmt}", "value", fmt, text, [{"b": [], "amp": a.wire(), "ph": none}], {"value": str(complex(a)), "options": str(kw)}, prec=kw.get("precision", 4),
                    want=int(r <= 0.8 and "max_denominator" not in kw and a.parts[0][1] ** 2 * 1 <= 1000))
    chk.absorb(run_batch("Ket", cases, timeout=600, coverage=False), cases, meta)
    chk.cov.update(state_renderings=len(cases))
