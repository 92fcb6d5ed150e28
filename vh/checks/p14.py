"""P14: Clifford, Pauli, plane and axis algebra agrees with matrices (exhaustive)."""
from __future__ import annotations

import itertools
import math
import random

import numpy as np

from .. import dump
from ..tlc import run_batch
from ..util import case, observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification Algebra.tla (matrices over an exact field) evaluated by TLC on the exhaustively recorded operation tables; Clifford open graphs through MBQC.tla"
NOTE = ("Exhaustive over the 24 Cliffords, all pairs, all signed Paulis with units, all planes, axes, signs and units; random only for the matrices given to try_from_matrix and the angles of Plane.polar. "
        "Trusts TLC and the float-to-field reading of Clifford matrices (checked to 1e-6).")


def field(z: complex):
    """A complex number a + b i or (a + b i)/sqrt(2) with small integers a, b -> field element; None if it is neither."""
    for s, f in ((1.0, 1), (math.sqrt(2), 64)):
        w = complex(z) * s
        re, im = round(w.real), round(w.imag)
        if abs(w - complex(re, im)) < 1e-9:
            return [(f * re) % 8191, (f * im) % 8191]
    return [1234, 4321]


def vec(a) -> list:
    return [field(z) for z in np.asarray(a, dtype=complex).reshape(-1)]


def raw(m) -> list:
    """Matrix read entry by entry (all entries of a Clifford or Pauli matrix are of the form above, up to an eighth root of unity)."""
    m = np.asarray(m, dtype=complex).reshape(-1)
    return [field(z) for z in m]


def pauli(p) -> list:
    from graphix.fundamentals import I

    return ["I" if p.symbol == I else p.symbol.name, p.unit.value]


def run(chk):
    from graphix.clifford import Clifford, Domains
    from graphix.fundamentals import Axis, ComplexUnit, Plane, Sign
    from graphix.ops import Ops
    from graphix.pauli import Pauli
    from graphix.states import BasicStates

    rng = random.Random(chk.seed * 4447 + 14)
    cs, kinds, meta = [], {}, {}

    def add(t, cid, fn, **kw):
        kinds[t] = kinds.get(t, 0) + 1
        cid = f"{t}-{cid}"
        try:
            got, _ = observe(chk, cid, fn, {"case": cid})
            if got is not None:
                c = {"t": t, "id": cid, **kw, **got}
                cs.append(c)
                meta[cid] = {"case": cid, "observed": repr(got)[:300]}
        except dump.OffGrid as e:
            chk.violate(cid, "off-grid", {"error": str(e)})

    cl = list(Clifford)
    mats = {c: dump.clifford_matrix(c) for c in cl}
    if len(cl) != 24:
        chk.violate("cliff", "count", {"n": len(cl)})
    U = list(ComplexUnit)
    PS = [Pauli(s, u) for s in (Pauli.I.symbol, Axis.X, Axis.Y, Axis.Z) for u in U]
    if list(Pauli) != PS or len(PS) != 16 or list(Pauli.iterate(symbol_only=True)) != [p for p in PS if p.unit == ComplexUnit.ONE]:
        chk.violate("paulis", "enumeration", {"got": repr(list(Pauli))})

    hn = {Clifford.I: "I", Clifford.H: "H", Clifford.S: "S", Clifford.Z: "Z"}
    for c in cl:
        i = c.value
        add("cliff", i, lambda c=c: {"m": mats[c], "hsz": [hn.get(g, "?") for g in c.hsz], "qasm": list(c.qasm3), "conj": dump.clifford_matrix(c.conj)})
        for d in cl:
            add("cmul", f"{i}-{d.value}", lambda c=c, d=d: {"a": mats[c], "b": mats[d], "r": dump.clifford_matrix(c @ d)})
            add("cdist", f"{i}-{d.value}", lambda c=c, d=d: {"a": mats[c], "b": mats[d], "same": int(c == d)})
        for p in PS:
            add("cmeas", f"{i}-{p!r}", lambda c=c, p=p: {"m": mats[c], "p": pauli(p), "r": pauli(c.measure(p))})
        for ax in Axis:
            add("caxis", f"{i}-{ax.name}", lambda c=c, ax=ax: {"m": mats[c], "ax": ax.name, "r": ax.clifford(c).name})
            add("cmeas", f"{i}-axis{ax.name}", lambda c=c, ax=ax: {"m": mats[c], "p": [ax.name, 0], "r": pauli(c.measure_axis(ax))})
        for s, t in itertools.product((0, 1), repeat=2):
            def dom(c=c, s=s, t=t):
                # two symbols 1 (in s) and 2 (in t); symbol 3 in both when both are set, to see the symmetric difference
                S, T = ({7} if s else set()), ({7} if t else set())
                r = c.commute_domains(Domains(S, T))
                if S != ({7} if s else set()) or T != ({7} if t else set()):
                    raise AssertionError("argument domains modified")
                return {"m": mats[c], "s": s, "tt": t, "s2": int(7 in r.s_domain), "t2": int(7 in r.t_domain)}
            add("cdom", f"{i}-{s}{t}", dom)
        # linearity of commute_domains in the sets: a mixed example determined by the four cases above
        r = c.commute_domains(Domains({1, 3}, {2, 3}))
        b = {(s, t): c.commute_domains(Domains({0} if s else set(), {0} if t else set())) for s in (0, 1) for t in (0, 1)}
        exp_s = {n for n, st in ((1, (1, 0)), (2, (0, 1)), (3, (1, 1))) if b[st].s_domain}
        exp_t = {n for n, st in ((1, (1, 0)), (2, (0, 1)), (3, (1, 1))) if b[st].t_domain}
        if set(r.s_domain) != exp_s or set(r.t_domain) != exp_t:
            chk.violate(f"cdom-{i}-linear", "domains", {"got": repr(r), "expected": [sorted(exp_s), sorted(exp_t)]})
        for pl in Plane:
            def plc(c=c, pl=pl):
                r = pl.clifford(c)
                return {"pl": pl.name, "ax": [a.name for a in pl.axes], "r": r.name, "rx": [a.clifford(c).name for a in pl.axes]}
            add("cplane", f"{i}-{pl.name}", plc)
        # try_from_matrix: the Clifford itself with any nonzero factor
        for k in range(6 if chk.tier == "quick" else 40):
            ph = complex(rng.uniform(0.2, 3) * np.exp(1j * rng.uniform(0, 7)))
            add("cfrom", f"{i}-{k}", lambda c=c, ph=ph: (lambda r: {"a": mats[c], "found": int(r is not None), "cliff": 1, "r": dump.clifford_matrix(r) if r else mats[c]})(Clifford.try_from_matrix(c.matrix * ph)))
    for nm, c in (("id", Clifford.I), ("x", Clifford.X), ("y", Clifford.Y), ("z", Clifford.Z), ("s", Clifford.S), ("sdg", Clifford.SDG), ("h", Clifford.H)):
        add("cname", nm, lambda nm=nm, c=c: {"m": dump.clifford_matrix(c), "name": nm})
    for nm, m in (("id", Ops.I), ("x", Ops.X), ("y", Ops.Y), ("z", Ops.Z), ("s", Ops.S), ("sdg", Ops.SDG), ("h", Ops.H)):
        add("cname", "ops-" + nm, lambda nm=nm, m=m: {"m": raw(m), "name": nm})
    # matrices that are no Clifford
    for k in range(60 if chk.tier == "quick" else 2000):
        a, b = rng.uniform(0, 2), rng.uniform(0, 2)
        kind = k % 4
        if kind == 0:
            m = Ops.rz(rng.choice([0.25, 0.1, 1.3])) @ rng.choice(cl).matrix
        elif kind == 1:
            m = rng.choice(cl).matrix @ Ops.rx(math.pi * rng.choice([0.25, 0.75, 1.25])) @ rng.choice(cl).matrix
        elif kind == 2:
            m = np.array([[1, 0], [0, 0]]) if k % 8 == 2 else np.array([[1, 1], [1, 1]]) if k % 8 == 6 else np.zeros((2, 2))
        else:
            m = Ops.ry(0.3 + a) @ Ops.rz(0.4 + b)
            # is it one by accident?  (compared with every Clifford up to phase)
        add("cfrom", f"non-{k}", lambda m=m: (lambda r: {"a": mats[cl[0]], "found": int(r is not None), "cliff": 0, "r": [[5, 5]] * 4})(Clifford.try_from_matrix(np.asarray(m, dtype=complex))))
    add("cfrom", "shape", lambda: (lambda r: {"a": mats[cl[0]], "found": int(r is not None), "cliff": 0, "r": [[5, 5]] * 4})(Clifford.try_from_matrix(np.eye(4))))

    # Pauli operators with units
    values = {ComplexUnit.ONE: (1, 1.0, 1 + 0j), ComplexUnit.J: (1j,), ComplexUnit.MINUS_ONE: (-1, -1.0, -1 + 0j), ComplexUnit.MINUS_J: (-1j,)}
    for a in PS:
        add("pmat", repr(a), lambda a=a: {"m": raw(a.matrix), "a": pauli(a)})
        add("punit", f"neg{a!r}", lambda a=a: {"a": pauli(a), "u": 2, "r": pauli(-a)})
        for b in PS:
            add("pmul", f"{a!r}@{b!r}", lambda a=a, b=b: {"a": pauli(a), "b": pauli(b), "r": pauli(a @ b)})
        for u in U:
            add("punit", f"{u.value}*{a!r}", lambda a=a, u=u: {"a": pauli(a), "u": u.value, "r": pauli(u * a)})
            add("punit", f"{a!r}*{u.value}", lambda a=a, u=u: {"a": pauli(a), "u": u.value, "r": pauli(a * u)})
            for k, v in enumerate(values[u]):
                add("punit", f"{a!r}*v{u.value}{k}", lambda a=a, u=u, v=v: {"a": pauli(a), "u": u.value, "r": pauli(a * v)})
                add("punit", f"v{u.value}{k}*{a!r}", lambda a=a, u=u, v=v: {"a": pauli(a), "u": u.value, "r": pauli(v * a)})
        for sg in Sign:
            add("punit", f"s{sg.value}*{a!r}", lambda a=a, sg=sg: {"a": pauli(a), "u": 0 if sg == Sign.PLUS else 2, "r": pauli(sg * a)})
            add("punit", f"{a!r}*s{sg.value}", lambda a=a, sg=sg: {"a": pauli(a), "u": 0 if sg == Sign.PLUS else 2, "r": pauli(a * sg)})
    for p in (Pauli.I, Pauli.X, Pauli.Y, Pauli.Z):
        for b in (0, 1):
            add("peig", f"{p!r}{b}", lambda p=p, b=b: {"s": pauli(p)[0], "b": b, "v": vec(p.eigenstate(b).to_statevector_numpy())})
    from graphix._linalg import MatGF2
    from graphix.circ_ext.extraction import PauliString

    def letters(ps):
        return {"dim": ps.dim, "axes": [ps.axes[i].name if i in ps.axes else "I" for i in range(ps.dim)], "sign": int(ps.sign),
                "extra": len(set(ps.axes) - set(range(ps.dim)))}

    def read(bits, shape=None):
        try:
            ps = PauliString.from_tableau(MatGF2(np.array(bits, dtype=np.uint8).reshape(shape or (len(bits),))))
        except ValueError:
            return {"tab": bits, "flat": int(shape is None), "found": 0}
        return {"tab": bits, "flat": int(shape is None), "found": 1, **letters(ps)}

    for k in range(64):
        bits = [k >> j & 1 for j in range(6)]
        for n in (1, 2, 3, 4, 5, 6):
            if k < 1 << n:
                add("ptab", f"read{n}-{k}", lambda b=bits[:n]: read(b))
    for k in range(12):
        n = rng.choice([1, 3, 4, 9, 17])
        bits = [rng.randrange(2) for _ in range(n)]
        add("ptab", f"read-random{k}", lambda b=bits: read(b))
        add("ptab", f"read-2d{k}", lambda b=bits: read(b, (1, len(b))))
    for k in range(150):
        n = rng.choice([0, 1, 2, 2, 3, 5])
        ps = PauliString(n, {i: rng.choice(list(Axis)) for i in rng.sample(range(n), rng.randrange(n + 1))}, rng.choice(list(Sign)))
        add("ptab", f"write{k}", lambda ps=ps: {"tab": [int(b) for b in ps.to_tableau()], "flat": 1, "found": 1, **letters(ps)})
    for ax, p in ((Axis.X, Pauli.X), (Axis.Y, Pauli.Y), (Axis.Z, Pauli.Z)):
        add("pmat", f"axis{ax.name}", lambda ax=ax: {"m": raw(Pauli.from_axis(ax).matrix), "a": [ax.name, 0]})
        add("pmat", f"attr{ax.name}", lambda p=p, ax=ax: {"m": raw(p.matrix), "a": [p.axis.name, 0]})
    for nm, s, b in (("PLUS", "X", 0), ("MINUS", "X", 1), ("PLUS_I", "Y", 0), ("MINUS_I", "Y", 1), ("ZERO", "Z", 0), ("ONE", "Z", 1)):
        add("peig", f"basic-{nm}", lambda nm=nm, s=s, b=b: {"s": s, "b": b, "v": vec(getattr(BasicStates, nm).to_statevector_numpy())})

    # units
    for a in U:
        z = complex(a)
        add("uprop", a.name, lambda a=a, z=z: {"a": a.value, "sign": int(a.sign), "imag": int(a.is_imag), "re": round(z.real) % 8191, "im": round(z.imag) % 8191})
        add("unit", f"neg{a.name}", lambda a=a: {"a": a.value, "b": 2, "r": (-a).value})
        for b in U:
            add("unit", f"{a.name}*{b.name}", lambda a=a, b=b: {"a": a.value, "b": b.value, "r": (a * b).value})
            for k, v in enumerate(values[b]):
                add("unit", f"{a.name}*v{b.name}{k}", lambda a=a, b=b, v=v: {"a": a.value, "b": b.value, "r": (a * v).value})
                add("unit", f"v{b.name}{k}*{a.name}", lambda a=a, b=b, v=v: {"a": a.value, "b": b.value, "r": (v * a).value})
    for sg in Sign:
        for im in (False, True):
            add("unit", f"props{sg.value}{im}", lambda sg=sg, im=im: {"a": 0 if sg == Sign.PLUS else 2, "b": int(im), "r": ComplexUnit.from_properties(sign=sg, is_imag=im).value})
    for re, im in itertools.product(range(-2, 3), repeat=2):
        for den in (1, 2, 3):
            v = complex(re, im) / den
            if den > 1 and (re % den == 0 and im % den == 0):
                continue
            def ufrom(v=v, re=re, im=im, den=den):
                r = ComplexUnit.from_or_none(v)
                return {"re": re % 8191, "im": im % 8191, "den": den, "r": -1 if r is None else r.value}
            add("ufrom", f"{re}_{im}_{den}", ufrom)

    # signs, planes, axes
    for a in Sign:
        add("sign", f"neg{a.value}", lambda a=a: {"a": a.value, "b": -1, "r": int(-a)})
        for b in Sign:
            add("sign", f"{a.value}*{b.value}", lambda a=a, b=b: {"a": a.value, "b": b.value, "r": int(a * b)})
        for v in (3, -2, 5):
            add("sign", f"{a.value}*i{v}", lambda a=a, v=v: {"a": a.value, "b": v, "r": a * v})
            add("sign", f"i{v}*{a.value}", lambda a=a, v=v: {"a": a.value, "b": v, "r": v * a})
            add("sign", f"{a.value}*f{v}", lambda a=a, v=v: {"a": a.value, "b": v, "r": int(a * float(v))})
            add("sign", f"c{v}*{a.value}", lambda a=a, v=v: {"a": a.value, "b": v, "r": int((complex(v) * a).real)})
    for b in (False, True):
        add("sign", f"plus{b}", lambda b=b: {"a": 1 if b else -1, "b": 1, "r": int(Sign.plus_if(b))})
        add("sign", f"minus{b}", lambda b=b: {"a": -1 if b else 1, "b": 1, "r": int(Sign.minus_if(b))})
    for pl in Plane:
        add("plane", pl.name, lambda pl=pl: {"pl": pl.name, "cos": pl.cos.name, "sin": pl.sin.name, "axes": [a.name for a in pl.axes], "orth": pl.orth.name,
                                              "back": Plane.from_axes(*pl.axes).name, "back2": Plane.from_axes(*reversed(pl.axes)).name})
        for k in range(30 if chk.tier == "quick" else 300):
            g = rng.choice([0, 2048, 4096, -2048, 1024]) if k < 5 else 2 * rng.randrange(-4096, 4096)

            def polar(pl=pl, g=g):
                v = pl.polar(g / 4096)
                c, s = math.cos(math.pi * g / 4096), math.sin(math.pi * g / 4096)
                # name each entry by its value; ambiguous only where cos = sin or one is zero, in which case names coincide in value
                out = []
                for x in v:
                    if abs(x - c) < 1e-9 and abs(x - s) < 1e-9:
                        out.append("c")
                    elif abs(x - c) < 1e-9 and abs(x) > 1e-9:
                        out.append("c")
                    elif abs(x - s) < 1e-9 and abs(x) > 1e-9:
                        out.append("s")
                    elif abs(x) < 1e-9:
                        out.append("0")
                    else:
                        out.append("?")
                return {"pl": pl.name, "a": g, "r": out}
            add("polar", f"{pl.name}-{k}", polar)

    # Clifford gates as open graphs of Pauli measurements
    mc, mm = [], {}
    for c in cl:
        cid = f"og-{c.value}"
        og, _ = observe(chk, cid, lambda: c.to_opengraph(), {"clifford": c.value})
        if og is None:
            continue
        if og.output_cliffords:
            chk.violate(cid, "local-clifford-free", {"og": repr(og)})
        a = dump.opengraph(og)
        b = {"inputs": [0], "outputs": [0], "cmds": [{"k": "C", "n": 0, "m": mats[c]}], "sched": [1]}
        mc.append(case(cid, a, b, [], [[[int(n), 0] for n in og.measurements]], nz=1))
        mm[cid] = {"clifford": c.value, "opengraph": repr(og)}
    res = run_batch("Algebra", cs, coverage=True)
    chk.absorb(res, cs, meta)
    res2 = run_batch("MBQC", mc, coverage=True)
    chk.absorb(res2, mc, mm)
    chk.cov["by_kind"] = {**kinds, "opengraph": len(mc)}
    chk.assumptions.append("all operation tables exhaustively; angles and polar forms sampled")
