"""P15: measurement transformations describe the same physical measurement."""
from __future__ import annotations

import random
import warnings

from .. import dump, gen
from ..tlc import run_batch
from ..util import branches, case, observe, rel

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification Algebra.tla (measurements as ordered pairs of projectors over an exact field) and MBQC.tla (measurement commands and whole patterns, every branch), run by TLC on recorded calls"
NOTE = ("Exhaustive over planes x special angles x 24 Cliffords and over signed Pauli axes; random further angles, tolerances, patterns and open graphs. Angles lie on the grid pi/2048. "
        "Trusts TLC.")


def enc(m) -> list:
    """Raw reading of a measurement (angles are not reduced modulo a turn)."""
    from graphix.measurements import PauliMeasurement

    if isinstance(m, PauliMeasurement):
        return ["P", m.axis.name, m.sign.value]
    return ["B", m.plane.name, dump.grid(m.angle)]


def micro(a) -> int:
    k = round(float(a) * 1e6)
    if abs(float(a) * 1e6 - k) > 1e-3:
        raise dump.OffGrid(repr(a))
    return k


def run(chk):
    from graphix.clifford import Clifford
    from graphix.command import M
    from graphix.fundamentals import Axis, Plane, Sign
    from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
    from graphix.transpiler import normalize_angle

    warnings.simplefilter("ignore")
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 7727 + 15)
    cs, kinds, meta = [], {}, {}

    def add(t, cid, fn, **kw):
        kinds[t] = kinds.get(t, 0) + 1
        cid = f"{t}-{cid}"
        try:
            got, _ = observe(chk, cid, fn, {"case": cid})
            if got is not None:
                cs.append({"t": t, "id": cid, **kw, **got})
                meta[cid] = {"case": cid, "observed": repr(got)[:300]}
        except dump.OffGrid as e:
            chk.violate(cid, "off-grid", {"error": str(e)})

    cl = list(Clifford)
    mats = {c: dump.clifford_matrix(c) for c in cl}
    paulis = [PauliMeasurement(a, s) for a in Axis for s in Sign]
    if list(PauliMeasurement) != paulis or len(paulis) != 6:
        chk.violate("paulis", "enumeration", {"got": repr(list(PauliMeasurement))})
    angles = [k / 4 for k in range(-8, 12)] + [0, 1, 2, -1, 3] + [2 * rng.randrange(-3000, 4096) / 4096 for _ in range(8 if quick else 60)]
    blochs = [BlochMeasurement(a, pl) for pl in Plane for a in angles]
    ms = [*paulis, *blochs]
    for i, m in enumerate(ms):
        for c in cl:
            add("mcliff", f"{i}-{c.value}", lambda m=m, c=c: {"a": enc(m), "r": enc(m.clifford(c)), "m": mats[c]})
        add("mconv", f"bloch-{i}", lambda m=m: {"a": enc(m), "r": enc(m.to_bloch()), "want": "B"})
        def por(m=m):
            r = m.to_pauli_or_none()
            return {"a": enc(m), "found": int(r is not None), "r": enc(r) if r is not None else ["P", "X", 1]}
        add("mpauli", f"none-{i}", por)
        def pob(m=m):
            r = m.to_pauli_or_bloch()
            f = isinstance(r, PauliMeasurement)
            if not f and r != m:
                raise AssertionError(f"unrecognised measurement changed: {r!r}")
            return {"a": enc(m), "found": int(f), "r": enc(r)}
        add("mpauli", f"orbloch-{i}", pob)
        def down(m=m):
            try:
                r = m.downcast_bloch()
            except TypeError:
                if not isinstance(m, PauliMeasurement):
                    raise
                return {"a": enc(m), "r": enc(m), "want": "P"}
            return {"a": enc(m), "r": enc(r), "want": "B"}
        add("mconv", f"down-{i}", down)
    for i, m in enumerate(paulis):
        add("mflip", f"{i}", lambda m=m: {"a": enc(m), "r": enc(-m)})
        add("mconv", f"pos-{i}", lambda m=m: {"a": enc(m), "r": enc(+m), "want": "P"})
        add("mconv", f"pauli-{i}", lambda m=m: {"a": enc(m), "r": enc(PauliMeasurement(m.to_pauli().axis, m.to_pauli().unit.sign)), "want": "P"})
        for j, n in enumerate(paulis):
            add("mclose", f"p{i}-{j}", lambda m=m, n=n: {"a": enc(m), "b": enc(n), "u": 0, "v": 0, "R": 0, "A": 0, "r": int(m.isclose(n))})
        for j, n in enumerate(blochs[::7]):
            add("mclose", f"pb{i}-{j}", lambda m=m, n=n: {"a": enc(m), "b": enc(n), "u": 0, "v": 0, "R": 0, "A": 0, "r": int(m.isclose(n))})
            add("mclose", f"bp{i}-{j}", lambda m=m, n=n: {"a": enc(n), "b": enc(m), "u": 0, "v": 0, "R": 0, "A": 0, "r": int(n.isclose(m))})
    for nm, m, w in (("X", Measurement.X, ["P", "X", 1]), ("Y", Measurement.Y, ["P", "Y", 1]), ("Z", Measurement.Z, ["P", "Z", 1]),
                     ("XY", Measurement.XY(0.25), ["B", "XY", 1024]), ("YZ", Measurement.YZ(0.25), ["B", "YZ", 1024]), ("XZ", Measurement.XZ(0.25), ["B", "XZ", 1024])):
        add("mconv", f"ctor-{nm}", lambda m=m, w=w: {"a": w, "r": enc(m), "want": w[0]})
    # comparison with tolerances; angles in millionths of pi
    for i in range(1500 if quick else 20000):
        pl = rng.choice(list(Plane))
        pl2 = pl if rng.random() < 0.85 else rng.choice(list(Plane))
        u = rng.choice([0, 500000, 1000000, 1500000, -500000, 250000, 2000000, rng.randrange(-2000000, 2000000)])
        R, A = rng.choice([(0, 0), (0, 0), (1, 0), (10, 0), (0, 1), (0, 20), (5, 5)])
        d = rng.choice([0, 0, 1, 3, rng.randrange(40), rng.randrange(2000), rng.randrange(60000), 2000000])
        v = u + rng.choice([d, -d])
        if abs(u - v) * 1000 in (R * max(abs(u), abs(v)), A * 1000000) and u != v:
            continue
        num = lambda k: k // 1000000 if k % 1000000 == 0 and rng.random() < 0.5 else k / 1e6
        a, b = num(u), num(v)
        kw = {} if (R, A) == (0, 0) else {"rel_tol": R / 1000, "abs_tol": A / 1000}
        def close(a=a, b=b, pl=pl, pl2=pl2, kw=kw, u=u, v=v, R=R, A=A):
            return {"a": ["B", pl.name, 0], "b": ["B", pl2.name, 0], "u": u, "v": v, "R": R, "A": A,
                    "r": int(BlochMeasurement(a, pl).isclose(BlochMeasurement(b, pl2), **kw))}
        add("mclose", f"{i}", close)
    for k, (a, b, w) in enumerate([(1, 1.0000000001, 1), (1, 1.00001, 0), (0.5, 0.50000000001, 1), (0.5, 0.5000001, 0), (0, 1e-12, 0), (2, 2.0, 1)]):
        r = BlochMeasurement(a, Plane.XY).isclose(BlochMeasurement(b, Plane.XY))
        if bool(r) != bool(w):
            chk.violate(f"close-default-{k}", "isclose", {"a": a, "b": b, "got": r})
    # recognition of Pauli angles with tolerances
    for i in range(1500 if quick else 20000):
        pl = rng.choice(list(Plane))
        q = 500000 * rng.randrange(-5, 8)
        R, A = rng.choice([(1, 0), (10, 0), (100, 0), (0, 1), (0, 20), (5, 5)])
        e = rng.choice([0, 1, 5, rng.randrange(600), rng.randrange(20000), rng.randrange(240000)])
        u = q + rng.choice([e, -e])
        def tol(pl=pl, q=q, u=u, R=R, A=A, i=i):
            m = BlochMeasurement(u / 1e6, pl)
            if i % 2:
                r = m.to_pauli_or_none(rel_tol=R / 1000, abs_tol=A / 1000)
            else:
                r = m.to_pauli_or_bloch(rel_tol=R / 1000, abs_tol=A / 1000)
                if not isinstance(r, PauliMeasurement):
                    if r != m:
                        raise AssertionError(f"unrecognised measurement changed: {r!r}")
                    r = None
            return {"pl": pl.name, "u": u, "q": q, "R": R, "A": A, "found": int(r is not None), "r": enc(r) if r is not None else ["P", "X", 1]}
        add("mtol", f"{i}", tol)
    for i in range(200 if quick else 2000):
        u = rng.choice([0, 1000000, 2000000, -1000000, 3000000, -2000000, 500000, rng.randrange(-5000000, 5000000)])
        a = u // 1000000 if u % 1000000 == 0 and rng.random() < 0.5 else u / 1e6
        add("mnorm", f"{i}", lambda a=a, u=u: {"u": u, "r": micro(normalize_angle(a))})
    res = run_batch("Algebra", cs, coverage=True)
    chk.absorb(res, cs, meta)

    # commands: a Clifford followed by a measurement is the measurement M.clifford returns
    mc, mm = [], {}

    def prog(cmds):
        return {"inputs": [0, 1, 2], "outputs": [], "cmds": cmds, "sched": list(range(1, len(cmds) + 1))}
    pre = [{"k": "M", "n": 1, "pl": "XY", "a": 512, "s": [], "t": []}, {"k": "M", "n": 2, "pl": "XZ", "a": 768, "s": [], "t": []}]
    for i in range(600 if quick else 6000):
        m = rng.choice(ms)
        c = rng.choice(cl)
        s, t = gen.subset(rng, [1, 2], 0.5), gen.subset(rng, [1, 2], 0.5)
        cid = f"cmd-{i}"
        cmd = M(0, m, set(s), set(t))
        org = {"command": repr(cmd), "clifford": repr(c)}
        got, _ = observe(chk, cid, lambda: cmd.clifford(c), org)
        if got is None:
            continue
        if cmd != M(0, m, set(s), set(t)):
            chk.violate(cid, "argument-modified", {**org, "now": repr(cmd)})
        a = prog([*pre, dump.command(got)])
        b = prog([*pre, {"k": "C", "n": 0, "m": mats[c]}, dump.command(cmd)])
        mc.append(case(cid, a, b, [rel(n, [n]) for n in (0, 1, 2)], [[]], nz=0))
        mm[cid] = {**org, "result": repr(got)}
    # whole patterns and open graphs
    for i in range(150 if quick else 1500):
        p = gen.small_pattern(rng)
        before = dump.pattern(p)
        for nm, f in (("to_bloch", lambda q: q.to_bloch()), ("blochify", lambda q: q.blochify()), ("blochify-copy", lambda q: q.blochify(copy=True)),
                      ("infer", lambda q: q.infer_pauli_measurements()), ("infer-copy", lambda q: q.infer_pauli_measurements(copy=True)),
                      ("map", lambda q: q.map(lambda m: m.to_pauli_or_bloch())), ("apply", lambda q: q.apply(lambda m: m.to_bloch()))):
            if rng.random() < 0.5:
                continue
            cid = f"pat-{i}-{nm}"
            q = gen.rebuild(p)
            r, _ = observe(chk, cid, lambda: f(q), {"pattern": repr(p), "op": nm})
            if r is None:
                continue
            want = PauliMeasurement if nm in ("infer", "infer-copy", "map") else BlochMeasurement
            for x in r:
                if isinstance(x, M):
                    bad = (not isinstance(x.measurement, BlochMeasurement)) if want is BlochMeasurement else \
                        (isinstance(x.measurement, BlochMeasurement) and (2 * x.measurement.angle) % 1 == 0)
                    if bad:
                        chk.violate(cid, "form", {"pattern": repr(p), "op": nm, "command": repr(x)})
            if nm in ("blochify", "infer", "apply") and r is not q:
                chk.violate(cid, "not-in-place", {"pattern": repr(p), "op": nm})
            if nm in ("to_bloch", "blochify-copy", "infer-copy", "map") and dump.pattern(q) != before:
                chk.violate(cid, "argument-modified", {"pattern": repr(p), "op": nm})
            a, b = dump.pattern(r), before
            meas = dump.measured(a)
            k = case(cid, a, b, [rel(n, [n]) for n in dump.measured(b)], branches(rng, meas, 8))
            if chk.affordable(k, 20000):
                mc.append(k)
                mm[cid] = {"pattern": repr(p), "op": nm, "result": repr(r)}
        og, _ = observe(chk, f"og-{i}", lambda: gen.rebuild(p).to_opengraph(), None, expect=(ValueError, NotImplementedError))
        if og is None:
            continue
        for nm, f in (("to_bloch", lambda g: g.to_bloch()), ("infer", lambda g: g.infer_pauli_measurements()), ("map", lambda g: g.map(lambda m: m.to_bloch()))):
            cid = f"og-{i}-{nm}"
            r, _ = observe(chk, cid, lambda: f(og), {"og": repr(og), "op": nm})
            if r is None:
                continue
            if not r.is_equal_structurally(og) or set(r.measurements) != set(og.measurements):
                chk.violate(cid, "structure", {"og": repr(og), "result": repr(r)})
            a, b = dump.opengraph(r), dump.opengraph(og)
            k = case(cid, a, b, [rel(n, [n]) for n in dump.measured(b)], branches(rng, dump.measured(a), 4))
            if chk.affordable(k, 20000):
                mc.append(k)
                mm[cid] = {"og": repr(og), "op": nm, "result": repr(r)}
    res = run_batch("MBQC", mc, coverage=True)
    chk.absorb(res, mc, mm)
    chk.cov["by_kind"] = {**kinds, "mbqc": len(mc)}
