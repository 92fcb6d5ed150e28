"""P22: parameter substitution commutes with everything."""
from __future__ import annotations

import math
import random

import numpy as np

from .. import dump, gen
from ..tlc import run_batch
from ..util import branches, case, observe, rel

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification Param.tla: affine expressions, objects and substitutions; TLC checks every recorded step of histories of the real code, naturality squares for the transformations; MBQC.tla decides those that depend on the angles"
NOTE = ("Random histories of expression arithmetic and of substitutions (single, simultaneous, by numbers or expressions, copying or in place) on circuits, patterns, open graphs, flows, corrections and symbolic density matrices; "
        "transformations applied before and after a substitution must give the same object (angles modulo a full turn); Pauli-measurement removal is compared semantically on all branches.")
UNIT = 1024


class Params:
    def __init__(self, rng):
        from graphix.parameter import Placeholder

        self.all = [Placeholder(n) for n in ("alpha", "beta", "alpha", "gamma")]     # equal names are different parameters

    def name(self, x):
        for i, y in enumerate(self.all):
            if x is y:
                return f"p{i}"
        return "foreign"


def enc(ps, v):
    """Value -> (exact?, [a, x, b, i])."""
    from graphix.parameter import AffineExpression, Expression

    if isinstance(v, AffineExpression):
        q, x = (v.a, v.b, 0.0), ps.name(v.x)
    elif isinstance(v, Expression):
        return False, [0, "", 0, 0]
    else:
        z = complex(v)
        q, x = (0.0, z.real, z.imag), ""
    if not all(math.isfinite(t) for t in q) or max(abs(t) for t in q) > 500:
        return False, [0, "", 0, 0]
    k = [round(float(t) * UNIT) for t in q]
    return all(abs(t * UNIT - n) < 1e-5 for t, n in zip(q, k)), [k[0], x, k[1], k[2]]


def item(ps, skel, v=0):
    ok, e = enc(ps, v)
    return [skel if ok else skel + " inexact " + repr(v), e]


def dom(d):
    return str(sorted(map(int, d)))


def meas_item(ps, skel, m):
    from graphix.measurements import BlochMeasurement

    if isinstance(m, BlochMeasurement):
        return item(ps, f"{skel} {m.plane.name}", m.angle)
    return item(ps, f"{skel} {m}")


def items(ps, o):
    from graphix import OpenGraph, Pattern
    from graphix.flow.core import PauliFlow, XZCorrections
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.transpiler import Circuit

    if isinstance(o, Pattern):
        r = [item(ps, f"in {list(map(int, o.input_nodes))} out {list(map(int, o.output_nodes))}")]
        for c in o:
            match c.kind.name:
                case "M":
                    r.append(meas_item(ps, f"M {c.node} {dom(c.s_domain)} {dom(c.t_domain)}", c.measurement))
                case "N":
                    r.append(item(ps, f"N {c.node} {c.state}"))
                case "E":
                    r.append(item(ps, f"E {dom(c.nodes)}"))
                case "C":
                    r.append(item(ps, f"C {c.node} {c.clifford}"))
                case k:
                    r.append(item(ps, f"{k} {c.node} {dom(c.domain)}"))
        return r
    if isinstance(o, Circuit):
        r = [item(ps, f"width {o.width}")]
        for i in o.instruction:
            d = {k: v for k, v in vars(i).items() if k != "angle"}
            r.append(item(ps, f"{i.kind.name} {sorted(d.items(), key=str)}", getattr(i, "angle", 0)))
        return r
    if isinstance(o, OpenGraph):
        r = [item(ps, f"nodes {dom(o.graph.nodes)} edges {sorted(tuple(sorted(map(int, e))) for e in o.graph.edges)} in {list(o.input_nodes)} out {list(o.output_nodes)} "
                      f"cliffords {sorted((int(n), str(c)) for n, c in o.output_cliffords.items())}")]
        return r + [meas_item(ps, f"meas {n}", o.measurements[n]) for n in sorted(o.measurements)]
    if isinstance(o, PauliFlow):
        return [item(ps, f"flow {type(o).__name__} {sorted((int(k), dom(v)) for k, v in o.correction_function.items())} {[dom(x) for x in o.partial_order_layers]}")] + items(ps, o.og)
    if isinstance(o, XZCorrections):
        return [item(ps, f"xz {sorted((int(k), dom(v)) for k, v in o.x_corrections.items())} {sorted((int(k), dom(v)) for k, v in o.z_corrections.items())} {[dom(x) for x in o.partial_order_layers]}")] + items(ps, o.og)
    if isinstance(o, DensityMatrix):
        return [item(ps, f"{i}", v) for i, v in enumerate(o.rho.flat)]
    return [item(ps, "", o)]


def number(rng, fine=True):
    v = rng.choice([0, 1, -1, 2, 0.5, -0.5, 0.25, 1.5, rng.randrange(-32, 33) / 16])
    r = rng.random()
    return int(v) if v == int(v) and r < 0.4 else np.float64(v) if r > 0.9 else float(v)


def expression(rng, ps, deep=True):
    """An affine expression of one parameter (or a number)."""
    if rng.random() < 0.25:
        return number(rng)
    e = rng.choice(ps.all)
    for _ in range(rng.choice([0, 0, 1, 2])):
        r = rng.randrange(4)
        e = -e if r == 0 else e + number(rng) if r == 1 else number(rng) - e if r == 2 else e * rng.choice([2, -1, 3, 0.5])
    return e


def mapping(rng, ps):
    keys = rng.sample(ps.all, rng.choice([1, 1, 2, 3]))
    return {k: (rng.choice(ps.all) if rng.random() < 0.3 else expression(rng, ps)) for k in keys}


def encmap(ps, m):
    return [[ps.name(k), enc(ps, v)[1]] for k, v in m.items()]


def replace(rng, o, m, copy, inplace):
    """Perform the substitution by one of the equivalent entry points; returns the resulting object."""
    k, v = next(iter(m.items()))
    single = len(m) == 1
    if not copy:
        return o.replace_parameter(k, v) if single and rng.random() < 0.7 else o.replace_parameters(m)
    how = rng.randrange(3 if inplace else 2)
    if single and rng.random() < 0.7:
        return o.with_parameter(k, v) if how == 0 else o.subs(k, v) if how == 1 else o.replace_parameter(k, v, copy=True)
    return o.with_parameters(m) if how == 0 else o.xreplace(m) if how == 1 else o.replace_parameters(m, copy=True)


# ---------------------------------------------------------------- transformations
def _inplace(name, *a, **k):
    def f(o):
        o = o.copy()
        getattr(o, name)(*a, **k)
        return o
    return f


def _get(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)


def _seq(o):
    from graphix.transpiler import Circuit, instructions_to_jcz, transpile_swaps

    c = Circuit(o.width)
    for i in instructions_to_jcz(transpile_swaps(o, copy=True).circuit.instruction):
        c.add(i)
    return c


def transformations(rng, o, other):
    from graphix import OpenGraph, Pattern
    from graphix.flow.core import PauliFlow, XZCorrections
    from graphix.transpiler import Circuit

    if isinstance(o, Circuit):
        return {"transpile": lambda c: c.transpile().pattern, "j_to_rzh": _get("transpile_j_to_rzh"), "z_axis": _get("transpile_measurements_to_z_axis"),
                "causalflow": lambda c: c.transpile_to_causalflow().flow if hasattr(c.transpile_to_causalflow(), "flow") else c.transpile().pattern, "jcz": _seq}
    if isinstance(o, Pattern):
        return {"copy": _get("copy"), "standardize": _inplace("standardize"), "shift_direct": _inplace("shift_signals", method="direct"), "shift_mc": _inplace("shift_signals", method="mc"),
                "minimize_space": _inplace("minimize_space"), "to_bloch": _get("to_bloch"), "to_opengraph": _get("to_opengraph"),
                "to_xzcorrections": _get("to_xzcorrections"), "to_causalflow": _get("to_causalflow"), "to_gflow": _get("to_gflow"), "to_pauliflow": _get("to_pauliflow"),
                "reindex": lambda p: (lambda r: r[0] if isinstance(r, tuple) else r)(p.reindex(copy=True) if "copy" in p.reindex.__code__.co_varnames else p.copy().reindex()),
                "no_inputs": _inplace("remove_input_nodes"), "no_cliffords": _get("remove_local_clifford_commands", copy=True), "compose": lambda p: p.compose(other, {})[0]}
    if isinstance(o, OpenGraph):
        return {"to_pattern": _get("to_pattern"), "to_bloch": _get("to_bloch"), "to_causalflow": _get("to_causalflow"), "to_gflow": _get("to_gflow"), "to_pauliflow": _get("to_pauliflow")}
    if isinstance(o, XZCorrections):
        return {"to_pattern": _get("to_pattern")}
    if isinstance(o, PauliFlow):
        return {"to_corrections": _get("to_corrections") if hasattr(o, "to_corrections") else _get("to_xzcorrections")}
    return {}


def run(chk):
    from graphix.sim.density_matrix import DensityMatrix

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 32452843 + 22)
    cases, meta = [], {}

    # ---- arithmetic of expressions
    for i in range(1500 if quick else 20000):
        ps = Params(rng)
        env, steps, cid, trace = {}, [], f"e{i}", []

        def new(o):
            n = f"v{len(env)}"
            env[n] = o
            return n

        def go():
            from graphix.parameter import PlaceholderOperationError

            for x in rng.sample(ps.all, 2):
                n = new(x)
                steps.append({"op": "new", "d": n, "obs": items(ps, x)})
            for v in (number(rng), number(rng)):
                n = new(v)
                steps.append({"op": "new", "d": n, "obs": items(ps, v)})
            for _ in range(rng.randrange(2, 12)):
                exprs = [n for n in env if not isinstance(env[n], (int, float))]
                l = rng.choice(exprs)
                r = rng.choice(list(env))
                if rng.random() < 0.3:
                    l, r = r, l
                op = rng.choice(["add", "add", "sub", "sub", "mul", "div", "neg", "eq", "subst", "subst"])
                trace.append((op, l, r))
                if op in ("add", "sub"):
                    try:
                        v = env[l] + env[r] if op == "add" else env[l] - env[r]
                    except PlaceholderOperationError:
                        steps.append({"op": op, "d": new(0), "l": l, "r": r, "obs": [], "refused": 1})
                        continue
                    steps.append({"op": op, "l": l, "r": r, "obs": items(ps, v), "refused": 0, "d": new(v)})
                elif op in ("mul", "div", "neg"):
                    if l not in exprs:
                        continue
                    k = rng.choice([2, -1, 3, -2, 1] + ([0, 0.5] if op == "mul" else [0.5, -0.5]))
                    k = float(k) if rng.random() < 0.5 else k
                    if op == "div" and k == 3 or max(map(abs, (x for x in enc(ps, env[l])[1] if x != "" and not isinstance(x, str)))) > 40 * UNIT:
                        continue
                    if op != "neg" and abs(k) < 2 and any(isinstance(x, int) and x % 2 for x in enc(ps, env[l])[1]):
                        continue
                    if op == "div" and any(isinstance(x, int) and x % 4 for x in enc(ps, env[l])[1]):
                        continue
                    v = -env[l] if op == "neg" else (env[l] * k if rng.random() < 0.5 else k * env[l]) if op == "mul" else env[l] / k
                    steps.append({"op": op, "l": l, "k": round(k * UNIT), "obs": items(ps, v), "d": new(v)})
                elif op == "eq":
                    if l not in exprs and r not in exprs:
                        continue
                    steps.append({"op": "eq", "l": l, "r": r, "obs": int(bool(env[l] == env[r]))})
                else:
                    if l not in exprs:
                        continue
                    m = mapping(rng, ps)
                    if any(isinstance(x, int) and x % 32 for x in enc(ps, env[l])[1]) or max(abs(x) for x in enc(ps, env[l])[1] if isinstance(x, int)) > 20 * UNIT:
                        continue
                    k, v = next(iter(m.items()))
                    w = env[l].with_parameters(m) if rng.random() < 0.5 else env[l].xreplace(m) if len(m) > 1 else rng.choice([env[l].subs, env[l].with_parameter])(k, v)
                    steps.append({"op": "subst", "s": l, "map": encmap(ps, m), "copy": 1, "self": 0, "src": items(ps, env[l]), "obs": items(ps, w), "d": new(w)})

        _, err = observe(chk, cid, go, trace)
        if err is None:
            cases.append({"id": cid, "angles": 0, "steps": steps})
            meta[cid] = {"steps": steps}

    # ---- objects
    def symbolic(ps):
        return lambda r: expression(r, ps) if r.random() < 0.6 else r.randrange(-32, 33) / 16

    refusals = {}
    squares = 0
    for i in range(1500 if quick else 20000):
        ps = Params(rng)
        cid, steps, env, trace = f"o{i}", [], {}, []
        ang = symbolic(ps)
        kind = rng.choice(["circuit", "circuit", "pattern", "compiled", "graph", "matrix"])

        def put(o):
            n = f"v{len(env)}"
            env[n] = o
            return n

        def go():
            nonlocal squares
            other = None
            if kind == "circuit":
                o = gen.circuit(rng, rng.randrange(1, 4), rng.randrange(1, 7), measure=rng.choice([0, 0.1]), ang=ang)
            elif kind == "matrix":
                n = rng.choice([1, 2, 2, 4])
                entries = [expression(rng, ps) if rng.random() < 0.5 else complex(number(rng), number(rng)) if rng.random() < 0.5 else number(rng) for _ in range(n * n)]
                entries[rng.randrange(n * n)] = rng.choice(ps.all)
                o = DensityMatrix([entries[k * n:k * n + n] for k in range(n)])
            elif kind == "pattern":
                o = gen.pattern(rng, n_in=rng.choice([0, 1, 2]), n_new=rng.choice([2, 3, 4]), cliffords=0.1, pauli=0.3, ang=ang)
            else:
                o = gen.circuit(rng, rng.randrange(1, 4), rng.randrange(1, 6), ccx=0, ang=ang).transpile().pattern
                if kind == "graph":
                    o = o.to_opengraph()
            if kind in ("pattern", "compiled"):
                other = gen.pattern(rng, n_in=1, n_new=2, n_meas=1, ang=ang, extra=2)
            name = put(o)
            steps.append({"op": "new", "d": name, "obs": items(ps, o)})
            for _ in range(rng.randrange(1, 4)):
                o = env[name]
                inplace = hasattr(o, "replace_parameter")
                if hasattr(o, "is_parameterized"):
                    steps.append({"op": "param", "s": name, "obs": int(o.is_parameterized())})
                m = mapping(rng, ps)
                if any(isinstance(x, int) and x % 16 for _, e in items(ps, o) for x in e):
                    return
                fs = transformations(rng, o, other)
                f = rng.choice(list(fs)) if fs else None
                q = None
                if f:
                    trace.append((f, name))
                    try:
                        q = fs[f](o)
                    except Exception as e:      # noqa: BLE001 -- a refusal must not depend on the parameters
                        q = e
                copy = not inplace or rng.random() < 0.6
                before = put(None)      # the value the object had, kept by the specification only
                steps.append({"op": "new", "d": before, "obs": items(ps, o)})
                trace.append(("replace", name, str(m), copy))
                w = replace(rng, o, m, copy, inplace)
                d = put(w)
                steps.append({"op": "subst", "s": name, "d": d, "map": encmap(ps, m), "copy": int(copy), "self": int(w is o), "src": items(ps, o), "obs": items(ps, w)})
                if hasattr(w, "is_parameterized"):
                    steps.append({"op": "param", "s": d, "obs": int(w.is_parameterized())})
                if f:
                    try:
                        if other is not None and f == "compose":
                            other2 = other.with_parameters(m)
                            q2 = w.compose(other2, {})[0]
                        else:
                            q2 = fs[f](w)
                    except Exception as e:      # noqa: BLE001
                        q2 = e
                    if isinstance(q, Exception) or isinstance(q2, Exception):
                        refusals[f] = refusals.get(f, 0) + 1
                        if type(q) is not type(q2):
                            chk.violate(cid, "refusal-depends-on-parameters", {"transformation": f, "before": repr(q), "after": repr(q2), "object": str(items(ps, o)), "map": str(m)})
                        continue
                    a, b = put(q), put(q2)
                    steps.append({"op": "new", "d": a, "obs": items(ps, q)})
                    steps.append({"op": "new", "d": b, "obs": items(ps, q2)})
                    steps.append({"op": "square", "p": before, "q": a, "p2": d, "q2": b, "map": encmap(ps, m)})
                    squares += 1
                name = rng.choice([d, d, name]) if not f or rng.random() < 0.4 else a

        _, err = observe(chk, cid, go, {"kind": kind, "trace": trace})
        if err is None and steps:
            cases.append({"id": cid, "angles": int(kind != "matrix"), "steps": steps})
            meta[cid] = {"kind": kind, "trace": trace}
    res = run_batch("Param", cases, coverage=True, timeout=800 if quick else 7000, chunk=6000)
    chk.absorb(res, cases, meta)

    # ---- transformations that depend on the angles, decided semantically
    sem, smeta = [], {}
    for i in range(120 if quick else 3000):
        ps = Params(rng)
        cid = f"m{i}"
        ang = lambda r: r.choice(ps.all[:2]) * r.choice([1, -1, 0.5]) + r.choice([0, 0.5, 0.25]) if r.random() < 0.5 else r.choice([0.0, 0.5, 1.0, 0.25, 1.5])  # noqa: E731
        c = gen.circuit(rng, rng.choice([1, 2, 2, 3]), rng.randrange(1, 5), ccx=0, ang=ang)
        m = {x: rng.choice([0, 0.5, 1, 0.25, -0.5, 0.125]) for x in ps.all}
        p = c.transpile().pattern
        info = {"circuit": repr(c), "map": str(m)}

        def op():
            q = p.copy()
            if rng.random() < 0.5:
                q.standardize()
            if rng.random() < 0.5:
                q.shift_signals()
            q = q.infer_pauli_measurements(copy=True)
            q.remove_pauli_measurements()
            if rng.random() < 0.5:
                q.minimize_space()
            q = q.with_parameters(m)
            if rng.random() < 0.5:
                q = q.infer_pauli_measurements(copy=True)
                q.remove_pauli_measurements()
            return q, p.with_parameters(m)

        got, err = observe(chk, cid, op, info)
        if err:
            continue
        q, b = got
        A, B = dump.pattern(q), dump.pattern(b)
        k = case(cid, A, B, [rel(x, ()) for x in dump.measured(B)], branches(rng, dump.measured(A), 8), nz=1)
        if not chk.affordable(k):
            continue
        smeta[cid] = {**info, "result": repr(q)}
        sem.append(k)
        if rng.random() < 0.4:
            # extraction drops null rotations: symbolic extraction then substitution, against the substituted pattern
            circ, err = observe(chk, cid, lambda: p.to_opengraph().to_circuit().with_parameters(m), info, expect=(NotImplementedError,))
            if err is None:
                prog, measured = dump.circuit(circ)
                k = case(cid + "-x", B, prog, [], branches(rng, dump.measured(B), 8), nz=1)
                if not measured and chk.affordable(k):
                    smeta[k["id"]] = {**info, "extracted": repr(circ)}
                    sem.append(k)
    res2 = run_batch("MBQC", sem, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res2, sem, smeta)
    chk.cov.update(histories=len(cases), steps=sum(len(c["steps"]) for c in cases), squares=squares, refused_transformations=refusals, semantic_cases=len(sem))
