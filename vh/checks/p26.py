"""P26: the exported OpenQASM text denotes the circuit or the pattern."""
from __future__ import annotations

import os
import random
import tempfile
from fractions import Fraction

from .. import dump, gen
from ..qasm import lex, near
from ..tlc import run_batch
from ..util import branches, case, observe, rel

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ reader of OpenQASM 3 (Qasm.tla) run by TLC on every exported text, and TLA+ machine (MBQC.tla) comparing the program it denotes with the exported object on every branch"
NOTE = ("Every gate, state, plane, Clifford and random circuits and patterns with any domains; the text is tokenised, parsed and checked statically by one specification and its elaboration is compared as a linear map, "
        "outcome by outcome, with the object by the other; a family of one-gate circuits compares the written angle with the exact fraction. Trusts TLC, the tokeniser and the library identities of Qasm.tla.")


def rational(rng) -> float | int:
    """Angles of every kind, including those close to simple fractions."""
    r = rng.random()
    if r < 0.15:
        return rng.choice([0, 1, -1, 2, 0.0, -0.0, 0.5, -0.5, 1.0, 2.0, -2.0, 0.25, 1.5])
    if r < 0.5:
        d = rng.randrange(1, 1400)
        return rng.randrange(-3 * d, 3 * d) / d
    if r < 0.75:
        d = rng.choice([999, 1000, 1001, 1002, 1009, 2000, 4096, 19997, rng.randrange(1000, 20000)])
        return rng.randrange(-2 * d, 2 * d) / d
    d = rng.randrange(2000, 20000)
    b = rng.choice([1, 2, 3, 4, 6, 8, 500])
    base = Fraction(rng.randrange(-2 * b, 2 * b + 1), b)
    return float(base + Fraction(rng.choice([-1, 1]), d)) if d % base.denominator == 0 else float(Fraction(round(base * d) + rng.choice([-1, 0, 1]), d))


def coarse(rng) -> float:
    """Angles whose half is a machine angle as well."""
    return rng.choice([0.0, 0.25, 0.5, 1.0, -0.5, 1.5, rng.randrange(-1024, 2048) / 1024])


def qpattern(rng, i):
    from graphix.states import BasicStates

    states = [BasicStates.ZERO, BasicStates.PLUS, BasicStates.PLUS]
    if i % 9 == 8:
        p = gen.compiled_pattern(rng, rng.choice([1, 2]), rng.randrange(1, 4))
        if rng.random() < 0.5:
            p.infer_pauli_measurements()
            p.remove_pauli_measurements()
        return p
    return gen.small_pattern(rng, prep=lambda r: r.choice(states), cliffords=rng.choice([0.1, 0.4]), any_clifford=True, pauli=rng.choice([0.1, 0.5]))


def run(chk):
    from graphix import Circuit
    from graphix.qasm3_exporter import circuit_to_qasm3, pattern_to_qasm3
    from graphix.states import BasicStates

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 32452843 + 26)
    texts, orig, meta = [], {}, {}

    def add(cid, text, b, measured, info, ang=(), emit=1):
        texts.append({"id": cid, "toks": lex(text), "ang": [list(a) for a in ang], "emit": emit})
        orig[cid] = (b, measured)
        meta[cid] = {**info, "text": text}

    # -- circuits
    src = [(n, c) for n, c in gen.each_gate()]
    for a in (0.25, 1.0, 1.25, -0.5, 2.0):
        c = Circuit(3)
        c.rzz(2, 0, a)
        src.append((f"rzz{a}", c))
    for i in range(260 if quick else 3000):
        w = rng.choice([1, 2, 2, 3, 3, 4])
        pool = None if rng.random() < 0.25 else gen.G1 + 2 * gen.GR + ["cnot", "cnot", "cz", "swap", "swap"]
        src.append((f"c{i}", gen.circuit(rng, w, rng.randrange(0, 10), measure=rng.choice([0, 0.15]), ccx=0.08, kinds=pool, ang=lambda r: coarse(r))))
    for name, c in src:
        org = repr(c)
        kinds = [ins.kind.name for ins in c.instruction]
        for tr in (True, False):
            cid = f"{name}-{'t' if tr else 'p'}"
            bad = not tr and any(k.kind.name == "J" or (k.kind.name == "M" and k.axis.name != "Z") for k in c.instruction)
            if not tr and not bad and rng.random() < 0.6:
                continue
            text, err = observe(chk, cid, lambda: circuit_to_qasm3(c, transpile=tr), org, expect=(ValueError,) if bad else ())
            if bad:
                if text is not None:
                    chk.violate(cid, "unsupported-not-refused", {"circuit": org, "text": text})
                continue
            if err is None:
                prog, measured = dump.circuit(c)
                for wd in range(c.width):
                    assert wd in prog["inputs"]
                add(cid, text, prog, measured, {"circuit": org, "gates": kinds})
        if repr(c) != org:
            chk.violate(name, "circuit-changed", {"before": org, "after": repr(c)})
    # -- exact angles, one gate at a time
    for i in range(700 if quick else 9000):
        a = rational(rng)
        c = Circuit(1)
        g = rng.choice(["rx", "ry", "rz"])
        getattr(c, g)(0, a)
        text, err = observe(chk, f"a{i}", lambda: circuit_to_qasm3(c), repr(c))
        want = near(float(a))
        if err is None and want[1]:
            add(f"a{i}", text, None, [], {"circuit": repr(c)}, [want], emit=0)
    # -- patterns
    tmp = tempfile.mkdtemp(prefix="vh-qasm-")
    for i in range(420 if quick else 5000):
        p = qpattern(rng, i)
        cid, org = f"p{i}", repr(p)
        ins = list(p.input_nodes)
        how = rng.choice(["default", "zero", "plus", "dict", "file"])
        st = {n: rng.choice([BasicStates.ZERO, BasicStates.PLUS]) for n in ins}
        if how in ("default", "plus", "file"):
            st = dict.fromkeys(ins, BasicStates.PLUS)
        elif how == "zero":
            st = dict.fromkeys(ins, BasicStates.ZERO)

        def export():
            if how == "default":
                return pattern_to_qasm3(p)
            if how in ("zero", "plus"):
                return pattern_to_qasm3(p, BasicStates.ZERO if how == "zero" else BasicStates.PLUS)
            if how == "dict":
                return pattern_to_qasm3(p, dict(st))
            path = os.path.join(tmp, "out.qasm")
            p.to_qasm3(path)
            with open(path, encoding="utf-8") as f:
                return f.read()

        text, err = observe(chk, cid, export, org)
        if err:
            continue
        if repr(p) != org:
            chk.violate(cid, "pattern-changed", {"before": org, "after": repr(p)})
        b = dump.pattern(p, sched=False)
        b["cmds"] = [{"k": "N", "n": n, "st": dump.state_name(st[n])} for n in ins] + b["cmds"]
        b["inputs"] = []
        add(cid, text, dump._finish(b), dump.measured(b), {"pattern": org, "input_state": {n: repr(s) for n, s in st.items()}})
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)
    # states that have no rendering are refused
    from graphix import Pattern, command
    for s in ("MINUS", "ONE", "PLUS_I", "MINUS_I"):
        for j, q in enumerate((Pattern(cmds=[command.N(0, getattr(BasicStates, s))]), Pattern(input_nodes=[0]))):
            text, _ = observe(chk, f"s{s}{j}", lambda: pattern_to_qasm3(q, getattr(BasicStates, s)), repr(q), expect=(ValueError,))
            if text is not None:
                chk.violate(f"s{s}{j}", "unsupported-not-refused", {"state": s, "text": text})

    res = run_batch("Qasm", texts, timeout=400 if quick else 3000, chunk=4000)
    chk.absorb(res, texts, meta)
    # -- the denoted programs against the objects
    cases, alts = [], {}
    cap = 8 if quick else 32
    for cid, recs in res.notes.items():
        b, measured = orig[cid]
        rec = recs[0]

        def mk(cid, cmds):
            a = dump._finish({"inputs": b["inputs"], "outputs": b["outputs"], "cmds": [dict(c) for c in cmds]})
            return case(cid, a, b, [rel(n, [n]) for n in measured], branches(rng, measured, cap), ka=0, kb=0)

        c = mk(cid, rec["cmds"])
        if not chk.affordable(c):
            continue
        cases.append(c)
        if rec["alt"] != rec["cmds"]:
            alts[cid] = mk(cid, rec["alt"])
    r1 = run_batch("MBQC", cases, coverage=True, timeout=700 if quick else 7000)
    # crz written for a rotation about ZZ: is that the only difference?
    suspects = [alts[c] for c in r1.fail if c in alts]
    r2 = run_batch("MBQC", suspects, timeout=400 if quick else 3000)
    for cid in list(r1.fail):
        if cid in alts and cid in r2.ok and cid not in r2.fail:
            chk.violate("RZZ", "exported-as-crz", {"example": meta[cid]})
            del r1.fail[cid]
    chk.absorb(r1, cases, meta)
    chk.cov.update(texts=len(texts), programs=len(cases), read_with_crz_as_rzz=len(suspects),
                   disagreements_checked=sum(r1.ok.values()) + sum(map(len, r1.fail.values())))
    chk.assumptions.append("compared maps use angles that are multiples of pi/1024 (circuits) or pi/2048 (patterns); other angles are compared as exact fractions")
