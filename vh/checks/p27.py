"""P27: circuit rewriting passes preserve the circuit."""
from __future__ import annotations

import copy as pycopy
import random
import warnings

from .. import dump, gen
from ..tlc import run_batch
from ..util import branches, case, observe, rel

LEVEL = "translation_validation"
TECHNIQUE = "TLA+ machine (MBQC.tla) run by TLC: the rewritten and the original circuit as two programs, every measurement branch, compared from a Choi state"
NOTE = ("Every gate kind in every operand order plus seeded random circuits (1-4 qubits, measurements, SWAPs, angles incl. integers and beyond a turn), each pass alone and in chains, in place and copying; "
        "exact comparison of map, weight and outcome order per branch. Trusts TLC and the generator's reach.")

ALLOWED = {
    "swaps": None, "jcz": {"J", "CZ", "M"}, "rzh": None, "zaxis": None,
}


def unmeasured(c) -> set[int]:
    return set(range(c.width)) - {x.target for x in c.instruction if x.kind.name == "M"}


def accepted(c) -> set[int]:
    """Qubits on which the circuit accepts a further gate."""
    r = set()
    for q in range(c.width):
        d = pycopy.deepcopy(c)
        try:
            d.h(q)
        except (AssertionError, ValueError, RuntimeError):
            continue
        r.add(q)
    return r


def run(chk):
    from graphix import Circuit, transpiler
    from graphix.fundamentals import Axis
    from graphix.transpiler import OutputKind

    warnings.simplefilter("ignore")
    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 32452843 + 27)
    src = list(gen.each_gate())
    for i in range(260 if quick else 4000):
        w = rng.choice([1, 2, 2, 3, 3, 4])
        src.append((f"r{i}", gen.circuit(rng, w, rng.randrange(1, 10), measure=rng.choice([0, 0.15, 0.3]), ccx=0.04, swap=rng.choice([0, 0.2]),
                                         kinds=rng.choice([None, gen.G1 + gen.GR + ["swap", "swap", "cnot", "cz"]]))))
    cases, meta, kinds = [], {}, {}

    def compare(cid, what, new, old_prog, old_measured, org, order=None):
        """order[i]: qubit of `new` holding the i-th unmeasured qubit of the original."""
        A, ms = dump.circuit(new)
        org = {**org, "result": repr(new)}
        kinds[what] = kinds.get(what, 0) + 1
        if len(ms) != len(old_measured):
            chk.violate(cid, "measurement-count", org)
            return
        if order is not None:
            A["outputs"] = list(order)
        usable = accepted(new)
        if usable != unmeasured(new):
            chk.violate(cid, "usable-qubits", {**org, "usable": sorted(usable)})
        c = case(cid, A, old_prog, [rel(b, [a]) for a, b in zip(ms, old_measured)], branches(rng, ms, 16), ka=0, kb=0)
        if chk.affordable(c):
            cases.append(c)
            meta[cid] = org

    def swaps(c, inplace):
        res = transpiler.transpile_swaps(c, copy=not inplace)
        return res

    for name, circ in src:
        prog, ms = dump.circuit(circ)
        org = {"circuit": repr(circ)}
        frozen = repr(circ)
        passes = rng.sample(["swaps", "jcz", "rzh", "zaxis", "swaps-inplace", "visit", "chain"], 3 if quick and name.startswith("r") else 7)
        for what in passes:
            cid = f"{name}-{what}"
            if what in ("swaps", "swaps-inplace"):
                inplace = what == "swaps-inplace"
                arg = pycopy.deepcopy(circ) if inplace else circ
                res, err = observe(chk, cid, lambda: swaps(arg, inplace), org)
                if err is not None:
                    continue
                new = res.circuit
                if inplace and new is not arg:
                    chk.violate(cid, "not-in-place", org)
                if any(x.kind.name == "SWAP" for x in new.instruction):
                    chk.violate(cid, "gates", {**org, "result": repr(new)})
                if len(res.outputs) != circ.width or [x.kind for x in res.outputs] != [OutputKind.Qubit if q not in ms else OutputKind.Bit for q in range(circ.width)] \
                        or any(res.outputs[q].index != i for i, q in enumerate(ms)):
                    chk.violate(cid, "outputs", {**org, "outputs": repr(res.outputs)})
                    continue
                order = [x.index for x in res.outputs if x.kind == OutputKind.Qubit]
                red = sorted(order)
                if list(res.extract_output_node_indices()) != [red.index(o) for o in order] \
                        or list(res.swap_output_nodes([100 + r for r in red])) != [100 + o for o in order]:
                    chk.violate(cid, "output-indices", {**org, "outputs": repr(res.outputs)})
                compare(cid, what, new, prog, ms, org, order)
            elif what == "jcz":
                new, err = observe(chk, cid, lambda: Circuit(circ.width, list(transpiler.instructions_to_jcz(circ.instruction))), org)
                if err is None:
                    if any(x.kind.name not in ALLOWED["jcz"] for x in new.instruction):
                        chk.violate(cid, "gates", {**org, "result": repr(new)})
                    compare(cid, what, new, prog, ms, org)
            elif what == "rzh":
                new, err = observe(chk, cid, circ.transpile_j_to_rzh, org)
                if err is None:
                    if any(x.kind.name == "J" for x in new.instruction):
                        chk.violate(cid, "gates", {**org, "result": repr(new)})
                    compare(cid, what, new, prog, ms, org)
            elif what == "zaxis":
                new, err = observe(chk, cid, circ.transpile_measurements_to_z_axis, org)
                if err is None:
                    if any(x.kind.name == "M" and x.axis != Axis.Z for x in new.instruction):
                        chk.violate(cid, "gates", {**org, "result": repr(new)})
                    compare(cid, what, new, prog, ms, org)
            elif what == "visit":
                new, err = observe(chk, cid, lambda: circ.apply_angle(lambda a: a + 2, copy=True), org)
                if err is None:
                    if any(x.kind != y.kind for x, y in zip(new.instruction, circ.instruction)):
                        chk.violate(cid, "gates", {**org, "result": repr(new)})
                    compare(cid, what, new, prog, ms, org)
            else:
                def chain():
                    c = circ.transpile_measurements_to_z_axis()
                    r = transpiler.transpile_swaps(c, copy=True)
                    c = Circuit(c.width, list(transpiler.instructions_to_jcz(r.circuit.instruction)))
                    return c.transpile_j_to_rzh(), [x.index for x in r.outputs if x.kind == OutputKind.Qubit]

                got, err = observe(chk, cid, chain, org)
                if err is None:
                    new, order = got
                    if any(x.kind.name not in {"RZ", "H", "CZ", "M"} for x in new.instruction):
                        chk.violate(cid, "gates", {**org, "result": repr(new)})
                    compare(cid, what, new, prog, ms, org, order)
        if repr(circ) != frozen:
            chk.violate(name, "argument-changed", {**org, "now": repr(circ)})
    # single decompositions
    from graphix import instruction as I

    for k, fn, mk in [("rzz", transpiler.decompose_rzz, lambda: I.RZZ(*rng.sample(range(2), 2), angle=gen.angle(rng))),
                      ("ccx", transpiler.decompose_ccx, lambda: (lambda a: I.CCX(a[0], (a[1], a[2])))(rng.sample(range(3), 3))),
                      ("cnot", transpiler.decompose_cnot, lambda: I.CNOT(*rng.sample(range(2), 2))),
                      ("swap", transpiler.decompose_swap, lambda: I.SWAP(tuple(rng.sample(range(2), 2)))),
                      ("y", transpiler.decompose_y, lambda: I.Y(0)),
                      ("rx", transpiler.decompose_rx, lambda: I.RX(0, gen.angle(rng))),
                      ("ry", transpiler.decompose_ry, lambda: I.RY(0, gen.angle(rng))),
                      ("rz", transpiler.decompose_rz, lambda: I.RZ(0, gen.angle(rng)))]:
        for j in range(4 if quick else 30):
            ins = mk()
            w = 3 if k == "ccx" else 2
            old = Circuit(w, [ins])
            new, err = observe(chk, f"d-{k}{j}", lambda: Circuit(w, list(fn(ins))), repr(ins))
            if err is None:
                p, ms = dump.circuit(old)
                compare(f"d-{k}{j}", "decompose", new, p, ms, {"circuit": repr(old)})
    # a circuit stays usable after a pass: gates are accepted on exactly the unmeasured qubits
    res = run_batch("MBQC", cases, coverage=True, timeout=800 if quick else 7000)
    chk.absorb(res, cases, meta)
    chk.cov.update(programs=len(cases), disagreements_checked=sum(res.ok.values()) + sum(map(len, res.fail.values())), kinds=kinds)
