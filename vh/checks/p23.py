"""P23: operations on copies never alter the original."""
from __future__ import annotations

import contextlib
import io
import os
import random
import sys
import tempfile
import warnings

import numpy as np

from .. import gen, sim
from ..tlc import run_batch
from ..util import observe

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification Alias.tla: a heap of disjoint mutable objects with copying, functional, reporting and in-place operations; TLC checks the observed value of every live object after every step of recorded histories"
NOTE = ("Random histories over patterns, standardised patterns, circuits, open graphs, flows, corrections, state vectors, density matrices, tensor networks, graph states, channels and binary matrices, with deliberate sharing "
        "(copies, patterns built from the commands of others, containers returned by queries); the library's constants are part of the heap. Functions offered both as copies and in place must agree.")


# ---------------------------------------------------------------- observation
def _dom(d):
    return tuple(sorted(map(int, d)))


def _cmd(c):
    match c.kind.name:
        case "M":
            return ("M", c.node, repr(c.measurement), _dom(c.s_domain), _dom(c.t_domain))
        case "N":
            return ("N", c.node, repr(c.state))
        case "E":
            return ("E", *c.nodes)
        case "C":
            return ("C", c.node, str(c.clifford))
        case k:
            return (k, c.node, _dom(c.domain))


def _graph(g):
    return (_dom(g.nodes), sorted(tuple(sorted(map(int, e))) for e in g.edges))


def _arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        return (a.shape, tuple(map(repr, a.flat)))
    return (a.shape, str(a.dtype), tuple(np.round(np.asarray(a, dtype=complex).reshape(-1), 9).tolist()))


def _tensor(t):
    """The state of a tensor network, contracted at once."""
    from quimb.tensor import TensorNetwork

    keys = sorted(sim.dangling(t))
    if not t.tensors:
        return ()
    r = TensorNetwork(list(t.tensors)).contract(output_inds=[sim.dangling(t)[k] for k in keys], optimize="greedy")
    a = np.asarray(getattr(r, "data", r), dtype=complex).reshape(-1)
    return _arr(a / (np.linalg.norm(a) or 1))


def view(o):
    """Everything observable through the public interface of an object."""
    from graphix import OpenGraph, Pattern
    from graphix._linalg import MatGF2
    from graphix.channels import KrausChannel
    from graphix.flow.core import PauliFlow, XZCorrections
    from graphix.graphsim import GraphState
    from graphix.optimization import StandardizedPattern
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.sim.statevec import Statevector
    from graphix.sim.tensornet import MBQCTensorNet
    from graphix.transpiler import Circuit

    if isinstance(o, Pattern):
        return ("pattern", tuple(o.input_nodes), tuple(o.output_nodes), o.n_node, tuple(_cmd(c) for c in o))
    if isinstance(o, StandardizedPattern):
        return ("std", tuple(o.input_nodes), tuple(o.output_nodes), tuple(map(_cmd, o.n_list)), sorted(map(_dom, o.e_set)), tuple(map(_cmd, o.m_list)),
                sorted((n, _dom(d)) for n, d in o.z_dict.items()), sorted((n, _dom(d)) for n, d in o.x_dict.items()), sorted((n, str(c)) for n, c in o.c_dict.items()))
    if isinstance(o, Circuit):
        return ("circuit", o.width, _dom(o.active_qubits), tuple((i.kind.name, tuple(sorted((k, str(v)) for k, v in vars(i).items()))) for i in o.instruction))
    if isinstance(o, OpenGraph):
        return ("og", _graph(o.graph), tuple(o.input_nodes), tuple(o.output_nodes), sorted((n, repr(m)) for n, m in o.measurements.items()), sorted((n, str(c)) for n, c in o.output_cliffords.items()))
    if isinstance(o, PauliFlow):
        return (type(o).__name__, sorted((n, _dom(s)) for n, s in o.correction_function.items()), tuple(map(_dom, o.partial_order_layers)), view(o.og))
    if isinstance(o, XZCorrections):
        return ("xz", sorted((n, _dom(s)) for n, s in o.x_corrections.items()), sorted((n, _dom(s)) for n, s in o.z_corrections.items()), tuple(map(_dom, o.partial_order_layers)), view(o.og))
    if isinstance(o, Statevector):
        return ("sv", o.nqubit, o.max_qubits, _arr(o.psi))
    if isinstance(o, DensityMatrix):
        return ("dm", _arr(o.rho))
    if isinstance(o, MBQCTensorNet):
        return ("tn", tuple(o.default_output_nodes or ()), tuple(sorted(sim.dangling(o))), _tensor(o))
    if isinstance(o, GraphState):
        return ("gs", _graph(o), tuple((n, sorted(o.nodes[n].items())) for n in sorted(o.nodes)))
    if isinstance(o, KrausChannel):
        return ("channel", o.nqubit, tuple((complex(k.coef), _arr(k.operator)) for k in o))
    if isinstance(o, MatGF2):
        return ("gf2", o.shape, o.tobytes())
    if isinstance(o, Library):
        return o.view()
    return ("value", repr(o))


class Library:
    """The constants of the library."""

    def view(self):
        from graphix.clifford import Clifford
        from graphix.ops import Ops
        from graphix.states import BasicStates

        return (tuple((n, _arr(getattr(Ops, n))) for n in sorted(vars(Ops)) if isinstance(getattr(Ops, n), np.ndarray)), tuple(_arr(c.matrix) for c in Clifford),
                tuple((n, repr(getattr(BasicStates, n)), _arr(getattr(BasicStates, n).to_statevector_numpy())) for n in ("ZERO", "ONE", "PLUS", "MINUS", "PLUS_I", "MINUS_I")))


# ---------------------------------------------------------------- operations
class Refuse(Exception):
    pass


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        return f()


REFUSALS = (NotImplementedError,)


class History:
    def __init__(self, rng, tmp):
        self.rng, self.tmp = rng, tmp
        self.env, self.steps, self.trace, self.tokens, self.refused = {}, [], [], {}, {}
        self.put("library", Library())

    def token(self, o):
        return self.tokens.setdefault(repr(view(o)), len(self.tokens))

    def observe(self):
        return [[n, self.token(o)] for n, o in self.env.items()]

    def step(self, k, op, args=(), new=(), label="", self_=1, mut=()):
        self.steps.append({"k": k, "op": op, "args": list(args), "new": list(new), "label": label, "self": int(self_), "mut": list(mut), "obs": self.observe()})

    def put(self, name, o):
        self.env[name] = o
        self.step("new", "new", (), [name])
        return name

    def name(self):
        return f"v{len(self.env)}"

    def call(self, k, op, args, f, label=""):
        """args[0] is the object an in-place operation changes."""
        self.trace.append((k, op, *args))
        try:
            r = quiet(f)
        except Exception as e:      # noqa: BLE001 -- whether a refusal is right is the business of other properties
            self.refused[f"{op} {type(e).__name__}"] = self.refused.get(f"{op} {type(e).__name__}", 0) + 1
            if os.environ.get("P23_DEBUG"):
                print(op, repr(e)[:200], file=sys.__stderr__)
            self.step("refused", f"{op} {type(e).__name__}", args, mut=args[:1] if k == "inplace" else ())
            return None
        if k in ("pure", "copy"):
            if r is None:
                self.step("query", op, args)
                return None
            n = self.name()
            self.env[n] = r
            self.step(k, op, args, [n], label)
            return n
        if k == "inplace":
            self.step("inplace", op, args, (), label, r is None or r is self.env[args[0]] or not isinstance(r, type(self.env[args[0]])))
            return args[0]
        self.step("query", op, args)
        if k == "query" and self.leak(r):
            self.step("leak", op, args)
        return None

    def leak(self, r):
        """The user modifies what a report returned."""
        if isinstance(r, list):
            r.append(r[0] if r and self.rng.random() < 0.5 else 99)
            if self.rng.random() < 0.5:
                r.reverse()
        elif isinstance(r, set):
            r.add(99)
            if self.rng.random() < 0.5:
                r.clear()
        elif isinstance(r, dict):
            for k in list(r)[:1]:
                if isinstance(r[k], (set, list)):
                    r[k].clear()
                else:
                    del r[k]
        elif isinstance(r, np.ndarray) and r.flags.writeable:
            try:
                r.flat[0] = 7
            except Exception:       # noqa: BLE001
                return False
        else:
            return False
        return True


def pattern_ops(h, n, rng):
    """(kind, name, args, function, label)"""
    from graphix import Pattern, command
    from graphix.branch_selector import RandomBranchSelector
    from graphix.measurements import BlochMeasurement, PauliMeasurement
    from graphix.optimization import StandardizedPattern, remove_local_clifford_commands
    from graphix.remove_pauli_measurements import PauliPushingCut
    from graphix.sim.statevec import Statevector

    p = h.env[n]
    others = [m for m, o in h.env.items() if isinstance(o, Pattern)]
    q = rng.choice(others)
    svs = [m for m, o in h.env.items() if isinstance(o, Statevector)]
    k = rng.choice([0.25, 0.5, 1.0])
    f = lambda m: BlochMeasurement(m.to_bloch().angle + k, m.to_bloch().plane)  # noqa: E731
    shift = rng.choice([1, 3])
    ops = [
        ("copy", "copy", [n], p.copy, ""),
        ("copy", "rebuild", [n], lambda: Pattern(input_nodes=p.input_nodes, cmds=p, output_nodes=p.output_nodes), ""),
        ("pure", "share-commands", [n], lambda: Pattern(input_nodes=p.input_nodes, cmds=list(p)), ""),
        ("pure", "apply", [n], lambda: p.apply(f, copy=True), f"apply{k}"),
        ("inplace", "apply", [n], lambda: p.apply(f), f"apply{k}"),
        ("pure", "map", [n], lambda: p.map(f), f"apply{k}"),
        ("pure", "infer", [n], lambda: p.infer_pauli_measurements(copy=True), "infer"),
        ("inplace", "infer", [n], lambda: p.infer_pauli_measurements(), "infer"),
        ("pure", "to_bloch", [n], p.to_bloch, "bloch"),
        ("inplace", "blochify", [n], lambda: p.blochify(), "bloch"),
        ("pure", "blochify", [n], lambda: p.blochify(copy=True), "bloch"),
        ("pure", "reindex", [n], lambda: p.reindex(lambda x: x + shift, copy=True), f"reindex{shift}"),
        ("inplace", "reindex", [n], lambda: p.reindex(lambda x: x + shift), f"reindex{shift}"),
        ("inplace", "reindex-map", [n], lambda: p.reindex({x: x + shift for x in p.nodes()}), f"reindex{shift}"),
        ("pure", "reindex-default", [n], lambda: p.reindex(copy=True), "reindexd"),
        ("inplace", "reindex-default", [n], lambda: p.reindex(), "reindexd"),
        ("inplace", "standardize", [n], p.standardize, ""),
        ("inplace", "shift-direct", [n], lambda: p.shift_signals(method="direct"), ""),
        ("inplace", "shift-mc", [n], lambda: p.shift_signals(method="mc"), ""),
        ("inplace", "shift-mc", [n], lambda: p.shift_signals(method="mc"), ""),
        ("pure", "minimize", [n], lambda: p.minimize_space(copy=True), ""),
        ("inplace", "minimize", [n], lambda: p.minimize_space(), ""),
        ("pure", "push", [n], lambda: p.perform_pauli_pushing(copy=True, standardize=rng.random() < 0.5), ""),
        ("inplace", "push", [n], lambda: p.perform_pauli_pushing(standardize=rng.random() < 0.5), ""),
        ("pure", "no-pauli", [n], lambda: p.remove_pauli_measurements(copy=True), ""),
        ("inplace", "no-pauli", [n], lambda: p.remove_pauli_measurements(), ""),
        ("pure", "no-clifford", [n], lambda: p.remove_local_clifford_commands(copy=True), "nocl"),
        ("inplace", "no-clifford", [n], lambda: p.remove_local_clifford_commands(), "nocl"),
        ("pure", "no-clifford-function", [n], lambda: remove_local_clifford_commands(p), "nocl"),
        ("inplace", "parallelize", [n], p.parallelize_pattern, ""),
        ("inplace", "remove-inputs", [n], p.remove_input_nodes, ""),
        ("inplace", "clear", [n], p.clear, ""),
        ("inplace", "add", [n], lambda: p.add(command.N(200 + len(h.env))), ""),
        ("inplace", "outputs", [n], lambda: p.reorder_output_nodes(rng.sample(p.output_nodes, len(p.output_nodes))), ""),
        ("inplace", "inputs", [n], lambda: p.reorder_input_nodes(rng.sample(p.input_nodes, len(p.input_nodes))), ""),
        ("pure", "compose", [n, q], lambda: p.compose(h.env[q], {})[0], ""),
        ("pure", "compose-glue", [n, q], lambda: p.compose(h.env[q], dict(zip(h.env[q].input_nodes, p.output_nodes)))[0], ""),
        ("pure", "compose-preserve", [n, q], lambda: p.compose(h.env[q], dict(zip(h.env[q].input_nodes, rng.sample(p.output_nodes, len(p.output_nodes)))), preserve_mapping=True)[0], ""),
        ("pure", "to_opengraph", [n], p.to_opengraph, ""),
        ("pure", "to_xz", [n], p.to_xzcorrections, ""),
        ("pure", "to_causalflow", [n], p.to_causalflow, ""),
        ("pure", "to_gflow", [n], p.to_gflow, ""),
        ("pure", "to_pauliflow", [n], p.to_pauliflow, ""),
        ("pure", "standardized", [n], lambda: StandardizedPattern.from_pattern(p), ""),
        ("pure", "cut", [n], lambda: PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(p)).to_standardizedpattern(), ""),
        ("pure", "simulate", [n], lambda: p.simulate(branch_selector=RandomBranchSelector(), rng=np.random.default_rng(3)), ""),
        ("pure", "simulate-dm", [n], lambda: p.simulate("densitymatrix", rng=np.random.default_rng(3)), ""),
        ("query", "input_nodes", [n], lambda: p.input_nodes, ""),
        ("query", "output_nodes", [n], lambda: p.output_nodes, ""),
        ("query", "list", [n], lambda: list(p), ""),
        ("query", "nodes", [n], p.nodes, ""),
        ("query", "isolated", [n], p.isolated_nodes, ""),
        ("query", "corrections", [n], p.correction_commands, ""),
        ("query", "measurements", [n], p.measurement_commands, ""),
        ("query", "cliffords", [n], p.clifford_commands, ""),
        ("query", "space_list", [n], p.space_list, ""),
        ("query", "layers", [n], p.partial_order_layers, ""),
        ("query", "node_mapping", [n], p.node_mapping, ""),
        ("query", "reports", [n], lambda: (p.max_space(), p.max_degree(), p.is_standard(), p.is_standard(strict=True), p.check_runnability(), p.is_parameterized(), p == h.env[q], repr(p), len(p)) and None, ""),
        ("query", "text", [n], lambda: (p.to_ascii(), p.to_latex(left_to_right=True), p.to_unicode(limit=3), str(p)) and None, ""),
        ("query", "qasm", [n], lambda: p.to_qasm3(os.path.join(h.tmp, "x")), ""),
        ("query", "connected", [n], lambda: p.connected_nodes(sorted(p.nodes())[0]), ""),
    ]
    if len(p.nodes()) <= 9 and len(p.output_nodes) <= 3:
        ops.append(("pure", "simulate-tn", [n], lambda: p.simulate("tensornetwork", rng=np.random.default_rng(3)), ""))
    # the destructive and the refactored: several patterns with the same commands
    if q != n:
        ops.append(("inplace", "extend", [n, q], lambda: p.extend(list(h.env[q])), ""))
        ops.append(("inplace", "replace", [n, q], lambda: p.replace(list(h.env[q]), h.env[q].input_nodes), ""))
    if svs:
        s = rng.choice(svs)
        if h.env[s].nqubit == len(p.input_nodes):
            ops += 3 * [("pure", "simulate-input", [n, s], lambda: p.simulate(input_state=h.env[s], rng=np.random.default_rng(3)), ""),
                        ("pure", "simulate-input-dm", [n, s], lambda: p.simulate("densitymatrix", input_state=h.env[s], rng=np.random.default_rng(3)), "")]
    if p.is_parameterized():
        x = rng.choice(h.params)
        v = rng.choice([0.25, h.params[0] + 0.5, 1])
        lab = f"subst {h.params.index(x)} {v!r}"
        ops += 2 * [("pure", "with_parameter", [n], lambda: p.with_parameter(x, v), lab), ("inplace", "replace_parameter", [n], lambda: p.replace_parameter(x, v), lab),
                    ("pure", "with_parameters", [n], lambda: p.with_parameters({x: v}), lab), ("inplace", "replace_parameters", [n], lambda: p.replace_parameters({x: v}), lab)]
    return ops


def std_ops(h, n, rng):
    s = h.env[n]
    f = lambda m: m.to_bloch()  # noqa: E731
    return [("pure", "std.to_pattern", [n], s.to_pattern, ""), ("pure", "std.space", [n], s.to_space_optimal_pattern, ""), ("pure", "std.minimize", [n], s.minimize_space, ""),
            ("pure", "std.map", [n], lambda: s.map(f), ""), ("pure", "std.bloch", [n], s.to_bloch, ""), ("pure", "std.push", [n], s.perform_pauli_pushing, ""),
            ("pure", "std.og", [n], s.to_opengraph, ""), ("pure", "std.xz", [n], s.to_xzcorrections, ""), ("query", "std.layers", [n], s.partial_order_layers, ""),
            ("query", "std.space", [n], s.max_space, ""), ("pure", "std.graph", [n], lambda: s.graph if False else None, "")]


def circuit_ops(h, n, rng):
    from graphix.fundamentals import ANGLE_PI, Axis
    from graphix.instruction import InstructionVisitor
    from graphix.sim.statevec import Statevector
    from graphix.transpiler import Circuit, instructions_to_jcz, transpile_swaps

    c = h.env[n]
    k = rng.choice([0.25, 0.5])
    g = lambda a: a + k  # noqa: E731
    perm = list(range(c.width))
    rng.shuffle(perm)

    class V(InstructionVisitor):
        def visit_qubit(self, qubit):
            return perm[qubit]

        def visit_angle(self, angle):
            return -angle

    ops = [("pure", "visit", [n], lambda: c.visit(V(), copy=True), f"visit{perm}"), ("pure", "apply_angle", [n], lambda: c.apply_angle(g, copy=True), f"angle{k}"),
           ("inplace", "apply_angle", [n], lambda: c.apply_angle(g), f"angle{k}"), ("pure", "z-axis", [n], c.transpile_measurements_to_z_axis, ""), ("pure", "j-rzh", [n], c.transpile_j_to_rzh, ""),
           ("pure", "transpile", [n], lambda: c.transpile().pattern, ""), ("pure", "transpile-swaps-no", [n], lambda: c.transpile(transpile_swaps=False).pattern, ""),
           ("pure", "causalflow", [n], lambda: c.transpile_to_causalflow().flow, ""), ("pure", "swaps", [n], lambda: transpile_swaps(c, copy=True).circuit, "swaps"),
           ("inplace", "swaps", [n], lambda: transpile_swaps(c).circuit, "swaps"),
           ("query", "jcz", [n], lambda: list(instructions_to_jcz(c.instruction)) and None, ""),
           ("pure", "circuit.simulate", [n], lambda: c.simulate(rng=np.random.default_rng(5)).state, ""),
           ("pure", "circuit.simulate-dm", [n], lambda: c.simulate(backend="densitymatrix", rng=np.random.default_rng(5)).state, ""),
           ("query", "circuit.reports", [n], lambda: (repr(c), c.is_parameterized()) and None, "")]
    if set(perm) == set(c.active_qubits):
        ops.append(("inplace", "visit", [n], lambda: c.visit(V()), ""))
    q = rng.choice(sorted(c.active_qubits)) if c.active_qubits else None
    if q is not None:
        ops += [("inplace", "gate", [n], lambda: rng.choice([c.h, c.s, c.x])(q), ""), ("inplace", "rotation", [n], lambda: rng.choice([c.rx, c.rz, c.j])(q, rng.choice([0.25, h.params[0]])), "")]
        if len(c.active_qubits) > 1 and rng.random() < 0.3:
            ops.append(("inplace", "measure", [n], lambda: c.m(q, rng.choice([Axis.X, Axis.Y, Axis.Z])), ""))
    for s in [m for m, o in h.env.items() if isinstance(o, Statevector) and o.nqubit == c.width][:2]:
        ops += [("pure", "circuit.simulate-input", [n, s], lambda s=s: c.simulate(input_state=h.env[s], rng=np.random.default_rng(5)).state, "")] * 2
    if c.is_parameterized():
        x = rng.choice(h.params)
        v = rng.choice([0.25, h.params[0] + 0.5, 1])
        lab = f"subst {h.params.index(x)} {v!r}"
        ops += 3 * [("pure", "with_parameter", [n], lambda: c.with_parameter(x, v), lab), ("inplace", "replace_parameter", [n], lambda: c.replace_parameter(x, v), lab),
                    ("inplace", "replace_parameters", [n], lambda: c.replace_parameters({x: v}), lab)]
    return ops


def og_ops(h, n, rng):
    from graphix import OpenGraph

    g = h.env[n]
    q = rng.choice([m for m, o in h.env.items() if isinstance(o, OpenGraph)])
    x = rng.choice(h.params)
    return [("pure", "og.to_pattern", [n], g.to_pattern, ""), ("pure", "og.causal", [n], g.to_causalflow_or_none, ""), ("pure", "og.gflow", [n], g.to_gflow_or_none, ""), ("pure", "og.pauli", [n], g.to_pauliflow_or_none, ""),
            ("pure", "og.bloch", [n], g.to_bloch, ""), ("pure", "og.downcast", [n], g.downcast_bloch, ""), ("pure", "og.infer", [n], g.infer_pauli_measurements, ""), ("pure", "og.map", [n], lambda: g.map(lambda m: m.to_bloch()), ""),
            ("pure", "og.compose", [n, q], lambda: g.compose(h.env[q], {})[0], ""), ("pure", "og.glue", [n, q], lambda: g.compose(h.env[q], dict(zip(h.env[q].input_nodes, g.output_nodes)))[0], ""),
            ("pure", "og.subst", [n], lambda: g.with_parameter(x, 0.25), ""), ("pure", "og.circuit", [n], g.to_circuit, ""),
            ("query", "og.odd", [n], lambda: g.odd_neighbors(list(g.graph.nodes)[:2]), ""), ("query", "og.nb", [n], lambda: g.neighbors(list(g.graph.nodes)[:2]), ""),
            ("query", "og.reports", [n], lambda: (g.isclose(h.env[q]), g.is_equal_structurally(h.env[q]), repr(g)) and None, "")]


def flow_ops(h, n, rng):
    f = h.env[n]
    x = rng.choice(h.params)
    return [("pure", "flow.xz", [n], f.to_xzcorrections, ""), ("query", "flow.focused", [n], lambda: f.is_focused() and None, ""), ("query", "flow.well", [n], lambda: (f.is_well_formed(), f.check_well_formed(), str(f)) and None, ""),
            ("query", "flow.strings", [n], lambda: f.extraction_pauli_strings and None, ""), ("pure", "flow.extract", [n], lambda: f.extract_circuit().to_circuit(), ""), ("pure", "flow.subst", [n], lambda: f.with_parameter(x, 0.25), "")]


def xz_ops(h, n, rng):
    c = h.env[n]
    x = rng.choice(h.params)
    return [("pure", "xz.to_pattern", [n], c.to_pattern, ""), ("pure", "xz.causal", [n], c.to_causalflow, ""), ("pure", "xz.gflow", [n], c.to_gflow, ""), ("pure", "xz.pauli", [n], c.to_pauliflow, ""),
            ("query", "xz.order", [n], c.generate_total_measurement_order, ""), ("query", "xz.reports", [n], lambda: (c.is_compatible(c.generate_total_measurement_order()), c.to_dag(), c.check_well_formed(), str(c)) and None, ""),
            ("pure", "xz.bloch", [n], c.to_bloch, ""), ("pure", "xz.subst", [n], lambda: c.with_parameter(x, 0.25), "")]


def _unitary(rng, k=1):
    m = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2**k)] for _ in range(2**k)])
    return np.linalg.qr(m)[0]


def state_ops(h, n, rng):
    from graphix.channels import KrausChannel, amplitude_damping_channel, dephasing_channel
    from graphix.ops import Ops
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.sim.statevec import Statevector

    s = h.env[n]
    dm = isinstance(s, DensityMatrix)
    others = [m for m, o in h.env.items() if isinstance(o, Statevector)]
    ops = [("pure", "DensityMatrix", [n], lambda: DensityMatrix(s), ""), ("query", "flatten", [n], lambda: (s.flatten(), str(s), s.nqubit) and None, "")]
    if dm:
        ops += 2 * [("copy", "DensityMatrix-copy", [n], lambda: DensityMatrix(s), ""), ("inplace", "normalize", [n], s.normalize, "")]
    if not dm:
        ops += [("pure", "Statevector", [n], lambda: Statevector(s), "sv"), ("pure", "Statevector-capacity", [n], lambda: Statevector(s, max_qubits=s.max_qubits + 1), ""),
                ("query", "dict", [n], lambda: s.to_dict(), ""), ("query", "prob", [n], lambda: s.to_prob_dict(), ""), ("inplace", "capacity", [n], lambda: s.ensure_capacity(s.max_qubits + 1), "")]
        if s.nqubit == s.max_qubits:
            ops.append(("copy", "Statevector-copy", [n], lambda: Statevector(s, max_qubits=s.max_qubits), ""))
    same = [m for m, o in h.env.items() if type(o) is type(s) and o.nqubit + s.nqubit <= 5]
    for m in rng.sample(same, min(2, len(same))):
        if m != n:
            ops += [("inplace", "tensor", [n, m], lambda m=m: s.tensor(h.env[m]), ""), ("inplace", "add_nodes", [n, m], lambda m=m: s.add_nodes(h.env[m].nqubit, h.env[m]), "")]
    eq = [m for m in others if h.env[m].nqubit == s.nqubit]
    if eq:
        m = rng.choice(eq)
        ops.append(("query", "fidelity", [n, m], lambda: s.fidelity(h.env[m]) and None, ""))
        if not dm:
            ops.append(("query", "isclose", [n, m], lambda: s.isclose(h.env[m]) and None, ""))
    if dm and s.rho.dtype == object:
        ops = [o for o in ops if o[1] != "fidelity"]
    elif s.nqubit:
        q = rng.randrange(s.nqubit)
        op = rng.choice([Ops.H, Ops.S, Ops.X])
        ops += [("inplace", "evolve_single", [n], lambda: s.evolve_single(op, q), ""), ("query", "expectation", [n], lambda: s.expectation_single(Ops.Z, q) and None, ""),
                ("inplace", "permute", [n], lambda: s.permute(rng.sample(range(s.nqubit), s.nqubit)), ""), ("inplace", "evolve", [n], lambda: s.evolve(_unitary(rng), [q]), "")]
        if s.nqubit > 1:
            a, b = rng.sample(range(s.nqubit), 2)
            ops += [("inplace", "entangle", [n], lambda: s.entangle((a, b)), ""), ("inplace", "swap", [n], lambda: s.swap((a, b)), ""), ("inplace", "evolve2", [n], lambda: s.evolve(Ops.CNOT, [a, b]), "")]
            if dm:
                ops += [("inplace", "ptrace", [n], lambda: s.ptrace([a]), ""), ("inplace", "cnot", [n], lambda: s.cnot((a, b)), "")]
            else:
                ops += [("query", "expectation_value", [n], lambda: s.expectation_value(Ops.CNOT, [a, b]) and None, ""), ("inplace", "project", [n], lambda: s.project_qubit(np.array([[0.5, 0.5], [0.5, 0.5]]), q), "")]
        if dm:
            ops.append(("inplace", "projector", [n], lambda: (s.evolve_single(np.array([[0.5, 0.5], [0.5, 0.5]]), q), s.normalize()) and None, ""))
            ops.append(("inplace", "scale", [n], lambda: (s.evolve_single(np.array([[1, 0], [0, 0.5]]), q)) and None, ""))
            chans = [m for m, o in h.env.items() if isinstance(o, KrausChannel)]
            ch = rng.choice(chans) if chans else None
            ops.append(("inplace", "channel", [n] + ([ch] if ch else []), lambda: s.apply_channel(h.env[ch] if ch else rng.choice([dephasing_channel(0.25), amplitude_damping_channel(0.5)]), [q]), ""))
    if dm and s.rho.dtype == object:
        x = rng.choice(h.params)
        ops += [("pure", "dm.subst", [n], lambda: s.with_parameter(x, 0.25), f"dmsub {h.params.index(x)}"), ("inplace", "dm.subst", [n], lambda: s.replace_parameter(x, 0.25), f"dmsub {h.params.index(x)}")]
    return ops


def tn_ops(h, n, rng):
    from graphix.ops import Ops

    t = h.env[n]
    nodes = sorted(map(int, sim.dangling(t)))
    ops = [("copy", "tn.copy", [n], t.copy, ""), ("copy", "tn.deepcopy", [n], lambda: t.copy(deep=True), ""), ("query", "tn.norm", [n], lambda: t.norm() and None, ""), ("query", "tn.flatten", [n], lambda: (t.to_statevector(nodes)), "")]
    if nodes:
        u = rng.choice(nodes)
        ops += [("inplace", "tn.evolve_single", [n], lambda: t.evolve_single(u, Ops.H), ""), ("inplace", "tn.evolve1", [n], lambda: t.evolve_single(u, Ops.S), ""),
                ("query", "tn.expect", [n], lambda: t.expectation_value(Ops.Z, [nodes.index(u)], output_node_indices=nodes) and None, ""), ("query", "tn.amplitude", [n], lambda: t.basis_coefficient(0, indices=nodes) and None, "")]
    outs = t.default_output_nodes or []
    if len(outs) > 1:
        a, b = rng.sample(range(len(outs)), 2)
        ops.append(("inplace", "tn.evolve", [n], lambda: t.evolve(Ops.CZ, [a, b], decompose=rng.random() < 0.5), ""))
    if len(nodes) < 4:
        ops.append(("inplace", "tn.add", [n], lambda: t.add_qubit(max(nodes, default=0) + 1, "plus"), ""))
    return ops


def graph_ops(h, n, rng):
    g = h.env[n]
    ops = [("copy", "gs.copy", [n], g.copy, ""), ("query", "gs.extract_vops", [n], g.extract_vops, ""), ("query", "gs.isolated", [n], g.isolated_nodes, ""), ("pure", "gs.statevector", [n], g.to_statevector, "")]
    if g.nodes:
        u = rng.choice(sorted(g.nodes))
        ops += [("inplace", "gs.h", [n], lambda: g.h(u), ""), ("inplace", "gs.s", [n], lambda: g.s(u), ""), ("inplace", "gs.z", [n], lambda: g.z(u), ""), ("inplace", "gs.lc", [n], lambda: g.local_complement(u), ""),
                ("inplace", "gs.m", [n], lambda: rng.choice([g.measure_x, g.measure_y, g.measure_z])(u, choice=rng.randrange(2)) and None, ""),
                ("inplace", "gs.e1", [n], lambda: g.equivalent_graph_e1(u), ""), ("pure", "gs.subgraph", [n], lambda: g.subgraph([v for v in g.nodes if v != u]).copy(), "")]
    ops.append(("inplace", "gs.add", [n], lambda: g.add_nodes_from([max(g.nodes, default=0) + 1]), ""))
    return ops


def channel_ops(h, n, rng):
    from graphix.channels import KrausChannel

    c = h.env[n]
    return [("pure", "KrausChannel", [n], lambda: KrausChannel(list(c)), "kraus"), ("query", "kraus.list", [n], lambda: list(c), ""), ("query", "kraus.operator", [n], lambda: c[0].operator, ""), ("query", "kraus.reports", [n], lambda: (len(c), c.nqubit, repr(c)) and None, "")]


def gf2_ops(h, n, rng):
    from graphix._linalg import MatGF2, solve_f2_linear_system

    m = h.env[n]
    fits = [k for k, o in h.env.items() if isinstance(o, MatGF2) and o.shape[0] == m.shape[1]]
    ops = [("pure", "gauss", [n], lambda: m.gauss_elimination(), "gauss"), ("pure", "reduce", [n], lambda: m.row_reduction(), "reduce"), ("pure", "null", [n], m.null_space, ""), ("pure", "rinv", [n], m.right_inverse, ""),
           ("query", "rank", [n], lambda: m.rank() and None, ""), ("inplace", "gauss", [n], lambda: m.gauss_elimination(copy=False) and None if False else (m.gauss_elimination(copy=False), None)[1], ""),
           ("inplace", "reduce", [n], lambda: (m.row_reduction(copy=False), None)[1], ""), ("copy", "MatGF2", [n], lambda: MatGF2(m), "")]
    if fits:
        k = rng.choice(fits)
        ops.append(("pure", "mat_mul", [n, k], lambda: m.mat_mul(h.env[k]), ""))
    return ops


def ops_for(h, n, rng):
    from graphix import OpenGraph, Pattern
    from graphix._linalg import MatGF2
    from graphix.channels import KrausChannel
    from graphix.flow.core import PauliFlow, XZCorrections
    from graphix.graphsim import GraphState
    from graphix.optimization import StandardizedPattern
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.sim.statevec import Statevector
    from graphix.sim.tensornet import MBQCTensorNet
    from graphix.transpiler import Circuit

    for cls, f in ((Pattern, pattern_ops), (StandardizedPattern, std_ops), (Circuit, circuit_ops), (OpenGraph, og_ops), (PauliFlow, flow_ops), (XZCorrections, xz_ops), ((Statevector, DensityMatrix), state_ops),
                   (MBQCTensorNet, tn_ops), (GraphState, graph_ops), (KrausChannel, channel_ops), (MatGF2, gf2_ops)):
        if isinstance(h.env[n], cls):
            return f(h, n, rng)
    return []


def shared_domains(rng, p):
    """The same pattern whose commands share domain sets (as compositions and rewritings produce)."""
    from graphix import Pattern, command

    pool = {}
    one = lambda d: pool.setdefault(frozenset(d), set(d))  # noqa: E731
    q = Pattern(input_nodes=p.input_nodes)
    for c in p:
        match c.kind.name:
            case "M":
                q.add(command.M(c.node, c.measurement, one(c.s_domain), one(c.t_domain)))
            case "X":
                q.add(command.X(c.node, one(c.domain)))
            case "Z":
                q.add(command.Z(c.node, one(c.domain)))
            case _:
                q.add(c)
    q.reorder_output_nodes(p.output_nodes)
    return q


def seed_object(rng, h, kind):
    from graphix._linalg import MatGF2
    from graphix.channels import KrausChannel, KrausData, dephasing_channel, depolarising_channel
    from graphix.graphsim import GraphState
    from graphix.ops import Ops
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.sim.statevec import Statevector

    ang = lambda r: (r.choice(h.params) + r.choice([0, 0.25]) if r.random() < 0.3 else r.choice([0, 0.25, 0.5, 1.0, -0.5, 0.125]))  # noqa: E731
    num = lambda r: r.choice([0, 0.25, 0.5, 1.0, -0.5, 0.125])  # noqa: E731
    if rng.random() < 0.5:
        ang = num
    if kind == "pattern":
        p = gen.small_pattern(rng, ang=ang, pauli=0.4)
        return shared_domains(rng, p) if rng.random() < 0.4 else p
    if kind == "compiled":
        p = gen.circuit(rng, rng.randrange(1, 4), rng.randrange(1, 5), ccx=0, ang=ang).transpile().pattern
        return shared_domains(rng, p) if rng.random() < 0.3 else p
    if kind == "circuit":
        return gen.circuit(rng, rng.randrange(1, 4), rng.randrange(1, 6), ccx=0.05, measure=rng.choice([0, 0.15]), ang=ang)
    if kind == "og":
        return gen.circuit(rng, rng.randrange(1, 4), rng.randrange(1, 5), ccx=0, ang=ang).transpile().pattern.to_opengraph()
    if kind in ("sv", "dm"):
        k = rng.randrange(0, 3)
        v = np.array([complex(rng.randrange(-3, 4), rng.randrange(-3, 4)) for _ in range(2**k)])
        v[0] = 4
        v = v / np.linalg.norm(v)
        if kind == "sv":
            return Statevector(v, max_qubits=k + rng.randrange(2)) if rng.random() < 0.5 else Statevector(v)
        if rng.random() < 0.3:
            e = [[rng.choice(h.params) + rng.randrange(3) if rng.random() < 0.5 else rng.randrange(3) for _ in range(2**k)] for _ in range(2**k)]
            e[0][0] = h.params[0]
            return DensityMatrix(e)
        return DensityMatrix(Statevector(v))
    if kind == "tn":
        return gen.circuit(rng, rng.randrange(1, 3), rng.randrange(1, 3), ccx=0, ang=num, kinds=["rz", "rx", "cz", "h"]).transpile().pattern.simulate("tensornetwork", rng=np.random.default_rng(1))
    if kind == "gs":
        n = rng.randrange(1, 6)
        return GraphState(nodes=range(n), edges=[(a, b) for a in range(n) for b in range(a) if rng.random() < 0.5])
    if kind == "channel":
        return rng.choice([dephasing_channel(0.25), depolarising_channel(0.5), KrausChannel([KrausData(1.0, Ops.H)])])
    r, c = rng.randrange(1, 5), rng.randrange(1, 5)
    return MatGF2([[rng.randrange(2) for _ in range(c)] for _ in range(r)])


KINDS = ["pattern"] * 6 + ["compiled"] * 4 + ["circuit"] * 5 + ["og"] * 2 + ["sv", "sv", "dm", "dm", "tn", "gs", "channel", "gf2"]


def size_ok(o):
    from graphix import OpenGraph, Pattern
    from graphix.sim.density_matrix import DensityMatrix
    from graphix.sim.statevec import Statevector
    from graphix.transpiler import Circuit

    if isinstance(o, Pattern):
        return len(o) <= 60 and len(o.output_nodes) <= 8
    if isinstance(o, Circuit):
        return len(o.instruction) <= 30
    if isinstance(o, OpenGraph):
        return len(o.graph.nodes) <= 25
    if isinstance(o, (Statevector, DensityMatrix)):
        return o.nqubit <= 5
    return True


def run(chk):
    from graphix.parameter import Placeholder

    quick = chk.tier == "quick"
    rng = random.Random(chk.seed * 49979687 + 23)
    cases, meta, used, refused = [], {}, {}, {}
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(2500 if quick else 25000):
            cid = f"h{i}"
            h = History(rng, tmp)
            h.params = [Placeholder("alpha"), Placeholder("beta")]
            kinds = [rng.choice(KINDS) for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.3:
                kinds.append(rng.choice(["sv", "pattern"]))

            def go():
                for k in kinds:
                    h.put(h.name(), seed_object(rng, h, k))
                for _ in range(rng.randrange(4, 14 if quick else 20)):
                    if len(h.env) > 9:
                        break
                    live = [n for n in h.env if n != "library" and size_ok(h.env[n])]
                    if not live:
                        break
                    n = live[-1] if rng.random() < 0.4 else rng.choice(live)
                    ops = ops_for(h, n, rng)
                    if not ops:
                        continue
                    kind = rng.choice(["pure", "inplace", "inplace", "copy", "query", "any"])
                    pick = [o for o in ops if o[0] == kind] or ops
                    k, name, args, f, label = rng.choice(pick)
                    used[name] = used.get(name, 0) + 1
                    h.call(k, name, args, f, label)

            _, err = observe(chk, cid, go, {"kinds": kinds, "trace": h.trace}, seconds=60)
            for k, v in h.refused.items():
                refused[k] = refused.get(k, 0) + v
            if err is None:
                cases.append({"id": cid, "steps": h.steps})
                meta[cid] = {"kinds": kinds, "trace": h.trace, "values": {str(v): k for k, v in h.tokens.items()} if len(str(h.tokens)) < 40000 else {}}
    res = run_batch("Alias", cases, coverage=True, timeout=800 if quick else 7000, chunk=3000)
    chk.absorb(res, cases, meta)
    chk.samples = [{"case": c["id"], "trace": meta[c["id"]]["trace"]} for c in cases[:5]]
    chk.cov.update(histories=len(cases), steps=sum(len(c["steps"]) for c in cases), operations=used, refused=refused)
