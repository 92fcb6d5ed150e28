"""Symbolic angles with full complex arithmetic, as a plugin of the simulator would provide them.

An expression is a shared graph of operations that is evaluated only when its parameters are substituted.
The simulators under test handle it through the interface of `graphix.parameter` only.
"""
from __future__ import annotations

import cmath
import random
from numbers import Number

from graphix.parameter import ExpressionWithTrigonometry, Parameter


class Sym(ExpressionWithTrigonometry):
    def __init__(self, op, args, params):
        self.op, self.args, self.params, self.memo = op, args, frozenset(params), (None, None)

    def _bin(self, op, a, b):
        for x in (a, b):
            if not isinstance(x, (Sym, Number)):
                return NotImplemented
        ps = frozenset().union(*(x.params for x in (a, b) if isinstance(x, Sym)))
        return Sym(op, (a, b), ps)

    def __add__(self, o):
        return self._bin("+", self, o)

    def __radd__(self, o):
        return self._bin("+", o, self)

    def __sub__(self, o):
        return self._bin("-", self, o)

    def __rsub__(self, o):
        return self._bin("-", o, self)

    def __mul__(self, o):
        return self._bin("*", self, o)

    def __rmul__(self, o):
        return self._bin("*", o, self)

    def __truediv__(self, o):
        return self._bin("/", self, o)

    def __rtruediv__(self, o):
        return self._bin("/", o, self)

    def __neg__(self):
        return Sym("neg", (self,), self.params)

    def conjugate(self):
        return Sym("conj", (self,), self.params)

    def cos(self):
        return Sym("cos", (self,), self.params)

    def sin(self):
        return Sym("sin", (self,), self.params)

    def exp(self):
        return Sym("exp", (self,), self.params)

    def _value(self, key, env):
        if self.memo[0] == key:
            return self.memo[1]
        a = [x._value(key, env) if isinstance(x, Sym) else x for x in self.args]
        v = self._apply(a)
        self.memo = (key, v)
        return v

    def _apply(self, a):
        match self.op:
            case "+":
                return a[0] + a[1]
            case "-":
                return a[0] - a[1]
            case "*":
                return a[0] * a[1]
            case "/":
                return a[0] / a[1]
            case "neg":
                return -a[0]
            case "conj":
                return a[0].conjugate() if isinstance(a[0], Sym) else complex(a[0]).conjugate()
        if isinstance(a[0], Sym):
            return getattr(a[0], self.op)()
        return getattr(cmath, self.op)(a[0])

    def with_parameter(self, variable, substitute):
        return self.with_parameters({variable: substitute})

    def with_parameters(self, assignment):
        env = {id(k): v for k, v in assignment.items()}
        if not any(id(p) in env for p in self.params):
            return self
        v = self._value(tuple(sorted((k, v) for k, v in env.items())), env)
        return v if isinstance(v, Sym) else complex(v)

    def __repr__(self):
        return f"Sym({self.op})"

    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other


class Var(Sym, Parameter):
    def __init__(self, name):
        self.name, self.params, self.memo = name, frozenset([self]), (None, None)

    def _value(self, key, env):
        v = env.get(id(self), self)
        return v if isinstance(v, Sym) else float(v)

    def __repr__(self):
        return self.name


class Angles:
    """Replace some numeric angles with expressions that take the same value under one assignment."""

    def __init__(self, rng: random.Random, rate: float = 0.7):
        self.rng, self.rate = rng, rate
        self.assignment = {Var(f"t{i}"): rng.choice([0.0, 1.0, 0.25, rng.uniform(-2, 2)]) for i in range(rng.choice([1, 2]))}
        self.used = 0

    def __call__(self, angle):
        if self.rng.random() >= self.rate:
            return angle
        v = self.rng.choice(list(self.assignment))
        k = self.rng.choice([1, -1, 2, 0.5])
        self.used += 1
        e = v if k == 1 and self.rng.random() < 0.7 else k * v
        return e + (angle - k * self.assignment[v])

    def substitute(self, st):
        """The state with every parameter replaced, all at once or one after the other."""
        if len(self.assignment) > 1 and self.rng.random() < 0.5:
            return st.with_parameters(self.assignment)
        for v, x in self.assignment.items():
            st = st.with_parameter(v, x)
        return st


def pattern(rng, p):
    """A copy of the pattern with symbolic angles, and the assignment."""
    from graphix import Pattern, command
    from graphix.measurements import BlochMeasurement

    ang = Angles(rng)
    q = Pattern(input_nodes=list(p.input_nodes))
    for c in p:
        if c.kind.name == "M" and isinstance(c.measurement, BlochMeasurement):
            c = command.M(c.node, BlochMeasurement(ang(c.measurement.angle), c.measurement.plane), set(c.s_domain), set(c.t_domain))
        q.add(c)
    q.reorder_output_nodes(list(p.output_nodes))
    return q, ang


def circuit(rng, c):
    import dataclasses

    from graphix import Circuit

    ang = Angles(rng)
    r = Circuit(c.width)
    r.extend([dataclasses.replace(i, angle=ang(i.angle)) if hasattr(i, "angle") else i for i in c.instruction])
    return r, ang


def sometimes(cid, outcomes, make, obj, share=0.25):
    """(object to run, its assignment or None): symbolic for a share of the behaviours, chosen by their content."""
    rng = random.Random(repr((cid, sorted(outcomes.items()))))
    if rng.random() >= share:
        return obj, None
    q, ang = make(rng, obj)
    return (q, ang) if ang.used else (obj, None)
