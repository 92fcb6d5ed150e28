"""Amplitudes with a known exact form, for the renderings of states."""
from __future__ import annotations

import cmath
import math
from fractions import Fraction

DENS = [d for d in range(1, 41) if 33546240 % d == 0]      # phases exp(i pi n/d) in the field of Ket.tla
SMALL = (2, 3, 5, 7, 11, 13)


class Amp:
    """A sum of num/den * sqrt(rad) * exp(i*pi*an/ad), or a number without such a form."""

    def __init__(self, parts=None, z=None):
        self.parts, self.z = parts, z

    @property
    def exact(self):
        return self.parts is not None

    def __complex__(self):
        if self.z is not None:
            return complex(self.z)
        return complex(sum(n / d * math.sqrt(r) * unit(a, b) for n, d, r, a, b in self.parts))

    def __mul__(self, o):
        if not (self.exact and o.exact):
            return Amp(z=complex(self) * complex(o))
        return Amp([part(Fraction(n * m, d * e), r * s, Fraction(a, b) + Fraction(p, q)) for n, d, r, a, b in self.parts for m, e, s, p, q in o.parts])

    def __add__(self, o):
        if not (self.exact and o.exact):
            return Amp(z=complex(self) + complex(o))
        return Amp(self.parts + o.parts)

    def conj(self):
        return Amp([[n, d, r, -a, b] for n, d, r, a, b in self.parts]) if self.exact else Amp(z=complex(self).conjugate())

    def wire(self):
        z = complex(self)
        return {"ex": int(self.exact), "parts": self.parts if self.exact else [], "re": round(z.real * 1e7), "im": round(z.imag * 1e7)}


def unit(a, b):
    """exp(i*pi*a/b), exactly on the axes."""
    f = Fraction(a, b) % 2
    if f * 2 == int(f * 2):
        return (1, 1j, -1, -1j)[int(f * 2)]
    return cmath.exp(1j * math.pi * float(f))


def part(frac, rad, ang):
    out = 1
    for p in SMALL:
        while rad % (p * p) == 0:
            rad //= p * p
            out *= p
    frac, ang = Fraction(frac) * out, Fraction(ang)
    return [frac.numerator, frac.denominator, rad, ang.numerator, ang.denominator]


def form(frac, rad=1, ang=0):
    return Amp([part(frac, rad, ang)])


def surd(square: Fraction, ang=0):
    """sqrt(square) * exp(i*pi*ang)."""
    square = Fraction(square)
    return form(Fraction(1, square.denominator), square.numerator * square.denominator, ang)


def near_simple(x: float, den: int = 1000) -> bool:
    """Whether the square or the value itself is a small fraction, up to ten times the default tolerance."""
    return any(abs(v - Fraction(v).limit_denominator(den)) < 1e-8 for v in (x, x * x))


def plain(z: complex) -> bool:
    """No part, modulus or phase of z has a simple form."""
    if abs(z.imag) < 1e-9 or abs(z.real) < 1e-9:
        return not near_simple(z.real + z.imag)
    th = cmath.phase(z) / math.pi
    return not (near_simple(z.real) and near_simple(z.imag)) and not (near_simple(abs(z)) and abs(th - Fraction(th).limit_denominator(1000)) < 1e-8)
