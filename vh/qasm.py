"""Lexer for OpenQASM 3 text (no grammar: the specification Qasm.tla parses and judges the token sequence)."""
from __future__ import annotations

import math
import re
from fractions import Fraction

_TOK = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+(?=[eE]))(?:[eE][+-]?\d+)?)
  | (?P<int>\d+)
  | (?P<id>[A-Za-z_\u0391-\u03c9][A-Za-z0-9_]*)
  | (?P<str>"[^"\n]*")
  | (?P<sym>->|==|!=|<=|>=|&&|\|\||[-+*/%^=;,(){}\[\]<>!~&|@:.])
  | (?P<bad>.)
""", re.X | re.S)
MAX_DEN = 20000


def near(x: float) -> tuple[int, int]:
    """The fraction with a small denominator that a float literal denotes, or 0/0."""
    if not math.isfinite(x) or abs(x) > 8:
        return 0, 0
    f = Fraction(x).limit_denominator(MAX_DEN)
    if abs(float(f) - x) > 1e-12 * max(1.0, abs(x)) or (f == 0 and x != 0) or abs(f.numerator) >= 10**5:
        return 0, 0
    return f.numerator, f.denominator


def lex(text: str) -> list[dict]:
    out = []
    for m in _TOK.finditer(text):
        t, v = m.lastgroup, m.group()
        if t == "ws":
            continue
        r = {"t": t, "v": v, "i": -1, "pn": 0, "pd": 0, "rn": 0, "rd": 0}
        if t == "int":
            r["i"] = r["pn"] = min(int(v), 10**6)
            r["pd"] = 1
            r["rn"], r["rd"] = near(int(v) / math.pi)
        elif t == "num":
            r["pn"], r["pd"] = near(float(v))
            r["rn"], r["rd"] = near(float(v) / math.pi)
        elif t == "id":
            d = re.search(r"\d+$", v)
            r["i"] = int(d.group()) if d else -1
        elif t == "str":
            r["v"] = v[1:-1]
        out.append(r)
    return out
