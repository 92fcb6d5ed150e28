"""Lexers for the human-readable renderings, and Python expressions as trees (no grammar of graphix here)."""
from __future__ import annotations

import ast
import math
import re

from .qasm import near

SUB, SUP = "₀₁₂₃₄₅₆₇₈₉", "⁰¹²³⁴⁵⁶⁷⁸⁹"
_NUM = r"(?P<num>(?:\d+\.\d*|\.\d+|\d+(?=[eE][+-]?\d))(?:[eE][+-]?\d+)?)|(?P<int>\d+)"
_PLAIN = re.compile(rf"(?P<sp>\s+)|{_NUM}|(?P<id>[A-Za-zπ√][A-Za-z0-9†]*)|(?P<sub>[{SUB}]+)|(?P<sup>[{SUP}]+)|(?P<dots>\.\.\.)|(?P<sym>.)", re.S)
_LATEX = re.compile(rf"(?P<times>\s*\\times\s*)|(?P<sp>(?:\s|\\,|\\;)+)|{_NUM}|(?P<id>\\?[A-Za-z][A-Za-z0-9]*)|(?P<dots>\.\.\.)|(?P<sym>\\[^A-Za-z]|.)", re.S)


def lex(text: str, fmt: str) -> list[dict]:
    out = []
    for m in (_LATEX if fmt == "latex" else _PLAIN).finditer(text):
        t, v = m.lastgroup, m.group()
        r = {"t": t, "v": v, "i": -1, "rn": 0, "rd": 0}
        if t == "times":
            r.update(t="id", v="\\times")
        elif t == "dots":
            r["t"] = "sym"
        elif t == "int":
            r["i"] = min(int(v), 10**6)
            r["rn"], r["rd"] = near(int(v) / math.pi)
        elif t == "num":
            r["rn"], r["rd"] = near(float(v) / math.pi)
        elif t in ("sub", "sup"):
            r["i"] = int("".join(str((SUB if t == "sub" else SUP).index(ch)) for ch in v))
        elif t == "sp":
            r["v"] = " "
        out.append(r)
    return out


class NotAnExpression(Exception):
    pass


def _num(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise NotAnExpression(repr(x))
    n, d = (x, 1) if isinstance(x, int) and abs(x) < 10**6 else near(float(x))
    return {"k": "num", "n": n, "d": d}


_OPS = {ast.Mult: "*", ast.Div: "/", ast.Add: "+", ast.Sub: "-", ast.MatMult: "@"}


def _tree(e):
    match e:
        case ast.Constant(value=v):
            return {"k": "imag", "n": int(v.imag)} if isinstance(v, complex) else _num(v)
        case ast.Name(id=v):
            return {"k": "name", "v": v}
        case ast.Attribute():
            b = _tree(e.value)
            if b["k"] != "name":
                raise NotAnExpression(ast.dump(e))
            return {"k": "name", "v": f"{b['v']}.{e.attr}"}
        case ast.Call():
            f = _tree(e.func)
            if f["k"] != "name" or any(q.arg is None for q in e.keywords):
                raise NotAnExpression(ast.dump(e))
            return {"k": "call", "f": f["v"], "a": [_tree(a) for a in e.args], "kw": [{"n": q.arg, "v": _tree(q.value)} for q in e.keywords]}
        case ast.List() | ast.Tuple() | ast.Set():
            return {"k": "seq", "t": type(e).__name__.lower(), "a": [_tree(a) for a in e.elts]}
        case ast.UnaryOp(op=ast.USub()):
            return {"k": "neg", "a": _tree(e.operand)}
        case ast.BinOp() if type(e.op) in _OPS:
            return {"k": "bin", "op": _OPS[type(e.op)], "a": [_tree(e.left), _tree(e.right)]}
    raise NotAnExpression(ast.dump(e))


def tree(text: str):
    """The expression, or a name that denotes nothing."""
    try:
        return _tree(ast.parse(text, mode="eval").body)
    except (SyntaxError, NotAnExpression, ValueError) as e:
        return {"k": "name", "v": f"<{type(e).__name__}>"}


_KET = re.compile(r"(?P<ket>\|[01]*(?:⟩|>)|\\ket\{[01]*\})|(?P<nl>\n)|(?P<sp> +)|(?P<num>\d+\.\d*(?:[eE][+-]?\d+)?|\d+[eE][+-]\d+)|(?P<int>\d+)"
                  r"|\\mathrm\{(?P<rm>[ie])\}|(?P<id>sqrt|pi|pmatrix|[ieπ√]|\\(?:frac|sqrt|pi|begin|end)(?![A-Za-z]))|(?P<sym>\\\\|.)", re.S)


def lexket(text: str) -> list[dict]:
    """Tokens of a rendered state, matrix or complex number; decimals in units of 1e-7."""
    out = []
    for m in _KET.finditer(text):
        t, v = m.lastgroup, m.group()
        r = {"t": t, "v": v, "i": -1, "s": 0, "b": []}
        if t == "int":
            r["i"] = min(int(v), 10**6)
        elif t == "num":
            r["s"] = max(-2 * 10**9, min(2 * 10**9, round(float(v) * 1e7)))
        elif t == "rm":
            r.update(t="id", v=m.group("rm"))
        elif t == "ket":
            r.update(v="ket", b=[int(c) for c in v if c in "01"])
        elif t == "sp":
            r.update(v=" ", i=len(v))
        out.append(r)
    return out
