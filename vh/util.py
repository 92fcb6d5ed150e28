from __future__ import annotations

import contextlib
import random
import signal
import traceback


class NoAnswer(Exception):
    pass


class Enough(Exception):
    """The code under test has failed to answer often enough: conclude with the violations found so far."""


@contextlib.contextmanager
def limit(seconds: int):
    def handler(_s, _f):
        raise NoAnswer(f"no answer within {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def observe(chk, cid: str, fn, origin=None, seconds: int = 30, expect: tuple = ()):
    """Run real code on a valid input; an exception (or no answer) is itself a rejected observation.

    Returns (value, None) or (None, exception).
    """
    try:
        with limit(seconds):
            return fn(), None
    except expect as e:
        return None, e
    except NoAnswer as e:
        chk.violate(cid, "no-answer", {"origin": origin, "error": str(e)})
        chk.silent = getattr(chk, "silent", 0) + seconds
        if chk.silent >= 180:
            raise Enough(f"no answer for {chk.silent} s in total") from e
        return None, e
    except Exception as e:  # noqa: BLE001
        chk.violate(cid, f"raised-{type(e).__name__}", {"origin": origin, "error": traceback.format_exc(limit=8)})
        return None, e


def branches(rng: random.Random, measured: list[int], cap: int, fixed: dict[int, int] | None = None) -> list[list[list[int]]]:
    """Restrictions on outcomes: one unrestricted tree if it is small, else a seeded sample of leaves."""
    fixed = dict(fixed or {})
    free = [n for n in measured if n not in fixed]
    base = [[n, b] for n, b in fixed.items()]
    if 2 ** len(free) <= cap:
        return [base]
    out = []
    seen = set()
    cands = [tuple(0 for _ in free), tuple(1 for _ in free)]
    while len(cands) < cap:
        cands.append(tuple(rng.randrange(2) for _ in free))
    for c in cands:
        if c not in seen:
            seen.add(c)
            out.append(base + [[n, b] for n, b in zip(free, c)])
    return out


def case(cid: str, a: dict, b: dict, rel=(), brs=None, ka: int = -1, kb: int = 0, nz: int = 0, ex: int = 0) -> dict:
    return {"id": cid, "A": a, "B": b, "rel": list(rel), "brs": brs if brs is not None else [[]], "ka": ka, "kb": kb, "nz": nz, "ex": ex}


def rel(n: int, d=(), c: int = 0) -> dict:
    return {"n": n, "c": c, "d": sorted(d)}
