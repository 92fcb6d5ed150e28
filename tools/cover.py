"""Lines of graphix executed by a check: tools/cover.py OUT.json PROP TIER (accumulates into OUT.json); tools/cover.py --report OUT.json."""
from __future__ import annotations

import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.path.realpath(os.environ.get("VH_REPO", "/repo"))


def report(out: str) -> None:
    seen = {k: set(v) for k, v in json.load(open(out)).items()}
    for root, _, files in os.walk(f"{REPO}/graphix"):
        for f in sorted(files):
            p = os.path.join(root, f)
            if not f.endswith(".py"):
                continue
            rel, src = os.path.relpath(p, REPO), open(p).read()
            hit = seen.get(rel, set())
            for n in ast.walk(ast.parse(src)):
                if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                if any("overload" in ast.unparse(d) or "abstract" in ast.unparse(d) for d in n.decorator_list):
                    continue
                body = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
                inner = {m for s in body for x in ast.walk(s) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for m in range(x.lineno, x.end_lineno + 1)}
                stm = [x for s in body for x in ast.walk(s) if isinstance(x, ast.stmt)]
                miss = sorted({x.lineno for x in stm if x.lineno not in hit and x.lineno not in inner and not isinstance(x, (ast.Import, ast.ImportFrom, ast.Match, ast.Pass, ast.Global, ast.Nonlocal))})
                miss = [m for m in miss if not any(m < h <= m for h in hit)]
                if body and not any(x.lineno in hit for x in stm):
                    print(f"{rel}:{n.lineno} {n.name} NEVER")
                elif miss:
                    print(f"{rel}:{n.lineno} {n.name} misses {miss}")


def main() -> None:
    if sys.argv[1] == "--report":
        return report(sys.argv[2])
    out = sys.argv[1]
    sys.argv = ["vh.main", *sys.argv[2:]]
    lines: dict[str, set[int]] = {}
    mon = sys.monitoring
    mon.use_tool_id(1, "cover")

    def line(code, no):
        fn = code.co_filename
        if "/graphix/" in fn:
            lines.setdefault(os.path.relpath(os.path.realpath(fn), REPO), set()).add(no)
        return mon.DISABLE

    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    from vh.main import main as run

    rc = run()
    mon.set_events(1, 0)
    old = json.load(open(out)) if os.path.exists(out) else {}
    for k, v in lines.items():
        old[k] = sorted(set(old.get(k, [])) | v)
    json.dump(old, open(out, "w"))
    sys.stdout.flush()
    os._exit(rc)


main()
