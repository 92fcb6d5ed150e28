from __future__ import annotations

import importlib
import os
import sys
import traceback


def main() -> int:
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = None
    try:
        from . import boot, report, tlc

        mod = importlib.import_module(f"vh.checks.{prop.lower()}")
        boot.boot(jit=getattr(mod, "JIT", False))
        chk = report.Check(prop, tier, seed, mod.LEVEL)
        mod.run(chk)
        return chk.finish()
    except Exception as e:
        traceback.print_exc()
        if chk is not None and type(e).__name__ == "Enough" and chk.violations:
            return chk.finish()
        # An exception escaping from the code under test on an input the property covers is a rejected behaviour.
        last = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(os.environ.get("VH_REPO", "/repo")) + "/graphix/"
        if chk is not None and any(os.path.realpath(f.filename).startswith(repo) for f in last):
            chk.violate("unguarded", f"raised-{type(e).__name__}", traceback.format_exc(limit=20))
            return chk.finish()
        print(f"{prop}: the check itself failed (no verdict)")
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
