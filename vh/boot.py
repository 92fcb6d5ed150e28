"""Import graphix from /repo's working tree (never from a byte-code cache)."""
from __future__ import annotations

import importlib
import os
import sys
import warnings

REPO = os.environ.get("VH_REPO", "/repo")


def boot(jit: bool = False) -> None:
    if not jit:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    else:
        os.environ.setdefault("NUMBA_NUM_THREADS", "2")
    # third-party modules may use their own byte code ...
    for mod in ("numpy", "networkx", "numba", "scipy.optimize", "matplotlib.pyplot", "quimb.tensor", "typing_extensions"):
        try:
            importlib.import_module(mod)
        except ImportError:
            pass
    # ... graphix is always compiled from the source in the working tree.
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.dont_write_bytecode = True
    for k in [k for k in sys.modules if k == "graphix" or k.startswith("graphix.")]:
        del sys.modules[k]
    sys.path.insert(0, REPO)
    import graphix

    assert os.path.realpath(graphix.__file__).startswith(os.path.realpath(REPO) + "/"), graphix.__file__
    warnings.simplefilter("ignore")
