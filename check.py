#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [-v] [-j N]   |   check.py --replay FILE"""
import os, sys
sys.setrecursionlimit(20000)
PY = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3
except ImportError:
    if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) and not os.environ.get("VF_REEXEC"):
        os.environ["VF_REEXEC"] = "1"
        os.execv(PY, [PY] + sys.argv)
    raise
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import run

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--setup":
        print("z3", z3.get_version_string())      # nothing to build: the verifier is pure python
        sys.exit(0)
    if a[0] == "--replay":
        sys.exit(run.replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    jobs = int(a[a.index("-j") + 1]) if "-j" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(run.run_property(a[0], tier, seed, jobs, "-v" in a))
