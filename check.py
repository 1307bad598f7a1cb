#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--only SUB] [--scale X]
check.py replay FILE

Re-executes itself under the repository's own interpreter if needed."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kcv import core  # noqa: E402


def main(argv):
    if argv and argv[0] == "replay":
        return core.replay(os.path.abspath(argv[1]))
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    return core.run_property(a.property, "thorough" if a.tier == "thorough" else "quick", a.seed,
                             a.only, a.jobs, a.scale)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
