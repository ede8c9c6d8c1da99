#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("VERIF_CHILD") is None:
    # fixed hash seed: set iteration order is a source of nondeterminism
    e = dict(os.environ, VERIF_CHILD="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    e.setdefault("PYTHONHASHSEED", "0")
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
ap.add_argument("--runs", type=int)
ap.add_argument("--wall", type=float)
ap.add_argument("--workers", type=int)
ap.add_argument("--only", action="append")
a = ap.parse_args()

from sim import runner  # noqa: E402

mod = importlib.import_module("sim.props." + a.prop)
if a.replay:
    sys.exit(runner.replay(mod, a.replay))
sys.exit(runner.run_property(mod, a.tier, a.seed, a.workers, a.wall, a.runs, a.only))
