"""Setup: the interpreter and libraries are there, and a run is repeatable."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core, env  # noqa: E402

env.load()


def fn(sim):
    import torch

    from sim import rngseam

    rngseam.seed_all(sim.data_seed())
    with rngseam.Extremes(sim):
        sim.log(torch.rand(4).tolist(), sim.choose(5, "x"))


import tempfile  # noqa: E402

d = tempfile.mkdtemp(prefix="verif-")
a = core.isolated(fn, "self", None, d)
b = core.isolated(fn, "self", None, d)
c = core.isolated(fn, "other", a["choices"], d)
os.rmdir(d)
assert a["status"] == "ok", a
assert a["digest"] == b["digest"] == c["digest"], (a, b, c)
print("selftest ok")
