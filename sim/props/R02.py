"""R02: randomness comes only from the seeded generators, and runs resume exactly."""
import os
import pickle
import subprocess
import sys
import tempfile

import torch

from .. import catalog as C
from .. import dl, env, hist, pristine, rngseam

PROPERTY = "R02"
RULE = ("one evaluation = one simulated program of random and deterministic components, with crash/resume points and fresh processes; "
        "distinct = different history digest")
REAL = ["every random component of sim/catalog.py, the three loaders, the networks' initialisation and dropout",
        "torch, numpy and python generators", "real processes (forked before any call; separately started interpreters with other hash seeds)"]
STUB = ["crash = the process's memory is dropped and the generator state saved before the crash is restored in a fresh process"]
QUICK, THOROUGH = 1300, 60000
SURE = {"sample", "hdf5", "mem", "net"}      # steps whose results must differ between seeds


# ---- steps: (kind, params), rebuildable in any process
def construct(step):
    kind, p = step
    if kind == "comp":
        obj = C.build(p["name"], p["cfg"])
        if p["train"] and isinstance(obj, torch.nn.Module):
            obj.train()
        return obj
    if kind == "mem":
        from ml4gw.dataloading import InMemoryDataset
        X = torch.arange(p["C"] * p["T"]).view(p["C"], p["T"]).float()
        return InMemoryDataset(X, p["k"], None, p["batch"], 1, p["bpe"], p["co"], True)
    if kind in ("hdf5", "chunk"):
        import warnings

        from ml4gw.dataloading import ChunkedTimeSeriesDataset, Hdf5TimeSeriesDataset
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = Hdf5TimeSeriesDataset(p["paths"], p["chans"], p["k"] + 6 * (kind == "chunk"), p["batch"], p["bpe"], p["mode"], num_files_per_batch=p["nfpb"])
        return ds if kind == "hdf5" else ChunkedTimeSeriesDataset(ds, p["k"], p["batch"], 2, p["mode"] is True)
    return None


def perform(step, obj):
    kind, p = step
    if kind == "net":
        m = C.REG[p["name"]].make(p["cfg"])
        return {k: v.clone() for k, v in m.state_dict().items()}
    if kind == "sample":
        import ml4gw.distributions as D
        cls, a = C.DISTS[p["dist"]]
        return getattr(D, cls)(*a).sample((50,))
    if kind == "comp":
        call = hist.Call(p["name"], p["cfg"], p["spec"], p["seed"], p["B"], bad=p["bad"])
        a = call.args()
        try:
            with hist.ambient("no_grad"):
                return C.clone(C.REG[p["name"]].call(obj, a))
        except Exception as e:  # noqa: BLE001 - a failing call is part of the program
            return ("raised", type(e).__name__)
    return [C.clone(x) for x in obj]


def execute(req):
    """(steps, seed | None, state | None, first) -> values and generator states from step ``first`` on."""
    steps, seed, state, first = req
    rngseam.seed_all(seed if seed is not None else 987654321)
    objs = []
    for s in steps:
        objs.append(objs[s[1]["of"]] if "of" in s[1] else construct(s))
    if state is not None:
        rngseam.set_state(state)
    vals, states = [], [rngseam.get_state()]
    for s, o in list(zip(steps, objs, strict=True))[first:]:
        vals.append(perform(s, o))
        states.append(rngseam.get_state())
    return vals, states


def draw_step(sim, files):
    kind = sim.pick(["comp", "comp", "comp", "det", "sample", "net", "hdf5", "mem", "chunk", "train"], "step")
    if kind == "sample":
        return kind, {"dist": sim.pick([d for d in C.DISTS if d != "delta"], "dist")}
    if kind == "net":
        name = sim.pick(["ResNet1D", "BottleneckResNet1D", "ResNet2D", "S4D", "S4DKernel", "S4Model", "ConvAutoencoder"], "net")
        return kind, {"name": name, "cfg": C.draw_cfg(sim, name)}
    if kind == "mem":
        co = sim.flip(0.5, "coincident")
        return kind, {"C": sim.between(1, 3, "C"), "T": 50, "k": sim.between(1, 5, "k"), "batch": 8, "bpe": None if co else 3, "co": co}
    if kind in ("hdf5", "chunk"):
        k = files.kernel - 6
        return kind, {"paths": list(files.paths), "chans": [dl.NAMES[c] for c in range(files.nchan_all)], "k": k, "batch": sim.between(2, 5, "batch"),
                      "bpe": sim.between(2, 3, "batches"), "mode": sim.pick(dl.MODES, "mode"), "nfpb": sim.pick([None, 1], "files per batch")}
    train = kind == "train"
    name = sim.pick(C.names(lambda c: c.net), "net") if train else sim.pick(C.names(lambda c: c.rng == (kind == "comp")), "component")
    cfg = C.draw_cfg(sim, name)
    bad = (sim.choose(4, "bad arg"), sim.pick(hist.BAD, "how bad")) if sim.flip(0.1, "bad call") else None
    return "comp", {"name": name, "cfg": cfg, "spec": C.draw_spec(sim, name, cfg), "seed": sim.data_seed(), "B": sim.between(2, 4, "B"), "bad": bad, "train": train}


def describe(step):
    p = step[1]
    return f"{step[0]} {p.get('name', p.get('dist', ''))} {p.get('cfg', p)} {p.get('spec', '')}{' bad' if p.get('bad') else ''}"


def compare(sim, key, what, steps, got, want, first=0):
    for i, (a, b) in enumerate(zip(got[0], want[0][first:], strict=True)):
        d = C.diff(a, b, 1e-6)
        sim.check(d is None, key, lambda: f"{what}: step {first + i} ({describe(steps[first + i])}): {d}")
        sim.check(rngseam.state_equal(got[1][i + 1], want[1][first + i + 1]), key + "-state",
                  lambda: f"{what}: the generators are in another state after step {first + i} ({describe(steps[first + i])})")


def program(sim):
    files = dl.Files(sim, 6 + sim.between(1, 4, "k"), max_files=3, max_extra=60, many=True)
    steps = []
    for _ in range(sim.between(1, 6, "steps")):
        again = [i for i, s in enumerate(steps) if s[0] in ("comp", "hdf5", "mem", "chunk") and not s[1].get("train")]
        if again and sim.flip(0.35, "object used before"):
            i = sim.pick(again, "which")
            kind, p = steps[i]
            p = dict(p, of=p.get("of", i))
            if kind == "comp" and sim.flip(0.7, "other request"):
                p.update(spec=C.draw_spec(sim, p["name"], p["cfg"]), seed=sim.data_seed(), B=sim.between(2, 4, "B"), bad=None)
            steps.append((kind, p))
        else:
            steps.append(draw_step(sim, files))
    for s in steps:
        sim.tags.add(s[1].get("name", s[0]))
    sim.log([describe(s) for s in steps])
    return steps


def det(step):
    p = step[1]
    return step[0] == "comp" and not p["train"] and not C.REG[p["name"]].rng and not p["bad"]


def run(sim):
    pristine.start(execute)
    steps = program(sim)
    seed = sim.data_seed()
    ref = execute((steps, seed, None, 0))
    for i, s in enumerate(steps):
        if det(s):
            sim.check(rngseam.state_equal(ref[1][i], ref[1][i + 1]), "R02:consumed", lambda: f"deterministic component used the generators: {describe(s)}")
    sim.steps += len(steps)
    for _ in range(sim.between(1, 3, "replicas")):
        how = sim.choose(5, "replica")
        j = sim.choose(len(steps), "crash before step")
        if how == 0:
            res = pristine.ask((steps, seed, None, 0))
            what, first = "the same seed in a fresh process", 0
        elif how in (1, 2):
            sim.fault("crash-resume", j)
            res = pristine.ask((steps, None if how == 1 else sim.data_seed(), ref[1][j], j))
            what, first = f"resumed in a fresh process before step {j}", j
        elif how == 3:
            res = ("ok", execute((steps, seed, None, 0)))
            what, first = "the same seed again in the same process", 0
        else:
            other = sim.data_seed()
            if other == seed:
                continue
            got = execute((steps, other, None, 0))
            for i, s in enumerate(steps):
                if s[0] in SURE:
                    sim.check(C.diff(got[0][i], ref[0][i], 0.0) is not None, "R02:not-from-seed", lambda: f"{describe(s)}: same values from different seeds")
            continue
        sim.check(res[0] == "ok", "R02:error", lambda: f"{what}: {res[1:]}")
        compare(sim, "R02:differs", what, steps, res[1], ref, first)


def quiet(sim):
    """Building, fitting and calling deterministic components leaves the generators alone."""
    rngseam.seed_all(sim.data_seed())
    for _ in range(3):
        name = sim.pick(C.names(lambda c: not c.rng and not c.net), "component")
        cfg = C.draw_cfg(sim, name)
        c = C.REG[name]
        st = rngseam.get_state()
        obj = c.make(cfg)
        c.prep(obj, cfg)
        sim.check(rngseam.state_equal(st, rngseam.get_state()), "R02:consumed", lambda: f"building {name} {cfg} used the generators")
        for _ in range(2):
            spec = C.draw_spec(sim, name, cfg)
            call = hist.Call(name, cfg, spec, sim.data_seed(), sim.between(1, 3, "B"), sim.pick(hist.MODES, "mode"),
                             bad=(sim.choose(4, "bad arg"), sim.pick(hist.BAD, "how bad")) if sim.flip(0.1, "bad") else None)
            if name == "SnrRescaler" and call.bad and call.bad[1] == "none":
                call.bad = None         # no targets means targets at random
            a = call.args()
            st = rngseam.get_state()
            if isinstance(obj, torch.nn.Module):
                obj.train(sim.flip(0.5, "train"))
            hist.attempt(call, obj, a)
            sim.check(rngseam.state_equal(st, rngseam.get_state()), "R02:consumed", lambda: f"{call} used the generators")
            sim.steps += 1
        sim.log(name, cfg)
        sim.tags.add(name)


def interpreters(sim):
    """The same program in separately started interpreters with different hash seeds."""
    pristine.start(execute)
    steps = program(sim)
    seed = sim.data_seed()
    ref = execute((steps, seed, None, 0))
    fd, path = tempfile.mkstemp(dir=sim.scratch)
    os.close(fd)
    j = sim.choose(len(steps), "resume before")
    resume = sim.flip(0.5, "resume")
    with open(path, "wb") as f:
        pickle.dump((steps, None, ref[1][j], j) if resume else (steps, seed, None, 0), f)
    code = ("import sys, pickle; sys.path.insert(0, sys.argv[1]); from sim import env; env.load(); from sim.props import R02; "
            "r = R02.execute(pickle.load(open(sys.argv[2], 'rb'))); pickle.dump(r, open(sys.argv[2] + '.out', 'wb'))")
    e = dict(os.environ, PYTHONHASHSEED=str(sim.choose(2**32 - 1, "hash seed")), VERIF_REPO=env.REPO)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, "-B", "-c", code, here, path], env=e, capture_output=True, text=True, timeout=100)
    if r.returncode:
        raise RuntimeError(r.stderr[-2000:])
    with open(path + ".out", "rb") as f:
        got = pickle.load(f)
    sim.fault("other-interpreter", j if resume else "start")
    compare(sim, "R02:differs", "separately started interpreter" + (f" resumed before step {j}" if resume else ""), steps, got, ref, j if resume else 0)
    sim.steps += len(steps)


SCENARIOS = {"programs": (run, 60), "quiet": (quiet, 25), "interpreters": (interpreters, 1)}
