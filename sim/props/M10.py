"""M10: a long-lived process does not pile up memory, work, files or threads."""
import collections
import gc
import os
import threading

import torch
from torch.multiprocessing.reductions import StorageWeakRef
from torch.utils._python_dispatch import TorchDispatchMode

from .. import catalog as C
from .. import dl, faults, fit, hist, rngseam
from . import M09  # noqa: F401 - imports what the first optimizer step imports, before any run is forked

PROPERTY = "M10"
RULE = ("one evaluation = one seeded routine (calls, training steps, failing calls, instances built and dropped, refits, checkpoints; or epochs, "
        "abandoned epochs, broken reads) repeated in one process up to 300 times with fresh data while what stays behind is measured; distinct = different history digest")
REAL = ["every component of sim/catalog.py", "Hdf5TimeSeriesDataset, ChunkedTimeSeriesDataset, InMemoryDataset", "h5py, torch allocator, CPython gc"]
STUB = ["the client repeating its requests", "allocation failures, broken reads"]
QUICK, THOROUGH = 400, 15000
ROUND = 6
ROUNDS = 50


class Track(TorchDispatchMode):
    """Follows every storage made, weakly, and counts operators."""

    def __init__(self):
        super().__init__()
        self.refs = []
        self.ops = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.ops += 1
        for t in out if isinstance(out, (list, tuple)) else (out,):
            if isinstance(t, torch.Tensor):
                self.refs.append(StorageWeakRef(t.untyped_storage()))
        return out

    def alive(self):
        live = {}
        for r in self.refs:
            if not r.expired():
                live.setdefault(r.cdata, r)
        self.refs = list(live.values())
        return len(self.refs)


CONTAINERS = (list, dict, set, collections.deque, collections.OrderedDict, collections.defaultdict)


def h5_open():
    import h5py

    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL)


def measure(track):
    gc.collect()
    n = track.alive()
    refs, track.refs = track.refs, []
    objs = gc.get_objects()
    entries = 0
    for o in objs:
        t = type(o)
        if t is dict:
            entries += len(o)
            for v in o.values():
                if type(v) in CONTAINERS and not gc.is_tracked(v):
                    entries += len(v)
        elif t in CONTAINERS:
            entries += len(o)
    count = len(objs)
    del objs
    track.refs = refs
    return {"tensors": n, "objects": count, "container entries": entries, "open files": len(os.listdir("/proc/self/fd")),
            "open HDF5 objects": h5_open(), "threads": threading.active_count()}


def repeat(sim, desc, once):
    """Repeat until nothing grows any more, or long enough to be sure it does."""
    track = Track()
    hist_ = []
    i = 0
    with track:
        for r in range(ROUNDS):
            for _ in range(ROUND):
                once(i)
                i += 1
            hist_.append(measure(track))
            if r >= 2:
                grow = [k for k in hist_[0] if all(b[k] - a[k] >= 0.45 * ROUND for a, b in zip(hist_[-3:], hist_[-2:], strict=False))]
                if not grow:
                    break
        else:
            k = grow[0]
            sim.check(False, "M10:growth", f"{desc}: {grow} still grow after {i} repetitions: {[h[k] for h in hist_[::8]]}")
    sim.counters["repetitions"] = sim.counters.get("repetitions", 0) + i
    sim.check(True, "M10:growth", "")
    sim.steps += i
    return i


def ops(f):
    t = Track()
    with t:
        f()
    return t.ops


def usable(c):
    return True


def service(sim):
    name = sim.pick(C.names(usable), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    obj = C.build(name, cfg)
    kinds = ["call", "call", "call", "bad", "oom", "build"]
    if not c.inplace and name not in ("Distribution", "ComovingVolume", "IfoGeometry"):
        kinds += ["backward"]
    if isinstance(obj, torch.nn.Module):
        kinds += ["restore"]
    if c.net:
        kinds += ["train"]
    if name in fit.NAMES:
        kinds += ["refit", "refit"]
    if name in ("Snapshotter", "OnlineAverager"):
        kinds += ["stream", "stream", "stream"]
    script = []
    for _ in range(sim.between(1, 3, "script")):
        k = sim.pick(kinds, "what")
        B = sim.between(1, 3, "B")
        call = hist.Call(name, cfg, C.draw_spec(sim, name, cfg), 0, B, sim.pick(hist.MODES, "mode"),
                         bad=(sim.choose(4, "bad arg"), sim.pick(hist.BAD, "how bad")) if k == "bad" else None)
        script.append((k, call, sim.choose(30, "alloc at"), fit.refit_cfg(sim, name, cfg) if k == "refit" else None))
        sim.log(k, call)
    opt = torch.optim.SGD(obj.parameters(), lr=1e-4, momentum=0.9) if any(s[0] == "train" for s in script) else None
    state = {}
    fresh = sim.flip(0.7, "fresh data")

    def once(i, fixed=None):
        for j, (k, call, at, c2) in enumerate(script):
            call.seed = 1000 * j + (i if fresh and fixed is None else 0)
            if k in ("call", "bad"):
                hist.attempt(call, obj, call.args())
            elif k == "oom":
                hist.attempt(call, obj, call.args(), faults.AllocFault(at))
            elif k == "build":
                hist.attempt(call, C.build(name, cfg), call.args())
            elif k == "refit":
                try:
                    fit.fit(obj, name, c2)
                except Exception:  # noqa: BLE001 - the routine may include failing fits
                    pass
            elif k == "restore":
                obj.load_state_dict({k: v.clone() for k, v in obj.state_dict().items()})
                hist.attempt(call, obj, call.args())
            elif k == "stream":
                a = call.args()
                key = [x for x in ("snapshot", "state") if x in a or True][0 if name == "Snapshotter" else 1]
                if j in state:
                    a[key] = state[j]
                try:
                    with hist.ambient(call.mode):
                        out = obj(**a)
                    state[j] = out[-1] if name == "Snapshotter" else out[1]
                except Exception:  # noqa: BLE001 - a state left from another mode may be refused
                    state.pop(j, None)
            else:
                if k == "train":
                    obj.train()
                a = call.args()
                for key, v in list(a.items()):
                    if isinstance(v, torch.Tensor) and (v.is_floating_point() or v.is_complex()):
                        a[key] = v.clone().requires_grad_(True)
                rngseam.seed_all(7)
                try:
                    with torch.enable_grad():
                        total = sum(t.abs().pow(2).mean() for _, t in C.leaves(c.call(obj, a)) if t.requires_grad)
                        if isinstance(total, torch.Tensor):
                            total.backward()
                    if k == "train":
                        opt.step()
                        opt.zero_grad()
                except Exception:  # noqa: BLE001 - not every argument can carry a gradient
                    pass
                if k == "train":
                    obj.eval()

    once(0)
    once(0, 0)
    first = ops(lambda: once(0, 0))
    n = repeat(sim, f"{name} {[(s[0], str(s[1])) for s in script]}", once)
    last = ops(lambda: once(0, 0))
    sim.check(last <= 1.3 * first + 20, "M10:work", lambda: f"{name} {[(s[0], str(s[1])) for s in script]}: the routine takes {last} tensor operations "
              f"after {n} repetitions, {first} at first")
    sim.tags.add(name)


def loaders(sim):
    """Epochs over files: complete, abandoned half way, and broken by a bad file."""
    import warnings

    from ml4gw.dataloading import ChunkedTimeSeriesDataset, InMemoryDataset

    kernel = sim.between(4, 10, "kernel")
    files = dl.Files(sim, kernel, max_files=3)
    chans = files.pick_channels()
    batch, bpe = sim.between(1, 4, "batch"), sim.between(1, 3, "batches")
    how = sim.pick(["hdf5", "hdf5", "chunked", "memory"], "dataset")
    acts = [sim.pick(["epoch", "abandon", "hold", "break", "rebuild"], "act") for _ in range(sim.between(1, 3, "script"))]
    mode = sim.pick(dl.MODES, "coincident")
    X = torch.arange(60.0).repeat(len(chans), 1)

    def make():
        if how == "memory":
            return InMemoryDataset(X, kernel, batch_size=batch, stride=1, batches_per_epoch=bpe if not mode else None, coincident=bool(mode), shuffle=True)
        ds = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, None)
        if how == "chunked":
            return ChunkedTimeSeriesDataset(ds, max(1, kernel // 2), batch, 2)
        return ds

    sim.log(how, acts, kernel, batch, bpe, mode)
    ds = make()
    held = []
    victim = files.paths[0]

    def once(i):
        nonlocal ds
        rngseam.seed_all(i)
        for a in acts:
            if a == "rebuild":
                ds = make()
            elif a == "epoch":
                for x in ds:
                    pass
            elif a == "abandon":
                for x in ds:
                    break
            elif a == "hold":       # the iterator outlives its use for a while
                held.append(iter(ds))
                next(held[-1], None)
                if len(held) > 2:
                    held.pop(0)
            elif how != "memory":   # a file vanishes under the reader
                os.rename(victim, victim + ".gone")
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        for x in ds:
                            pass
                except Exception:  # noqa: BLE001 - the point is what it leaves behind
                    sim.counters["fault:file-vanished"] = sim.counters.get("fault:file-vanished", 0) + 1
                finally:
                    os.rename(victim + ".gone", victim)
            x = None

    once(0)
    first = ops(lambda: once(0))
    n = repeat(sim, f"{how} {acts}", once)
    last = ops(lambda: once(0))
    sim.check(last <= 1.3 * first + 20, "M10:work", lambda: f"{how} {acts}: takes {last} tensor operations after {n} repetitions, {first} at first")
    sim.tags.add(how)


SCENARIOS = {"service": (service, 8), "loaders": (loaders, 1)}
