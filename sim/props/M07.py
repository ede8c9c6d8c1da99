"""M07: calls leave their inputs and the component's parameters untouched."""
import sys

import torch

from .. import catalog as C
from .. import env, faults, hist

PROPERTY = "M07"
RULE = ("one evaluation = one seeded history of calls (good, rejected, failing on allocation) with arguments in varied memory layouts; after "
        "every call all arguments, surrounding buffers, containers, parameters and earlier results are compared with snapshots; distinct = "
        "different history digest")
REAL = ["every component of sim/catalog.py except the in-place augmentations", "InMemoryDataset, ChunkedTimeSeriesDataset"]
STUB = ["none (allocator failures come from a torch dispatch mode)"]
QUICK, THOROUGH = 4000, 120000


class CtorWatch:
    """Remembers the tensors and containers passed to the first constructor in ml4gw."""

    def __init__(self):
        self.seen = None

    def __enter__(self):
        def prof(frame, event, arg):
            if event == "call" and self.seen is None and frame.f_code.co_name == "__init__" and frame.f_code.co_filename.startswith(env.PKG):
                n = frame.f_code
                k = n.co_argcount + n.co_kwonlyargcount + bool(n.co_flags & 4) + bool(n.co_flags & 8)
                names = n.co_varnames[1:k]
                got = {v: frame.f_locals[v] for v in names if v in frame.f_locals}
                if n.co_flags & 8 and names[-1] in got:    # the **kwargs dict itself belongs to the callee
                    got.update({"**" + kk: v for kk, v in got.pop(names[-1]).items()})
                self.seen = {v: x for v, x in got.items() if isinstance(x, (list, tuple, dict, torch.Tensor))}
                self.copy = C.clone(self.seen)
        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)

    def changed(self):
        if not self.seen:
            return None
        return C.diff(self.seen, self.copy, 0.0)


def layout(sim, t):
    """The same values in another memory layout; returns (tensor, base to watch)."""
    if not isinstance(t, torch.Tensor) or t.ndim == 0 or t.numel() == 0:
        return t, t
    how = sim.choose(5, "layout")
    if how == 1:
        base = torch.zeros(*t.shape[:-1], t.shape[-1] + 6, dtype=t.dtype) + 7
        base[..., 3:-3] = t
        return base[..., 3:-3], base
    if how == 2:
        u = t.transpose(0, -1).contiguous().transpose(0, -1)
        return u, u
    if how == 3 and t.shape[0] > 1:
        one = t[:1].clone()
        return one.expand(t.shape), one       # companions share memory
    if how == 4:
        u = t.flip(-1).contiguous().flip(-1)
        return u, u
    return t, t


class State:
    """Everything the component owns."""

    def __init__(self, obj):
        self.obj = obj
        if isinstance(obj, torch.nn.Module):
            self.own = dict(obj.named_parameters(remove_duplicate=False))
            self.own.update(dict(obj.named_buffers(remove_duplicate=False)))
            self.copy = C.clone(self.own)
            self.training = [m.training for m in obj.modules()]
            self.keys = list(obj.state_dict())
        else:
            self.own = None

    def changed(self):
        if self.own is None:
            return None
        now = dict(self.obj.named_parameters(remove_duplicate=False))
        now.update(dict(self.obj.named_buffers(remove_duplicate=False)))
        if list(self.obj.state_dict()) != self.keys:
            return f"state keys {list(self.obj.state_dict())} were {self.keys}"
        if [m.training for m in self.obj.modules()] != self.training:
            return "training mode changed"
        for k, v in self.copy.items():
            if k not in now:
                return f"{k} disappeared"
            d = C.diff(now[k], v, 0.0)
            if d:
                return f"{k}: {d}"
        return None


def history(sim, pred=lambda c: not c.inplace):
    name = sim.pick(C.names(pred), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    with CtorWatch() as w:
        obj = C.build(name, cfg)
    d = w.changed()
    sim.check(d is None, "M07:ctor-args", lambda: f"constructing {name} {cfg} modified its arguments: {d}")
    st = State(obj)
    sim.log(name, cfg)
    earlier = []
    spec = None
    for step in range(sim.between(1, 5, "calls")):
        spec = C.draw_spec(sim, name, cfg) if spec is None or sim.flip(0.3, "new options") else C.near_spec(sim, name, cfg, spec)
        bad = (sim.choose(4, "bad arg"), sim.pick(hist.BAD, "how bad")) if sim.flip(0.12, "bad call") else None
        call = hist.Call(name, cfg, spec, sim.data_seed(), sim.between(1, 3, "batch"), sim.pick(hist.MODES, "mode"), bad=bad,
                         call_seed=sim.data_seed())
        raw = call.args()
        a, bases = {}, {}
        for k, v in raw.items():
            a[k], bases[k] = layout(sim, v)
        if sim.flip(0.1, "leaf"):
            # in-place arithmetic on a leaf that needs gradients would raise
            for k, v in a.items():
                if isinstance(v, torch.Tensor) and v.is_floating_point() and v is bases[k]:
                    v.requires_grad_(True)
        before = C.clone([a, bases])
        lists = {k: list(v) for k, v in a.items() if isinstance(v, list)}
        f = faults.draw(sim) if sim.flip(0.3, "alloc fault") else None
        got = hist.attempt(call, obj, a, f)
        if f is not None and f.fired:
            sim.fault(f.kind, f.fired)
        if got[0] == "err" and (f is None or not f.fired):
            sim.count("fault:rejected-call" if bad else "fault:refused-layout")
        sim.log(step, call, got[0])
        d = C.diff([a, bases], before, 0.0)
        sim.check(d is None, "M07:args", lambda: f"{call} ({got[0]}) modified its arguments: {d}")
        for k, v in lists.items():
            sim.check(a[k] == v, "M07:args", lambda: f"{call} modified the list passed as {k}")
        d = st.changed()
        sim.check(d is None, "M07:parameters", lambda: f"{call} ({got[0]}) modified the component: {d}")
        d = w.changed()
        sim.check(d is None, "M07:ctor-args", lambda: f"{call} modified the containers {name} was constructed with: {d}")
        for j, r, copy in earlier:
            d = C.diff(r, copy, 0.0)
            sim.check(d is None, "M07:earlier-result", lambda: f"{call} ({got[0]}) changed the result of call {j}: {d}")
        if got[0] == "ok":
            earlier.append((step, got[1], C.clone(got[1])))
            if sim.flip(0.3, "consumer overwrites result"):
                # the caller owns the result: writing to it must reach neither the component nor other results
                mine = {x.untyped_storage().data_ptr() for _, x in C.leaves([a, bases])}
                own = [t for _, t in C.leaves(got[1]) if t.untyped_storage().data_ptr() not in mine]
                earlier.pop()
                with torch.inference_mode():
                    for t in own:
                        try:
                            t.zero_()
                        except RuntimeError:
                            pass
                sim.count("fault:consumer-overwrites-result")
                d = st.changed()
                sim.check(d is None, "M07:result-aliases-parameters", lambda: f"writing to the result of {call} changed the component: {d}")
                for j, r, copy in earlier:
                    d = C.diff(r, copy, 0.0)
                    sim.check(d is None, "M07:results-alias", lambda: f"writing to the result of {call} changed the result of call {j}: {d}")
        sim.steps += 1
    sim.tags.add(name)


def loaders(sim):
    """In-memory and chunked loaders neither modify nor expose the caller's data to change."""
    from ml4gw.dataloading import ChunkedTimeSeriesDataset, InMemoryDataset

    g = C.gen(sim.data_seed())
    ch, n = sim.between(1, 3, "channels"), sim.between(60, 120, "length")
    k, bs = sim.between(2, 8, "kernel"), sim.between(1, 5, "batch")
    held = []

    def keep(x):
        held.append((x, C.clone(x)))
        for j, (a, b) in enumerate(held):
            sim.check(C.diff(a, b, 0.0) is None, "M07:earlier-batch", lambda: f"batch {len(held)} changed batch {j}")
        if sim.flip(0.3, "consumer overwrites batch"):
            # augmentations work in place: neither the source nor other batches may notice
            for _, t in C.leaves(x):
                t.mul_(-1)
            sim.count("fault:consumer-overwrites-result")
            held.pop()
            for j, (a, b) in enumerate(held):
                sim.check(C.diff(a, b, 0.0) is None, "M07:earlier-batch", lambda: f"writing to a batch changed batch {j}")

    if sim.flip(0.5, "which"):
        X, y = C.randn(g, ch, n), (C.randn(g, n) if sim.flip(0.5, "targets") else None)
        copies = C.clone([X, y])
        co = y is not None or sim.flip(0.5, "coincident")
        ds = InMemoryDataset(X, k, y, bs, sim.between(1, 3, "stride"), batches_per_epoch=sim.pick([None, 2], "limit") if co else 2,
                             coincident=co, shuffle=sim.flip(0.5, "shuffle"))
        for epoch in range(2):
            for i, b in enumerate(ds):
                keep(b)
                if i > 6:
                    break
        sim.check(C.diff([X, y], copies, 0.0) is None, "M07:loader-data", "InMemoryDataset modified its data")
    else:
        rows = sim.between(1, 3, "rows")
        chunks = [C.randn(g, rows, ch, n) for _ in range(sim.between(1, 3, "chunks"))]
        copies = C.clone(chunks)
        ds = ChunkedTimeSeriesDataset(chunks, k, bs, sim.between(1, 4, "batches"), coincident=sim.flip(0.5, "coincident"))
        for b in ds:
            keep(b)
        sim.check(C.diff(chunks, copies, 0.0) is None, "M07:loader-data", "ChunkedTimeSeriesDataset modified its chunks")
    sim.log("loader", ch, n, k, bs)


SCENARIOS = {"history": (history, 7), "loaders": (loaders, 1)}
