"""S01: streamed snapshots equal offline windowing of the whole stream."""
import torch

from .. import stream

PROPERTY = "S01"
RULE = "one evaluation = one simulated stream fed update by update; distinct = different history digest"
REAL = ["ml4gw.nn.streaming.Snapshotter", "ml4gw.utils.slicing.unfold_windows"]
STUB = ["stream source and transport"]
QUICK, THOROUGH = 6000, 120000


def feed(sim):
    c = stream.SnapConf(sim, wide=True)
    batches = [sim.pick([33, 50], "large batch") if sim.flip(0.02, "large") else sim.between(1, c.max_batch, "batch size") for _ in range(sim.between(1, 3, "instances"))]
    insts = [c.build(b) for b in batches]
    plan = [sim.choose(len(insts), "instance") for _ in range(sim.between(1, 8, "updates"))]
    total = sum(batches[i] for i in plan)
    X = stream.ints(sim.data_seed(), c.channels, total * c.stride)
    kind = sim.choose(8, "dtype")
    if kind in (1, 2):
        # needs every bit of double precision
        X = X.double() * 2.0**33 + stream.ints(sim.data_seed(), *X.shape) + 0.25
    elif kind == 3:
        X = (X / 4).round().half()
    elif kind == 4:
        X = X.long() + 2**22
    if X.is_floating_point():
        stream.spoil(sim, X)
    sim.log(str(c), batches, plan)
    full = c.prefixed(X if X.dtype == torch.float64 else X.float())
    state = None
    if sim.flip(0.5, "explicit initial state"):
        state = insts[plan[0]].get_initial_state()
        sim.check(stream.same(state, torch.zeros(c.channels, c.state_size)), "S01:initial-state",
                  lambda: f"initial state {tuple(state.shape)} is not zeros of {(c.channels, c.state_size)}")
    n = 0
    for k, i in enumerate(plan):
        b = batches[i]
        upd = X[:, n * c.stride:(n + b) * c.stride]
        how = sim.choose(4, "transport")
        if how == 1:
            upd = upd.clone()
        elif how == 2:
            upd = stream.roundtrip(upd.clone())
        elif how == 3:
            upd = upd.t().contiguous().t()
        if k and plan[k - 1] != i:
            sim.count("fault:handover-batch-size")
        if state is not None:
            how = sim.choose(4, "state transport")
            if how == 1:
                state = stream.roundtrip(state)
                sim.count("fault:restart-from-durable-state")
                if sim.flip(0.5, "new instance"):
                    insts[i] = c.build(b)
            elif how == 2:
                state = state.t().contiguous().t()
            elif how == 3:
                insts[i] = c.build(b)
        *outs, state = insts[i](upd, state)
        want, wstate = c.expect(full, n, b)
        sim.check(len(outs) == len(want), "S01:splits", lambda: f"{len(outs)} outputs, expected {len(want)}")
        for j, (o, w) in enumerate(zip(outs, want, strict=True)):
            sim.check(o.shape == w.shape, "S01:shape", lambda o=o, w=w: f"snapshots {tuple(o.shape)}, expected {tuple(w.shape)}")
            sim.check(stream.same(o.to(w.dtype), w), "S01:window",
                      lambda j=j: f"update {k} (windows {n}..{n + b - 1}), output {j} differs from the offline windows; {c}, batch {b}")
        if not (state.dtype == wstate.dtype):
            wstate = wstate.to(state.dtype)
        sim.check(stream.same(state, wstate), "S01:state",
                  lambda: f"state after update {k} is not the most recent {c.state_size} samples; {c}, batch {b}")
        n += b
        sim.steps += 1
    sim.log("windows", n)


def refuse(sim):
    """Configurations that cannot be served are refused, not mis-served."""
    from ml4gw.nn.streaming import Snapshotter

    ch = sim.between(1, 4, "channels")
    size = sim.between(1, 10, "size")
    kind = sim.choose(2, "kind")
    if kind == 0:
        args = (ch, size, size + sim.choose(3, "extra"), sim.between(1, 3, "batch"))
    else:
        parts = stream.composition(sim, ch)
        parts[sim.choose(len(parts), "part")] += sim.between(1, 2, "off")
        args = (ch, size + 1, 1, 1, parts)
    sim.log("refuse", args)
    try:
        Snapshotter(*args)
    except ValueError:
        sim.count("fault:refused-config")
        return
    sim.check(False, "S01:accepted", f"configuration {args} accepted")


SCENARIOS = {"feed": (feed, 19), "refuse": (refuse, 1)}
