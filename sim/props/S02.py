"""S02: streamed averages equal the offline overlap-average."""
import torch

from .. import stream

PROPERTY = "S02"
RULE = "one evaluation = one simulated prediction stream fed batch by batch; distinct = different history digest"
REAL = ["ml4gw.nn.streaming.OnlineAverager", "ml4gw.utils.slicing.unfold_windows"]
STUB = ["prediction source and transport"]
QUICK, THOROUGH = 6000, 120000


def feed(sim):
    c = stream.AvgConf(sim, wide=True)
    batches = [sim.between(1, 6, "batch size") for _ in range(sim.between(1, 3, "instances"))]
    insts = [c.build(b) for b in batches]
    double = sim.flip(0.2, "double")
    if double:
        insts = [i.double() for i in insts]
    plan = [sim.choose(len(insts), "instance") for _ in range(sim.between(1, 8, "updates"))]
    total = sum(batches[i] for i in plan)
    P = stream.ints(sim.data_seed(), total, c.channels, c.K, hi=50) * c.num
    if sim.flip(0.3, "arbitrary values"):
        P = P * 0.1234567 + torch.randn(P.shape, generator=torch.Generator().manual_seed(sim.data_seed()))
    if double:
        P = P.double()
    stream.spoil(sim, P)
    sim.log(str(c), batches, plan)
    state = None
    if sim.flip(0.5, "explicit initial state"):
        state = insts[plan[0]].get_initial_state().to(P.dtype)
        sim.check(tuple(state.shape) == (c.channels, c.state_size) and not bool(state.any()), "S02:initial-state",
                  lambda: f"initial state {tuple(state.shape)} is not zeros of {(c.channels, c.state_size)}")
    n = 0
    for k, i in enumerate(plan):
        b = batches[i]
        upd = P[n:n + b]
        how = sim.choose(4, "transport")
        if how == 1:
            upd = upd.clone()
        elif how == 2:
            upd = stream.roundtrip(upd.clone())
        elif how == 3:
            upd = upd.permute(2, 0, 1).contiguous().permute(1, 2, 0)
        if k and plan[k - 1] != i:
            sim.count("fault:handover-batch-size")
        if state is not None:
            how = sim.choose(4, "state transport")
            if how == 1:
                state = stream.roundtrip(state)
                sim.count("fault:restart-from-durable-state")
            elif how == 2:
                state = state.t().contiguous().t()
            elif how == 3:
                insts[i] = c.build(b).double() if double else c.build(b)
        out, state = insts[i](upd, state)
        want = torch.cat([c.block(P, m) for m in range(n, n + b)], -1)
        sim.check(out.shape == want.shape, "S02:shape", lambda: f"output {tuple(out.shape)}, expected {tuple(want.shape)}")
        sim.check(stream.close(out.double(), want), "S02:average",
                  lambda: f"update {k} (steps {n}..{n + b - 1}) differs from the offline average by up to "
                          f"{(out.double() - want).abs().max():.4g}; {c}, batch {b}")
        n += b
        ws = c.state(P, n)
        sim.check(state.shape == ws.shape, "S02:state-shape", lambda: f"state {tuple(state.shape)}, expected {tuple(ws.shape)}")
        sim.check(stream.close(state.double(), ws), "S02:state",
                  lambda: f"state after update {k} is not the partial sums of the coming steps; {c}, batch {b}")
        sim.steps += 1
    sim.log("steps", n)


SCENARIOS = {"feed": (feed, 1)}
