"""R04: random signal augmentations leave each series intact or transform it exactly."""
import torch

from .. import hist, rngseam

PROPERTY = "R04"
RULE = ("one evaluation = one simulated run (augmentation, probability, series, seeded extreme or ordinary outcomes of the random source, "
        "several calls); distinct = different history digest")
REAL = ["ml4gw.augmentations.SignalInverter, SignalReverser", "torch kernels and generators"]
STUB = ["the random source may be made to return its smallest, largest or mixed legal values"]
QUICK, THOROUGH = 6000, 250000


def aug(name, prob):
    import ml4gw.augmentations as A

    return getattr(A, name)(prob)


def transformed(name, x):
    return -x if name == "SignalInverter" else x.flip(-1)


def series(sim, g, shape, dtype):
    x = torch.randn(*shape, generator=g, dtype=torch.float64) if shape else torch.zeros(())
    if dtype in (torch.int64, torch.int32):
        x = (x * 100).round()
        x[x == 0] = 1
    x = x.to(dtype)
    if x.numel() and dtype.is_floating_point and sim.flip(0.2, "special values"):
        flat = x.view(-1)
        for v in (float("nan"), float("inf"), 0.0):
            flat[int(torch.randint(flat.numel(), (1,), generator=g))] = v
    return x


def same(a, b):
    eq = a == b
    if a.is_floating_point() or a.is_complex():
        eq = eq | (a.isnan() & b.isnan())
    return eq.all(-1)


def run(sim):
    name = sim.pick(["SignalInverter", "SignalReverser"], "augmentation")
    prob = sim.pick([0.5, 0.0, 1.0, 0.01, 0.99, 0, 1, 0.25], "prob")
    m = aug(name, prob)
    rngseam.seed_all(sim.data_seed())
    for _ in range(sim.between(1, 4, "calls")):
        nd = sim.between(0, 4, "leading dims")
        shape = tuple(sim.between(1, 5, "dim") for _ in range(nd)) + (sim.between(1, 20, "T"),)
        if sim.flip(0.05, "empty batch") and nd:
            shape = (0,) + shape[1:]
        dtype = sim.pick([torch.float32, torch.float64, torch.float16, torch.int64, torch.complex64, torch.bfloat16], "dtype")
        g = torch.Generator().manual_seed(sim.data_seed())
        x = series(sim, g, shape, dtype)
        if sim.flip(0.25, "layout") and nd:
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        elif sim.flip(0.2, "view of more"):
            x = torch.stack([x, x], dim=0)[1]
        if sim.flip(0.3, "eval"):
            m.eval()
        else:
            m.train()
        orig = x.clone()
        with hist.ambient(sim.pick(hist.MODES, "mode")), rngseam.Extremes(sim, p=0.7):
            y = m(x)
        sim.steps += 1
        what = f"{name}({prob}) on {tuple(shape)} {dtype}"
        sim.check(tuple(y.shape) == shape and y.dtype == dtype, "R04:shape", lambda: f"{what}: output {tuple(y.shape)} {y.dtype}")
        kept, done = same(y, orig), same(y, transformed(name, orig))
        sim.log(what, int(kept.sum()), int(done.sum()))
        sim.check(bool((kept | done).all()), "R04:altered", lambda: f"{what}: a series is neither itself nor its transform")
        if prob == 0:
            sim.check(bool(kept.all()), "R04:prob-0", lambda: f"{what}: {int((~kept).sum())} series transformed")
        if prob == 1:
            sim.check(bool(done.all()), "R04:prob-1", lambda: f"{what}: {int((~done).sum())} series not transformed")
    sim.tags.add(name)


def independent(sim):
    """Ordinary draws over many series: decided per series, at the requested rate."""
    name = sim.pick(["SignalInverter", "SignalReverser"], "augmentation")
    prob = sim.pick([0.5, 0.3, 0.7], "prob")
    rank = sim.between(1, 3, "leading dims")
    dims = {1: (400,), 2: (40, 30), 3: (20, 8, 12)}[rank]
    rngseam.seed_all(sim.data_seed())
    g = torch.Generator().manual_seed(sim.data_seed())
    m = aug(name, prob)
    hits = []
    for _ in range(2):
        x = torch.randn(*dims, 6, generator=g)
        orig = x.clone()
        y = m(x)
        done = same(y, transformed(name, orig))
        sim.check(bool((done | same(y, orig)).all()), "R04:altered", f"{name}({prob}): a series is neither itself nor its transform")
        hits.append(done)
        n = done.numel()
        rate = float(done.float().mean())
        # 7 standard deviations
        sim.check(abs(rate - prob) < 7 * (prob * (1 - prob) / n) ** 0.5, "R04:rate", lambda: f"{name}({prob}): {rate:.3f} of {n} series transformed")
        for ax in range(rank):
            # along every axis some line of series is mixed; otherwise the decision is shared. chance < 1e-20
            sim.check(bool((done.any(ax) & ~done.all(ax)).any()), "R04:shared-decision", lambda: f"{name}({prob}) {dims}: all series along axis {ax} share their fate")
    sim.check(not torch.equal(hits[0], hits[1]), "R04:repeated-decision", "two calls made the same decisions")
    sim.log(name, prob, rank, int(hits[0].sum()))
    sim.steps += 2


SCENARIOS = {"exact": (run, 6), "independent": (independent, 1)}
