"""R01: every sample lies within the distribution's bounds and support."""
import math

import torch

from .. import hist, rngseam

PROPERTY = "R01"
RULE = ("one evaluation = one simulated run (a distribution, its configuration, several draws under seeded extreme or ordinary outcomes of "
        "the random source); distinct = different history digest")
REAL = ["ml4gw.distributions", "torch.distributions", "torch kernels and generators"]
STUB = ["the random source may be made to return its smallest, largest or mixed legal values"]
QUICK, THOROUGH = 16000, 300000
SHAPES = [(7,), (), (1,), (3, 2), (0,), (200,), (2, 1, 3)]


def number(sim, v):
    """A Python number or a 0-dim tensor, as callers pass either."""
    k = sim.choose(4, "number kind")
    if k == 2:
        return torch.tensor(v, dtype=torch.float32)
    if k == 3:
        return torch.tensor(v, dtype=torch.float64)
    return v


def frac(sim, label):
    """A fraction of [0, 1] with the edges likely."""
    return (0, 1000, 500, 1, 999)[sim.choose(5, label)] / 1000 if sim.flip(0.4, label + " edge?") else sim.choose(1001, label) / 1000


def interval(sim, a, b):
    if sim.flip(0.35, "one end of the range"):
        f = 0.01 + 0.98 * sim.choose(10001, "to") / 10000
        return (a + f * (b - a), b) if sim.flip(0.5, "upper end") else (a, a + f * (b - a))
    while True:
        x, y = sorted((a + (b - a) * frac(sim, "low"), a + (b - a) * frac(sim, "high")))
        if y - x > 1e-3 * (b - a):
            return x, y


def cosine(sim, D):
    default = sim.flip(0.2, "default bounds")
    lo, hi = (-math.pi / 2, math.pi / 2) if default else interval(sim, -math.pi / 2, math.pi / 2)
    d = D.Cosine() if default else D.Cosine(number(sim, lo), number(sim, hi))

    def ok(x):
        # distance past a bound that rounding of the sine can explain, allowing for its slope at +-pi/2
        return in_arc(x, lo, hi)
    return d, f"Cosine({lo}, {hi})", ok


def in_arc(x, lo, hi):
    x = x.double()
    over = torch.maximum(torch.clamp(x - hi, min=0), torch.clamp(lo - x, min=0))
    end = torch.where(x > hi, torch.tensor(hi, dtype=x.dtype), torch.tensor(lo, dtype=x.dtype))
    dsin = (torch.sin(x.clamp(-math.pi / 2, math.pi / 2)) - torch.sin(end)).abs()
    return (over <= 1e-6) | ((dsin <= 6e-7) & (over <= 2e-3))


def sine(sim, D):
    default = sim.flip(0.2, "default bounds")
    lo, hi = (0.0, math.pi) if default else interval(sim, 0.0, math.pi)
    d = D.Sine() if default else D.Sine(number(sim, lo), number(sim, hi))
    return d, f"Sine({lo}, {hi})", lambda x: in_arc(x.double() - math.pi / 2, lo - math.pi / 2, hi - math.pi / 2)


def within(lo, hi, rel):
    def ok(x):
        x = x.double()
        return (x >= lo - rel * abs(lo)) & ((x <= hi + rel * abs(hi)) if math.isfinite(hi) else torch.ones_like(x, dtype=torch.bool))
    return ok


def loguniform(sim, D):
    lo = sim.pick([0.1, 1.0, 1e-3, 5.0, 100.0, 1e-8], "low")
    hi = lo * sim.pick([10.0, 1.5, 1e3, 1.01, 1e8], "ratio")
    return D.LogUniform(number(sim, lo), number(sim, hi)), f"LogUniform({lo}, {hi})", within(lo, hi, 1e-4)


def lognormal(sim, D):
    mean, std = sim.pick([1.0, 6.0, 0.0, -2.0], "mean"), sim.pick([0.3, 1.0, 2.0], "std")
    low = sim.pick([None, 0, 0.0, 0.5, 3.0], "low bound")
    d = D.LogNormal(number(sim, mean), number(sim, std), low)

    return d, f"LogNormal({mean}, {std}, low={low})", lambda x: x.double() > 0, (lambda x: x.double() > low) if low else None


def powerlaw(sim, D):
    idx = sim.pick([-4, 2, -1, 1, -2, 3, -3, 0.5, -0.5, -1.5, -2.35, 5], "index")
    lo = sim.pick([4.0, 1.0, 10.0, 0.1, 12], "minimum")
    hi = lo * sim.pick([25, 2, 1.1, 100, 5], "ratio")
    if idx < -1 and sim.flip(0.15, "unbounded"):
        hi = float("inf")
    elif idx > -1 and sim.flip(0.1, "from zero"):
        lo = 0.0
    # the index-th root of a float32 difference: relative error grows near the far end of a steep law
    rel = 1e-5 if not math.isfinite(hi) or lo == 0 else 1e-5 + 3e-7 * (hi / lo) ** abs(idx + 1) / abs(idx + 1) if idx != -1 else 1e-5
    if rel > 0.05:
        hi = lo * 2
        rel = 1e-5 + 3e-7 * 2.0 ** abs(idx + 1) / abs(idx + 1)
    d = D.PowerLaw(number(sim, float(lo)), number(sim, float(hi)), idx)
    return d, f"PowerLaw({lo}, {hi}, {idx})", within(lo, hi, rel)


def delta(sim, D):
    v = sim.pick([0.0, 2.5, -3.0, 7, 1e10], "peak")
    return D.DeltaFunction(number(sim, v)), f"DeltaFunction({v})", lambda x: x.double() == torch.tensor(float(v)).float().double()


def comoving(sim, D):
    kind = sim.pick(["redshift", "comoving_distance", "luminosity_distance"], "distance type")
    zmax = sim.pick([5, 2, 10], "grid z max")
    grid = sim.pick([10000, 1000, 3000], "grid size")
    top = {"redshift": zmax, "comoving_distance": {2: 5000.0, 5: 7500.0, 10: 9000.0}[zmax], "luminosity_distance": {2: 15000.0, 5: 45000.0, 10: 100000.0}[zmax]}[kind]
    a, b = interval(sim, 0.0, 1.0)
    if b - a < 0.02:
        b = a + 0.02 if a < 0.97 else b
        a = min(a, b - 0.02)
    lo, hi = a * top, b * top
    h0, om = sim.pick([67.66, 70.0, 50.0], "h0"), sim.pick([0.30966, 0.27, 0.9], "omega_m")
    kw = dict(distance_type=kind, h0=h0, omega_m=om, z_grid_max=zmax, grid_size=grid)
    rate = sim.choose(3, "rate")
    args = (number(sim, lo), number(sim, hi))
    what = f"{'RateEvolution' if rate else 'UniformComovingVolume'}({lo}, {hi}, {kw})"
    try:
        if rate:
            f = (lambda z: 1 / (1 + z)) if rate == 1 else (lambda z: (1 + z) ** 2)
            d = D.RateEvolution(f, *args, **kw)
        else:
            d = D.UniformComovingVolume(*args, **kw)
    except ValueError:
        sim.count("refused-configuration")
        return None
    return d, what, within(lo, hi, 1e-4)


KINDS = [cosine, sine, loguniform, lognormal, powerlaw, delta, comoving]


def draw_dist(sim):
    import ml4gw.distributions as D

    while True:
        got = sim.pick(KINDS, "distribution")(sim, D)
        if got is not None:
            return got + (None,) if len(got) == 3 else got


def check(sim, x, shape, ok, what, lower):
    sim.check(torch.is_tensor(x) and tuple(x.shape) == tuple(shape), "R01:shape", lambda: f"{what}: sample of shape {shape} came with {getattr(x, 'shape', type(x))}")
    sim.check(bool(torch.isfinite(x).all()), "R01:not-finite", lambda: f"{what}: {x[~torch.isfinite(x)].flatten()[:4].tolist()}")
    m = ok(x)
    sim.check(bool(m.all()), "R01:out-of-bounds", lambda: f"{what}: drew {x[~m].flatten()[:4].double().tolist()}")
    if lower is not None:
        m = lower(x)
        sim.check(bool(m.all()), "R01:lognormal-low", lambda: f"{what}: drew {x[~m].flatten()[:4].double().tolist()}")


def run(sim):
    rngseam.seed_all(sim.data_seed())
    default = "f64" if sim.flip(0.1, "default precision") else "f32"
    mode = sim.pick(hist.MODES, "mode")
    with hist.ambient(mode, default):
        d, what, ok, lower = draw_dist(sim)
        sim.log(what, default, mode)
        for _ in range(sim.between(1, 4, "draws")):
            shape = sim.pick(SHAPES, "shape")
            how = sim.pick(["sample", "rsample"], "method")
            arg = shape if sim.flip(0.4, "plain tuple") else torch.Size(shape)
            with rngseam.Extremes(sim, p=0.7):
                if shape == () and sim.flip(0.5, "no shape"):
                    x = getattr(d, how)()
                else:
                    x = getattr(d, how)(arg)
            sim.log(how, shape, x.flatten()[:3].tolist())
            check(sim, x, shape, ok, what, lower)
            sim.steps += 1
    sim.tags.add(what.split("(")[0])


def priors(sim):
    """Many ordinary draws, as a prior is used in a data generation loop."""
    rngseam.seed_all(sim.data_seed())
    d, what, ok, lower = draw_dist(sim)
    n = 20000
    x = d.sample((n,))
    sim.log(what, x[:3].tolist())
    check(sim, x, (n,), ok, what, lower)
    sim.steps += 1
    sim.tags.add(what.split("(")[0])


SCENARIOS = {"extremes": (run, 6), "priors": (priors, 1)}
