"""R06: random choices follow the law they are documented to follow."""
import math

import numpy as np
import torch

from .. import dl, hist, rngseam
from .R01 import interval, number
from .R03 import decode, satisfiable, source

PROPERTY = "R06"
RULE = ("one evaluation = one simulated run (a random component, its configuration, thousands of draws under a seeded or an evenly spread random "
        "source) whose outcomes are counted and compared with the documented law; distinct = different history digest")
REAL = ["ml4gw.distributions", "ml4gw.utils.slicing.sample_kernels", "Hdf5TimeSeriesDataset, InMemoryDataset, ChunkedTimeSeriesDataset",
        "SignalInverter, SignalReverser", "WaveformSampler, SnrRescaler", "torch, numpy generators, h5py on real scratch files"]
STUB = ["in half of the runs on distributions uniform draws of the random source are an even grid in shuffled order", "chunk source"]
QUICK, THOROUGH = 1000, 60000
SIG = 8.0       # a correct component exceeds 8 standard errors with probability below 1e-14


def trap(y, x):
    return np.concatenate([[0.0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])


# -- distributions ----------------------------------------------------------
def cosine(sim, D):
    lo, hi = (-math.pi / 2, math.pi / 2) if sim.flip(0.3, "default") else interval(sim, -math.pi / 2, math.pi / 2)
    d = D.Cosine(number(sim, lo), number(sim, hi))
    return d, f"Cosine({lo}, {hi})", lambda x: (np.sin(x) - math.sin(lo)) / (math.sin(hi) - math.sin(lo)), 0


def sine(sim, D):
    lo, hi = (0.0, math.pi) if sim.flip(0.3, "default") else interval(sim, 0.0, math.pi)
    d = D.Sine(number(sim, lo), number(sim, hi))
    return d, f"Sine({lo}, {hi})", lambda x: (math.cos(lo) - np.cos(x)) / (math.cos(lo) - math.cos(hi)), 0


def loguniform(sim, D):
    lo = sim.pick([0.1, 1.0, 1e-3, 5.0, 100.0], "low")
    hi = lo * sim.pick([10.0, 1.5, 1e3, 1e6], "ratio")
    return D.LogUniform(number(sim, lo), number(sim, hi)), f"LogUniform({lo}, {hi})", lambda x: np.log(x / lo) / math.log(hi / lo), 0


def lognormal(sim, D):
    mean, std = sim.pick([1.0, 6.0, 0.0, -2.0], "mean"), sim.pick([0.3, 1.0, 2.0], "std")
    return (D.LogNormal(number(sim, mean), number(sim, std)), f"LogNormal({mean}, {std})",
            lambda x: torch.special.ndtr(torch.from_numpy((np.log(x) - mean) / std)).numpy(), 0)


def powerlaw(sim, D):
    idx = sim.pick([-4, 2, -1, 1, -2, 3, -3, 0.5, -0.5, -1.5, -2.35, 5], "index")
    lo = sim.pick([4.0, 1.0, 10.0, 0.1, 12], "minimum")
    hi = lo * sim.pick([25, 2, 1.1, 5], "ratio")
    if idx < -1 and sim.flip(0.15, "unbounded"):
        hi = float("inf")
    elif idx > -1 and sim.flip(0.1, "from zero"):
        lo = 0.0
    d = D.PowerLaw(number(sim, float(lo)), number(sim, float(hi)), idx)
    if idx == -1:
        return d, f"PowerLaw({lo}, {hi}, -1)", lambda x: np.log(x / lo) / math.log(hi / lo), 0
    p = idx + 1
    a, b = lo ** p, (hi ** p if math.isfinite(hi) else 0.0)
    return d, f"PowerLaw({lo}, {hi}, {idx})", lambda x: (x ** p - a) / (b - a), 0


def comoving(sim, D):
    kind = sim.pick(["redshift", "comoving_distance", "luminosity_distance"], "distance type")
    zmax, grid = sim.pick([5, 2, 10], "grid z max"), sim.pick([10000, 3000], "grid size")
    h0, om = sim.pick([67.66, 70.0, 50.0], "h0"), sim.pick([0.30966, 0.27, 0.9], "omega_m")
    rate = sim.choose(3, "rate")
    f = [lambda z: 1.0 + 0 * z, lambda z: 1 / (1 + z), lambda z: (1 + z) ** 2][rate]
    z = np.linspace(0, zmax, 40001)
    H = h0 * np.sqrt(om * (1 + z) ** 3 + 1 - om)
    dc = trap(299792.458 / H, z)
    dist = {"redshift": z, "comoving_distance": dc, "luminosity_distance": dc * (1 + z)}[kind]
    za, zb = interval(sim, 0.0, 0.98 * zmax)
    if zb - za < 0.05 * zmax:
        za, zb = max(0.0, za - 0.05 * zmax), min(0.98 * zmax, zb + 0.05 * zmax)
    lo, hi = float(np.interp(za, z, dist)), float(np.interp(zb, z, dist))
    kw = dict(distance_type=kind, h0=h0, omega_m=om, z_grid_max=zmax, grid_size=grid)
    args = (number(sim, lo), number(sim, hi))
    d = D.RateEvolution(f, *args, **kw) if rate else D.UniformComovingVolume(*args, **kw)
    C = trap(dc ** 2 / H * f(z), z)
    ca, cb = np.interp([lo, hi], dist, C)
    cells = (zb - za) / zmax * grid
    # the implementation's grid has this many cells in the range: the ends of the range may be off by one
    return (d, f"{'RateEvolution' if rate else 'UniformComovingVolume'}({lo}, {hi}, {kw}, rate {rate})",
            lambda x: (np.interp(x, dist, C) - ca) / (cb - ca), 8.0 / cells + 2e-3)


KINDS = [cosine, sine, loguniform, lognormal, powerlaw, comoving]


def draw_law(sim):
    import ml4gw.distributions as D

    return sim.pick(KINDS, "distribution")(sim, D)


def distance(x, cdf):
    """Largest gap between the empirical distribution of x and its law."""
    u = np.sort(cdf(np.sort(x.double().numpy().reshape(-1))))
    n = len(u)
    return float(max((np.arange(1, n + 1) / n - u).max(), (u - np.arange(n) / n).max()))


def dkw(n):
    return math.sqrt(math.log(2e12) / (2 * n))      # exceeded with probability 1e-12


def law(sim):
    rngseam.seed_all(sim.data_seed())
    mode = sim.pick(hist.MODES, "mode")
    with hist.ambient(mode):
        d, what, cdf, slack = draw_law(sim)
        n = 40000
        shape = sim.pick([(n,), (200, 200), (2, n // 2)], "shape")
        how = sim.pick(["sample", "rsample"], "method")
        even = sim.flip(0.5, "even grid")
        if even:
            with rngseam.Stratified() as st:
                x = getattr(d, how)(torch.Size(shape))
            sim.count("rng-even")
            even = st.sizes == [n]
        else:
            x = getattr(d, how)(torch.Size(shape))
    tol = (1e-3 if even else dkw(n)) + slack
    sim.log(what, shape, how, even, x.flatten()[:3].tolist())
    g = distance(x.detach(), cdf)
    sim.check(g <= tol, "R06:law", lambda: f"{what}: {n} draws{' of an even random source' if even else ''} are {g:.4f} away from the stated law (tolerance {tol:.4f})")
    if not even:
        y = cdf(x.detach().double().numpy().reshape(-1)) - 0.5
        uncorrelated(sim, y[1:], y[:-1], f"{what}: successive draws")
    sim.steps += 1
    sim.tags.add(what.split("(")[0])


def uncorrelated(sim, a, b, what, key="R06:dependent"):
    a, b = np.asarray(a, float).reshape(-1), np.asarray(b, float).reshape(-1)
    if a.std() == 0 or b.std() == 0:
        return
    r = float(np.mean((a - a.mean()) * (b - b.mean())) / (a.std() * b.std()))
    sim.check(abs(r) <= SIG / math.sqrt(len(a)), key, lambda: f"{what} are correlated: {r:.3f} over {len(a)} draws")


def pairwise(sim, a, what):
    """Columns of a (draws, channels) pairwise unrelated."""
    for i in range(a.shape[1]):
        for j in range(i):
            uncorrelated(sim, a[:, j], a[:, i], f"{what} {j} and {i}")


def proportions(sim, v, probs, what, key):
    """v: drawn categories; probs: their stated probabilities, each a value or an allowed range."""
    v = np.asarray(v).reshape(-1)
    n = len(v)
    got = np.bincount(v, minlength=len(probs))
    sim.check(len(got) == len(probs), key, lambda: f"{what}: outcome {v.max()} of {len(probs)} possible")
    for i, p in enumerate(probs):
        lo, hi = p if isinstance(p, tuple) else (p, p)
        slack = SIG * math.sqrt(max(hi * (1 - lo), 1.0 / n) / n)
        sim.check(lo - slack <= got[i] / n <= hi + slack, key, lambda: f"{what}: outcome {i} came {got[i]} times of {n}, its stated probability is {p}")


def starts(sim, t, lo, hi, what, key="R06:starts", n_min=8):
    """Window starts uniform on lo..hi-1; hi itself is left open."""
    m = hi - lo
    t = np.asarray(t).reshape(-1)
    sim.check(t.min() >= lo and t.max() <= hi, key, lambda: f"{what}: start {t.min()}..{t.max()} outside {lo}..{hi}")
    p = [(1 / (m + 1), 1 / m)] * m + [(0.0, 1 / (m + 1))]
    proportions(sim, t - lo, p, what + ": window starts", key)


def windows(sim):
    from ml4gw.utils.slicing import sample_kernels

    rngseam.seed_all(sim.data_seed())
    nd = sim.pick([2, 3, 1], "dimensions")
    k = sim.between(1, 8, "window")
    C = sim.between(1, 4, "C")
    off = sim.pick([None, 0, 3, -2], "offset") if nd > 1 else None
    if off == -2:
        k = sim.between(6, 8, "window")
    T = 2 * k + sim.between(8, 40, "extra") + (0 if off is None else 2 * abs(off))
    lo, hi = satisfiable(T, k, off)
    co = nd != 2 or sim.flip(0.5, "coincident")
    n = 6000 if nd == 3 else 12000
    B = 60 if nd == 3 else 1
    X = source(sim, nd, T, C, B, torch.float64)
    ts = []
    for _ in range(n // B if nd == 3 else 1):
        w = sample_kernels(X, k, None if nd == 3 else n, off, co)
        ts.append(decode(sim, w, nd, T, C, B, k, "R06"))
    t = torch.cat(ts).numpy()
    t = t[:, None] if t.ndim == 1 else t
    what = f"sample_kernels {nd}-D, {T} samples, window {k}, offset {off}, coincident {co}"
    sim.log(what, t[:4].tolist())
    if hi - lo < 1:
        return
    for c in range(t.shape[1]):
        starts(sim, t[:, c], lo, hi, what)
        uncorrelated(sim, t[1:, c], t[:-1, c], what + ": successive windows")
    if not co and C > 1:
        pairwise(sim, t, what + ": channels")
    sim.steps += 1
    sim.tags.add("sample_kernels")


# -- loaders -----------------------------------------------------------------
def files(sim):
    kernel = sim.between(1, 4, "kernel")
    fs = dl.Files(sim, kernel, max_files=4, max_extra=25)
    chans = fs.pick_channels()[:3]
    mode = sim.pick(dl.MODES, "coincident")
    nfpb = sim.pick([None, 1, len(fs)], "files per batch")
    n = 1500
    batch = sim.pick([30, 75], "batch") if nfpb != 1 else 4
    bpe = n // batch if nfpb != 1 else 300
    rngseam.seed_all(sim.data_seed())
    ds = dl.make_hdf5(sim, fs, kernel, batch, bpe, chans, mode, nfpb)
    rows = []
    for x in ds:
        rows += fs.check_batch(x, chans, batch, kernel, "R06")[: None if nfpb != 1 else 1]
    a = np.array(rows)      # (windows, channels, (file, time))
    what = f"file lengths {fs.lengths}, window {kernel}, coincident {mode}, {nfpb} files per batch, {len(chans)} channels"
    total = sum(fs.lengths)
    # in proportion to the samples in a file, or to the windows it holds
    wins = [L - kernel for L in fs.lengths]
    wins1 = [L - kernel + 1 for L in fs.lengths]
    opts = [[w / sum(ws) for w in ws] for ws in (fs.lengths, wins, wins1)]
    probs = [(min(o[i] for o in opts), max(o[i] for o in opts)) for i in range(len(fs))]
    for c in range(a.shape[1]):
        proportions(sim, a[:, c, 0], probs, what + ": files", "R06:files")
        for f in range(len(fs)):
            t = a[a[:, c, 0] == f, c, 1]
            if len(t) >= 150:
                starts(sim, t, 0, fs.lengths[f] - kernel, what + f": file {f}")
    if a.shape[1] > 1 and mode is not True:
        for f in range(len(fs)):
            for i in range(a.shape[1]):
                for j in range(i):
                    sel = (a[:, j, 0] == f) & (a[:, i, 0] == f)
                    if sel.sum() > 200:
                        uncorrelated(sim, a[sel, j, 1], a[sel, i, 1], f"{what}: windows of channels {j} and {i}")
        if mode is False and nfpb != 1:
            pairwise(sim, a[:, :, 0], what + ": files of channels")
    if nfpb != 1:
        uncorrelated(sim, a[1:, 0, 0], a[:-1, 0, 0], what + ": successive windows' files")
    sim.log(what, total, a[:3].tolist())
    sim.tags.add("Hdf5TimeSeriesDataset")


def chunks(sim):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    rngseam.seed_all(sim.data_seed())
    kernel = sim.between(1, 5, "kernel")
    N, C = sim.between(1, 5, "rows"), sim.between(1, 3, "channels")
    shapes = [(N if not i else sim.between(1, 5, "rows"), C if not i else sim.between(1, 3, "channels"), kernel + sim.between(2, 20, "extra"))
              for i in range(sim.between(1, 2, "chunks"))]
    co = sim.flip(0.5, "coincident")
    bpc = 8
    batch = 400
    src = dl.ChunkSource(sim, shapes)
    ds = ChunkedTimeSeriesDataset(src, kernel, batch, bpc, coincident=co)
    got = [[] for _ in shapes]
    for i, x in enumerate(ds):
        k = i // bpc
        got[k] += dl.check_chunk_batch(sim, x, k, shapes[k], batch, kernel, co, "R06")
    for k, (n, c, T) in enumerate(shapes):
        a = np.array(got[k])
        what = f"chunk {k} of {shapes}, window {kernel}, coincident {co}"
        for j in range(c):
            proportions(sim, a[:, j, 0], [1 / n] * n, what + ": rows", "R06:rows")
            starts(sim, a[:, j, 1], 0, T - kernel, what)
            uncorrelated(sim, a[:, j, 0], a[:, j, 1], what + ": row and start")
            uncorrelated(sim, a[1:, j, 1], a[:-1, j, 1], what + ": successive windows")
        if c > 1 and not co:
            pairwise(sim, a[:, :, 1], what + ": starts of channels")
            pairwise(sim, a[:, :, 0], what + ": rows of channels")
        sim.log(what, a[:2].tolist())
    sim.tags.add("ChunkedTimeSeriesDataset")


def memory(sim):
    from ml4gw.dataloading import InMemoryDataset

    rngseam.seed_all(sim.data_seed())
    kernel, stride = sim.between(1, 4, "kernel"), sim.between(1, 3, "stride")
    m = sim.between(2, 6, "windows")
    T = kernel + stride * (m - 1) + sim.choose(stride, "left over")
    C = sim.between(1, 3, "channels")
    co = not (C > 1 and sim.flip(0.6, "not coincident"))
    batch = sim.between(1, m, "batch")
    bpe = m // batch if (not co or sim.flip(0.5, "limit")) else None
    X = (torch.arange(C).view(-1, 1) * 100 + torch.arange(T)).float()
    ds = InMemoryDataset(X, kernel, batch_size=batch, stride=stride, batches_per_epoch=bpe, coincident=co, shuffle=True, device="cpu")
    n = 700
    first, rank = [], []
    for _ in range(n):
        seen = torch.cat(list(ds))
        t = (seen[:, :, 0] - torch.arange(C) * 100).long() // stride
        first.append(t[0].tolist())
        rank.append(t[-1].tolist())
    what = f"in memory, {m} windows of {kernel} every {stride}, batch {batch} x {bpe}, coincident {co}"
    for label, a in (("first", np.array(first)), ("last", np.array(rank))):
        for c in range(C):
            proportions(sim, a[:, c], [1 / m] * m, f"{what}: {label} window of an epoch", "R06:order")
        if C > 1 and not co:
            pairwise(sim, a, f"{what}: {label} windows of channels")
    uncorrelated(sim, np.array(first)[1:, 0], np.array(first)[:-1, 0], what + ": successive epochs")
    sim.log(what, first[:5])
    sim.steps += n
    sim.tags.add("InMemoryDataset")


# -- augmentations and samplers -----------------------------------------------
def augment(sim):
    from ml4gw.augmentations import SignalInverter, SignalReverser

    rngseam.seed_all(sim.data_seed())
    cls = sim.pick([SignalInverter, SignalReverser], "augmentation")
    default = sim.flip(0.15, "default probability")
    p = 0.5 if default else sim.choose(101, "probability") / 100
    aug = cls() if default else cls(p)
    shape = sim.pick([(8000,), (4000, 2), (1000, 4, 2)], "shape")
    x = torch.tensor([1.0, 2.0, 3.0]).expand(*shape, 3).clone()
    y = aug(x)
    ref = torch.tensor([1.0, 2.0, 3.0])
    hit = (y == (-ref if cls is SignalInverter else ref.flip(-1))).all(-1).reshape(shape).int().numpy()
    what = f"{cls.__name__}({p}) on {shape}"
    proportions(sim, hit, [1 - p, p], what, "R06:probability")
    flat = hit.reshape(-1)
    uncorrelated(sim, flat[1:], flat[:-1], what + ": neighbouring series")
    if len(shape) > 1:
        a = hit.reshape(shape[0], -1)
        uncorrelated(sim, a[1:, 0], a[:-1, 0], what + ": neighbouring elements")
        pairwise(sim, a, what + ": channels")
    sim.log(what, flat[:8].tolist())
    sim.steps += 1
    sim.tags.add(cls.__name__)


def bank(sim):
    from ml4gw.transforms import WaveformSampler

    rngseam.seed_all(sim.data_seed())
    n = sim.between(20, 60, "bank")
    ids = torch.arange(n).float()
    with_params = sim.flip(0.5, "parameters")
    s = WaveformSampler(parameters=ids[:, None].clone() if with_params else None, plus=ids[:, None] * torch.ones(4), cross=ids[:, None] * torch.ones(4))
    N = sim.between(2, n, "N")
    draws = []
    for _ in range(max(1, 9000 // N)):
        out = s(N)
        out = out[0] if with_params else out
        draws.append(out["plus"][:, 0].long())
    a = torch.stack(draws).numpy()
    what = f"bank of {n}, {N} at a time"
    proportions(sim, a, [1 / n] * n, what, "R06:bank")
    proportions(sim, np.r_[a[:, 0], a[:, -1]], [1 / n] * n, what + ": first and last of each draw", "R06:bank")
    flat = a.reshape(-1)
    # entries of one draw may or may not repeat, so neighbours are only roughly independent
    r = np.corrcoef(flat[1:], flat[:-1])[0, 1]
    sim.check(abs(r) < SIG / math.sqrt(len(flat)) + 1.0 / (n - 1), "R06:dependent", lambda: f"{what}: neighbouring draws are correlated: {r}")
    sim.log(what, a[0][:6].tolist())
    sim.steps += 1
    sim.tags.add("WaveformSampler")


def ratios(sim):
    from ml4gw.transforms import SnrRescaler

    rngseam.seed_all(sim.data_seed())
    B, C, sr = sim.between(2, 4, "batch"), sim.between(1, 2, "channels"), 64
    s = SnrRescaler(C, sr, 1.0, sim.pick([None, 4.0], "highpass"))
    g = torch.Generator().manual_seed(5)
    s.fit(*[0.5 + torch.rand(33, generator=g) for _ in range(C)])
    x = torch.randn(B, C, sr, generator=g) * torch.tensor([1.0, 2.0, 4.0, 8.0])[:B].view(-1, 1, 1)
    order, own = [], None
    for _ in range(900):
        _, t = s(x.clone())
        own = t.sort().values if own is None else own
        order.append([int((own - v).abs().argmin()) for v in t])
    a = np.array(order)
    what = f"SnrRescaler of {B} responses"
    for i in range(B):
        proportions(sim, a[:, i], [1 / B] * B, f"{what}: whose ratio response {i} gets", "R06:permutation")
    if B > 2:
        pairs = [(i, j) for i in range(B) for j in range(B) if i != j]
        sim.check(bool((np.sort(a, 1) == np.arange(B)).all()), "R06:permutation", lambda: f"{what}: not a rearrangement: {a[:4].tolist()}")
        first = [pairs.index((u, v)) for u, v in a[:, :2]]
        proportions(sim, first, [1 / len(pairs)] * len(pairs), f"{what}: whose ratios responses 0 and 1 get (of {pairs})", "R06:permutation")
    uncorrelated(sim, a[1:, 0], a[:-1, 0], what + ": successive permutations")
    sim.log(what, a[:4].tolist())
    sim.steps += 1
    sim.tags.add("SnrRescaler")


SCENARIOS = {"law": (law, 6), "windows": (windows, 3), "files": (files, 2), "chunks": (chunks, 2), "memory": (memory, 1), "augment": (augment, 3),
             "bank": (bank, 1), "ratios": (ratios, 1)}
