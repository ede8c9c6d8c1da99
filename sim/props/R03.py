"""R03: randomly sampled windows satisfy their position constraints."""
import torch

from .. import rngseam

PROPERTY = "R03"
RULE = ("one evaluation = one simulated run (source tensor, window request, seeded extreme or ordinary outcomes of the random source); "
        "distinct = different history digest")
REAL = ["ml4gw.utils.slicing.sample_kernels, slice_kernels, unfold_windows", "torch kernels and generators"]
STUB = ["the random source may be made to return its smallest, largest or mixed legal values"]
QUICK, THOROUGH = 6000, 250000
ROW, CH = 64 * 256, 256


def source(sim, nd, T, C, B, dtype):
    t = torch.arange(T)
    x = t if nd == 1 else torch.arange(C).view(-1, 1) * CH + t if nd == 2 else (
        torch.arange(B).view(-1, 1, 1) * ROW + torch.arange(C).view(1, -1, 1) * CH + t)
    x = (x + 1).to(dtype)
    how = sim.choose(4, "layout")
    if how == 1 and nd > 1:
        x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
    elif how == 2:
        x = torch.stack([x, -x], dim=-1)[..., 0]
    elif how == 3:
        x = torch.cat([-x, x], dim=-1)[..., T:]
    return x


def decode(sim, w, nd, T, C, B, k, key):
    """Start of every window of w (N, [C,] k); checks contiguity and provenance."""
    w = w.double()
    first = w[..., :1]
    sim.check(bool((w == first + torch.arange(k)).all()), key + ":not-contiguous", lambda: f"window {w.reshape(-1, k)[0, :10].tolist()}")
    v = (first[..., 0] - 1).long()
    b, r = torch.div(v, ROW, rounding_mode="floor"), v % ROW
    c, t = torch.div(r, CH, rounding_mode="floor"), r % CH
    sim.check(bool(((v >= 0) & (t + k <= T)).all()), key + ":outside", lambda: f"starts {t.tolist()} window {k} source {T}")
    if nd > 1:
        sim.check(bool((c == torch.arange(C)).all()), key + ":wrong-channel", lambda: f"channels {c.tolist()}")
    if nd == 3:
        sim.check(bool((b == torch.arange(B).view(-1, 1)).all()), key + ":wrong-element", lambda: f"elements {b[:, 0].tolist()}")
    return t


def satisfiable(T, k, off):
    """Start range [lo, hi) the documentation allows, or None."""
    centre = T // 2
    if off is None:
        lo, hi = 0, T - k
    elif off >= 0:
        lo, hi = centre - off - k, centre
    else:
        lo, hi = centre - off - k, centre + off
    return (lo, hi)


def run(sim):
    from ml4gw.utils.slicing import sample_kernels

    rngseam.seed_all(sim.data_seed())
    nd = sim.pick([2, 3, 1], "dimensions")
    T, C, B = sim.between(2, 120, "T"), sim.between(1, 4, "C"), sim.between(1, 5, "B")
    dtype = sim.pick([torch.float32, torch.float64, torch.int64], "dtype")
    X = source(sim, nd, T, C, B, dtype)
    keep = X.clone()
    for _ in range(sim.between(1, 4, "requests")):
        k = sim.between(1, min(T, 30), "window") if not sim.flip(0.2, "long window") else sim.between(max(1, T // 2), T + 2, "window")
        off = None if sim.flip(0.35, "anywhere") else sim.between(0, 12, "offset") if sim.flip(0.5, "beyond centre") else -sim.between(1, 12, "margin") \
            if sim.flip(0.7, "margin?") else 0
        co = not sim.flip(0.4, "not coincident")
        ret = sim.flip(0.5, "return idx")
        bad = sim.choose(12, "bad request")
        N = sim.between(1, 6, "N") if nd < 3 else (None if sim.flip(0.5, "N none") else B)
        refuse = None
        x = X
        if bad == 1 and nd < 3:
            N, refuse = None, "no number of windows"
        elif bad == 2 and nd == 3:
            N, refuse = B + sim.pick([1, -1, 2], "N off"), "a number of windows other than the batch's"
            if N <= 0:
                N = B + 1
        elif bad == 3:
            x, refuse = X.reshape((1,) * (4 - nd) + tuple(X.shape)), "a 4-dimensional source"
        if k > T:
            refuse = refuse or "a window longer than the source"
        eff = None if nd == 1 else off
        lo, hi = satisfiable(T, k, eff)
        if refuse is None and (lo < 0 or hi < lo or (hi == lo and eff is not None)):
            refuse = f"unsatisfiable offset {off}"
        what = f"X{tuple(x.shape)} k={k} N={N} off={off} coincident={co}"
        with rngseam.Extremes(sim, p=0.7):
            try:
                out = sample_kernels(x, k, N, off, co, ret)
                err = None
            except Exception as e:  # noqa: BLE001 - refusals are expected
                err = e
        sim.log(what, type(err).__name__)
        sim.steps += 1
        if refuse:
            sim.check(err is not None, "R03:accepted", lambda: f"{what}: accepted {refuse}, returned {out}")
            sim.count("fault:rejected-request")
            continue
        if lo == hi:
            continue      # exactly one admissible window: torch refuses the empty range, upstream's choice
        if err is not None:
            sim.check(False, "R03:refused", f"{what}: {type(err).__name__}: {err}")
        sim.check(isinstance(out, tuple) == ret, "R03:idx-return", lambda: f"{what}: returned {type(out)} with return_idx={ret}")
        w, idx = out if ret else (out, None)
        n = B if nd == 3 else N
        shape = (n, k) if nd == 1 else (n, C, k)
        sim.check(tuple(w.shape) == shape and w.dtype == X.dtype, "R03:shape", lambda: f"{what}: {tuple(w.shape)} {w.dtype}, expected {shape}")
        t = decode(sim, w, nd, T, C, B, k, "R03")
        sim.log(t.flatten()[:6].tolist())
        centre = T // 2
        if eff is not None:
            left, right = t, t + k
            if eff >= 0:
                good = (right >= centre - eff) & (left <= centre)
            else:
                good = (centre - left >= -eff) & (right - centre >= -eff)
            sim.check(bool(good.all()), "R03:position", lambda: f"{what}: starts {t[~good].tolist()} around centre {centre}")
        if nd > 1 and (co or nd == 3):
            sim.check(bool((t == t[:, :1]).all()), "R03:not-coincident", lambda: f"{what}: starts {t.tolist()}")
        if idx is not None:
            want = t if nd == 1 else (t[:, 0] if (co or nd == 3) else t)
            sim.check(tuple(idx.shape) == tuple(want.shape) and bool((idx == want).all()), "R03:idx", lambda: f"{what}: reported {idx.tolist()}, windows start at {want.tolist()}")
        if sim.flip(0.3, "consumer writes"):
            w.zero_()
        sim.check(torch.equal(X, keep), "R03:source-changed", lambda: f"{what}: the source series was modified")


def spread(sim):
    """Ordinary draws, many windows: independent channels and elements really differ, positions spread out."""
    from ml4gw.utils.slicing import sample_kernels

    rngseam.seed_all(sim.data_seed())
    nd = sim.pick([2, 3, 1], "dimensions")
    T, C = 200 + sim.choose(40, "T"), sim.between(2, 3, "C")
    k = sim.between(4, 20, "window")
    off = sim.pick([None, 0, 20, None], "offset")
    if off == 0:
        k = sim.between(30, 40, "wide window")
    co = nd != 2 or sim.flip(0.5, "coincident")
    B = 40
    X = source(sim, nd, T, C, B, torch.float64)
    w, idx = sample_kernels(X, k, None if nd == 3 else B, off, co, True)
    t = decode(sim, w, nd, T, C, B, k, "R03")
    sim.log(nd, T, C, k, off, co, t.flatten()[:6].tolist())
    t = t if t.ndim == 2 else t[:, None]
    # chance of a false alarm: below 30**-39
    sim.check(len(set(t[:, 0].tolist())) > 1, "R03:tied", "every window of a batch starts at the same sample")
    if not co:
        for i in range(C):
            for j in range(i):
                sim.check(bool((t[:, j] != t[:, i]).any()), "R03:tied", lambda: f"independently sampled channels {j} and {i} always share their times")
    lo, hi = satisfiable(T, k, off if nd > 1 else None)
    # 40 draws all in one half of the range: 2**-39
    mid = (lo + hi) / 2
    sim.check(bool((t < mid).any()) and bool((t >= mid).any()), "R03:half", lambda: f"windows only in one half of [{lo}, {hi}): {sorted(t[:, 0].tolist())}")
    sim.steps += 1


SCENARIOS = {"requests": (run, 6), "spread": (spread, 1)}
