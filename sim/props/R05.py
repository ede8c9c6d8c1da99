"""R05: paired quantities stay paired through random sampling and rescaling."""
import torch

from .. import catalog as C
from .. import fit, hist, rngseam

PROPERTY = "R05"
RULE = ("one evaluation = one simulated run (bank or fitted rescaler, a history of draws under seeded extreme or ordinary outcomes of the random "
        "source, consumers that write into what they got); distinct = different history digest")
REAL = ["ml4gw.transforms.WaveformSampler, SnrRescaler", "ml4gw.gw.reweight_snrs, compute_network_snr", "torch kernels and generators"]
STUB = ["the random source may be made to return its smallest, largest or mixed legal values"]
QUICK, THOROUGH = 4000, 150000
POLS = ["plus", "cross", "x", "l"]


def bank(sim):
    from ml4gw.transforms import WaveformSampler

    rngseam.seed_all(sim.data_seed())
    n, T = sim.between(1, 12, "bank size"), sim.between(1, 8, "T")
    pols = [POLS[i] for i in range(sim.between(1, 3, "polarisations"))]
    npar = sim.choose(4, "parameters")      # 0: none
    waves = {p: (10000 * (j + 1) + torch.arange(n).view(-1, 1) * 100 + torch.arange(T)).float() for j, p in enumerate(pols)}
    pdtype = sim.pick([torch.float32, torch.float64], "parameter dtype")
    par = (torch.arange(n).view(-1, 1) + 1000 * torch.arange(npar)).to(pdtype) if npar else None
    what = f"bank n={n} pols={pols} params={npar}"
    sim.log(what)
    if sim.flip(0.15, "ragged bank") and (len(pols) > 1 or npar):
        broken = dict(waves)
        bp = par
        if len(pols) > 1 and (not npar or sim.flip(0.5, "which")):
            p = pols[1 + sim.choose(len(pols) - 1, "ragged")]
            broken[p] = torch.cat([waves[p], waves[p][:1]]) if sim.flip(0.5, "longer") or n == 1 else waves[p][:-1]
        else:
            bp = torch.cat([par, par[:1]]) if sim.flip(0.5, "longer") or n == 1 else par[:-1]
        try:
            WaveformSampler(bp, **broken)
            ok = True
        except ValueError:
            ok = False
            sim.count("fault:rejected-request")
        sim.check(not ok, "R05:ragged-bank", f"{what}: bank with unequal numbers of entries accepted")
    s = WaveformSampler(par, **{k: v.clone() for k, v in waves.items()})
    seen = set()
    for _ in range(sim.between(1, 6, "draws")):
        N = sim.pick([-1, sim.between(1, n, "N"), n, n + sim.between(1, 3, "excess"), 0], "request")
        with rngseam.Extremes(sim, p=0.5):
            try:
                out = s(N)
                err = None
            except Exception as e:  # noqa: BLE001
                err = e
        sim.steps += 1
        sim.log("draw", N, type(err).__name__)
        if N > n:
            sim.check(isinstance(err, ValueError), "R05:over-large", lambda: f"{what}: {N} waveforms requested, got {err or 'an answer'}")
            sim.count("fault:rejected-request")
            continue
        if err is not None:
            raise err
        sim.check(isinstance(out, tuple) == bool(npar), "R05:form", lambda: f"{what}: returned {type(out)}")
        w, p = out if npar else (out, None)
        m = n if N == -1 else N
        sim.check(sorted(w) == sorted(pols), "R05:polarisations", lambda: f"{what}: returned {sorted(w)}")
        ids = None
        for j, pol in enumerate(pols):
            v = w[pol]
            sim.check(tuple(v.shape) == (m, T), "R05:shape", lambda: f"{what}: draw {N}: {pol} {tuple(v.shape)}")
            if not m:
                continue
            e = torch.div(v[:, 0] - 10000 * (j + 1), 100, rounding_mode="floor").long()
            ok = (e >= 0) & (e < n)
            sim.check(bool(ok.all()) and torch.equal(v, waves[pol][e]), "R05:not-in-bank", lambda: f"{what}: draw {N}: {pol} holds no bank entry: {v[:2].tolist()}")
            sim.check(ids is None or torch.equal(ids, e), "R05:unpaired", lambda: f"{what}: polarisations from entries {ids.tolist()} and {e.tolist()}")
            ids = e
        if npar:
            sim.check(tuple(p.shape) == (m, npar) and p.dtype == pdtype, "R05:shape", lambda: f"{what}: parameters {tuple(p.shape)} {p.dtype}")
            if m:
                sim.check(torch.equal(p, par[ids]), "R05:unpaired", lambda: f"{what}: waveforms from {ids.tolist()}, parameters {p[:, 0].tolist()}")
        if N == -1:
            sim.check(torch.equal(ids, torch.arange(n)), "R05:order", lambda: f"{what}: drawing everything gave {ids.tolist()}")
        elif m:
            seen |= set(ids.tolist())
        if sim.flip(0.4, "consumer writes"):
            for v in w.values():
                v.neg_()
            if p is not None:
                p.zero_()
    sim.tags.add("WaveformSampler")


def my_snr(h, psd, fs, hi, lo):
    h, psd = h.double(), psd.double()
    n = h.shape[-1]
    f = torch.fft.rfft(h, dim=-1) / fs
    fr = torch.fft.rfftfreq(n, 1 / fs)
    p = f.abs() ** 2 / psd
    if hi is not None:
        p = p * (fr >= hi)
    if lo is not None:
        p = p * (fr < lo)
    return (4 * p.sum(-1) * fs / n).sum(-1).sqrt()


def check_scaled(sim, key, what, h, out, reported, psd, fs, hi, lo):
    sim.check(tuple(out.shape) == tuple(h.shape), key + ":shape", lambda: f"{what}: {tuple(out.shape)}")
    got = my_snr(out, psd, fs, hi, lo)
    bad = ~((got - reported.double()).abs() <= 2e-3 * reported.double().abs())
    sim.check(not bool(bad.any()), key + ":snr", lambda: f"{what}: responses have SNR {got[bad][:3].tolist()}, reported {reported[bad][:3].tolist()}")
    # positive multiple of its own input, one factor per response
    flat, ref = out.double().flatten(1), h.double().flatten(1)
    k = (flat * ref).sum(1) / (ref * ref).sum(1)
    sim.check(bool((k > 0).all()), key + ":sign", lambda: f"{what}: factors {k.tolist()}")
    err = (flat - k[:, None] * ref).abs().amax(1)
    sim.check(bool((err <= 1e-4 * flat.abs().amax(1)).all()), key + ":not-multiple", lambda: f"{what}: not a multiple of its own input, off by {err.tolist()}")


def rescale(sim):
    rngseam.seed_all(sim.data_seed())
    name = "SnrRescaler"
    cfg = C.draw_cfg(sim, name)
    obj = fit.fitted(name, cfg)
    obj.train() if sim.flip(0.5, "train") else obj.eval()
    fs = cfg["sample_rate"]
    T = cfg["sample_rate"] * cfg["waveform_duration"]
    for _ in range(sim.between(1, 4, "calls")):
        if sim.flip(0.15, "refit"):
            cfg = fit.refit_cfg(sim, name, cfg)
            cfg["data"] %= 40       # a dead or corrupted background has no SNR to speak of
            fit.fit(obj, name, cfg)
        B = sim.between(1, 6, "batch")
        g = C.gen(sim.data_seed())
        h = torch.randn(B, cfg["num_channels"], T, generator=g)
        h *= torch.logspace(-1, 1, B)[torch.randperm(B, generator=g)].view(-1, 1, 1) * sim.pick([1.0, 1e-3, 50.0], "scale")
        keep = h.clone()
        targets = None if sim.flip(0.5, "permute") else 4 + 30 * torch.rand(B, generator=g)
        what = f"{name} {cfg} B={B} targets={'none' if targets is None else 'given'}"
        sim.log(what)
        with hist.ambient(sim.pick(hist.MODES, "mode")), rngseam.Extremes(sim, p=0.6):
            out, rep = obj(h) if targets is None else obj(h, targets.clone())
        sim.steps += 1
        sim.check(torch.equal(h, keep), "R05:input-changed", lambda: f"{what}: responses were modified")
        sim.check(tuple(rep.shape) == (B,), "R05:shape", lambda: f"{what}: reported {tuple(rep.shape)}")
        check_scaled(sim, "R05", what, h, out, rep, obj.background, fs, cfg["highpass"], cfg["lowpass"])
        if targets is not None:
            sim.check(torch.allclose(rep, targets, rtol=1e-6), "R05:targets", lambda: f"{what}: reported {rep.tolist()}, requested {targets.tolist()}")
        else:
            own = my_snr(h, obj.background, fs, cfg["highpass"], cfg["lowpass"]).sort().values
            r = rep.double().sort().values
            sim.check(bool(((own - r).abs() <= 1e-3 * own).all()), "R05:not-permutation", lambda: f"{what}: reported {r.tolist()} is no rearrangement of {own.tolist()}")
    sim.tags.add(name)


def permutes(sim):
    """Ordinary draws: the SNRs really are reassigned, and differently each time."""
    rngseam.seed_all(sim.data_seed())
    cfg = C.draw_cfg(sim, "SnrRescaler")
    obj = fit.fitted("SnrRescaler", cfg)
    T = cfg["sample_rate"] * cfg["waveform_duration"]
    h = torch.randn(40, cfg["num_channels"], T, generator=C.gen(sim.data_seed())) * torch.logspace(-1, 1, 40).view(-1, 1, 1)
    a, b = obj(h)[1], obj(h)[1]
    sim.log(a[:4].tolist(), b[:4].tolist())
    own = my_snr(h, obj.background, cfg["sample_rate"], cfg["highpass"], cfg["lowpass"])
    sim.check(not torch.equal(a, b), "R05:same-permutation", "two calls rearranged the SNRs identically")      # chance 1/40!
    sim.check(not torch.allclose(a.double(), own, rtol=1e-4), "R05:not-rearranged", "the SNRs were left in place")
    sim.steps += 2


def reweight(sim):
    from ml4gw import gw

    g = C.gen(sim.data_seed())
    for _ in range(sim.between(1, 3, "calls")):
        fs, n = sim.pick([32, 64, 100], "rate"), sim.pick([64, 100, 65], "n")
        B, ch = sim.between(1, 6, "batch"), sim.between(1, 3, "channels")
        h = torch.randn(B, ch, n, generator=g) * torch.logspace(-2, 1, B).view(-1, 1, 1)
        per = sim.flip(0.4, "psd per response")
        psd = 0.2 + torch.rand(*((B,) if per else ()), ch, n // 2 + 1, generator=g)
        if sim.flip(0.3, "strain scale"):
            h, psd = h * 1e-12, psd * 1e-24
        hi, lo = sim.pick([None, 4, 7.5], "highpass"), sim.pick([None, 12, 14.0], "lowpass")
        fr = torch.fft.rfftfreq(n, 1 / fs)
        mask = sim.flip(0.3, "precomputed masks")
        target = 4 + 20 * torch.rand(B, generator=g) if sim.flip(0.7, "tensor target") else sim.pick([8.0, 1.0, 100.0], "target")
        if not torch.is_tensor(target):
            sim.count("scalar-target")
        a = {"highpass": (fr >= hi) if mask and hi is not None else hi, "lowpass": (fr < lo) if mask and lo is not None else lo}
        keep = h.clone()
        what = f"reweight_snrs n={n} fs={fs} B={B} ch={ch} per={per} hi={hi} lo={lo} mask={mask}"
        sim.log(what)
        out = gw.reweight_snrs(h, target, psd, fs, **a)
        sim.steps += 1
        sim.check(torch.equal(h, keep), "R05:input-changed", lambda: f"{what}: responses were modified")
        rep = target if torch.is_tensor(target) else torch.full((B,), float(target))
        check_scaled(sim, "R05", what, h, out, rep, psd, fs, hi, lo)
    sim.tags.add("reweight_snrs")


SCENARIOS = {"bank": (bank, 3), "rescale": (rescale, 3), "permutes": (permutes, 1), "reweight": (reweight, 2)}
