"""The components of ml4gw as the deployment simulators see them.

A component is described by the options of its construction and of its calls
(so that a history can move between neighbouring configurations one field at
a time), how to build and, where needed, fit it, how to make a call's
arguments and how to make the call. Everything is a deterministic function of
(configuration, call options, data seed), so any process can rebuild it.
"""
import torch

REG = {}


# also called with double precision data (the others have a dtype option of
# their own, or weights that fix it)
PREC = {"FnSpectralDensity", "Median", "FnWhiten", "TruncateInverse", "NormalizeByPsd", "SnrRescaler", "SnrRescalerPermute", "QTile",
        "SingleQTransform", "QTransformSteps", "QScan", "MultiResolutionSpectrogram", "Decimator",
        "Heterodyne", "LeakyIntegrator", "ShiftedPearsonCorrelation", "FnSnr", "ReweightSnrs", "UnfoldWindows", "SliceKernels",
        "SliceKernels2D", "SampleKernels", "SignalInverter", "SignalReverser"}


def double(v):
    if isinstance(v, torch.Tensor):
        return v.double() if v.dtype == torch.float32 else v.to(torch.complex128) if v.dtype == torch.complex64 else v
    if isinstance(v, (list, tuple)):
        return type(v)(double(x) for x in v)
    if isinstance(v, dict):
        return {k: double(x) for k, x in v.items()}
    return v


def comp(cls):
    inst = cls()
    inst.name = cls.__name__
    if inst.name in PREC:
        assert "prec" not in inst.spec and "dtype" not in inst.spec
        inst.spec = {**inst.spec, "prec": ["f32", "f32", "f64"]}
        base = inst.args

        def args(cfg, spec, g, B):
            a = base(cfg, spec, g, B)
            return {k: double(v) for k, v in a.items()} if spec["prec"] == "f64" else a
        inst.args = args
    REG[cls.__name__] = inst
    return cls


def gen(seed):
    return torch.Generator().manual_seed(int(seed))


def randn(g, *shape, dtype=torch.float32):
    return torch.randn(*shape, generator=g, dtype=torch.float64).to(dtype)


def unif(g, n, lo, hi, dtype=torch.float64):
    n = n if isinstance(n, tuple) else (n,)
    return (lo + (hi - lo) * torch.rand(*n, generator=g, dtype=torch.float64)).to(dtype)


DT = {"f32": torch.float32, "f64": torch.float64}


class Comp:
    cfg = {}          # construction option -> values
    spec = {}         # call option -> values
    batched = ()      # argument names with a leading request dimension
    outdim = 0        # where requests sit in the outputs
    rng = False       # draws from the global generators
    inplace = False   # documented to work in place on its input
    fit_needed = False
    net = False
    threads = True
    poison_ok = True
    weight = 2
    floor = 0.0       # outputs below this are rounding

    def valid(self, cfg):
        return True

    def ok_spec(self, cfg, spec):
        return True

    def make(self, cfg):
        raise NotImplementedError

    def prep(self, obj, cfg):
        pass

    def args(self, cfg, spec, g, B):
        raise NotImplementedError

    def call(self, obj, a):
        return obj(**a)

    def tol(self, cfg, spec):
        return 1e-4

    def poison(self, sim, cfg, row):
        """Spoil one request's data in place (arguments with B=1)."""
        for k in self.batched:
            t = row[k]
            if t.is_floating_point() and t.numel() > 1 or len(self.batched) == 1:
                v = sim.pick([float("nan"), float("inf"), float("-inf"), 0.0, 1e30], "poison value")
                how = sim.choose(3, "poison extent")
                flat = t.view(-1) if t.is_contiguous() else t.reshape(-1)
                if how == 0:
                    t.fill_(v)
                elif how == 1 and flat.numel():
                    flat[sim.choose(flat.numel(), "where")] = v
                else:
                    t.mul_(v if v == v else 0).add_(v if v != v else 0)


def build(name, cfg):
    """Construct (and fit) an instance; weights depend only on the configuration."""
    c = REG[name]
    st = torch.get_rng_state()
    torch.manual_seed(int(cfg.get("weights", 0)) + 12345)
    try:
        obj = c.make(cfg)
        c.prep(obj, cfg)
    finally:
        torch.set_rng_state(st)
    if isinstance(obj, torch.nn.Module):
        obj.eval()
    return obj


# ---------------------------------------------------------------- spectral
@comp
class SpectralDensity(Comp):
    cfg = {"sample_rate": [32, 64, 16], "fftlength": [1, 0.5], "overlap": [None, 0.25, 0.125], "average": ["mean", "median"],
           "fast": [False, True], "window": [None, "boxcar"]}
    spec = {"n": [128, 200, 96], "ch": [2, 1, 3], "nd": [3, 2, 1], "cross": [0, 1, 2], "dtype": ["f32", "f64"]}
    batched = ("x",)
    weight = 4

    def make(self, cfg):
        from ml4gw.transforms import SpectralDensity as S
        kw = {k: cfg[k] for k in ("sample_rate", "fftlength", "overlap", "average", "fast")}
        if cfg["window"]:
            kw["window"] = torch.linspace(0.5, 1, int(cfg["fftlength"] * cfg["sample_rate"]), dtype=torch.float64)
        return S(**kw)

    def args(self, cfg, spec, g, B):
        dt = DT[spec["dtype"]]
        shape = {3: (B, spec["ch"], spec["n"]), 2: (B, spec["n"]), 1: (B, 1, spec["n"])}[spec["nd"]]
        a = {"x": randn(g, *shape, dtype=dt)}
        if cfg["fast"] and spec["cross"] and spec["nd"] != 2:
            # y must have the dimensions of x, or one fewer
            a["y"] = randn(g, *(shape if spec["cross"] == 1 else (B, spec["n"])), dtype=torch.float64)
        return a

    def split_keys(self, a):
        return ("x", "y") if "y" in a else ("x",)


@comp
class FnSpectralDensity(Comp):
    cfg = {"fn": ["spectral_density", "fast_spectral_density"]}
    spec = {"n": [128, 100], "ch": [2, 1], "nperseg": [32, 31, 16], "nstride": [16, 8, 32], "average": ["median", "mean"],
            "win": [0, 1], "scale": [1.0, 0.1]}
    batched = ("x",)

    def make(self, cfg):
        import ml4gw.spectral as s
        return getattr(s, cfg["fn"])

    def args(self, cfg, spec, g, B):
        w = torch.hann_window(spec["nperseg"], dtype=torch.float64) if not spec["win"] else torch.ones(spec["nperseg"], dtype=torch.float64)
        return dict(x=randn(g, B, spec["ch"], spec["n"]), nperseg=spec["nperseg"], nstride=spec["nstride"], window=w,
                    scale=spec["scale"], average=spec["average"])


@comp
class Median(Comp):
    spec = {"n": [7, 12, 1], "ch": [2, 1]}
    batched = ("x",)
    weight = 1

    def make(self, cfg):
        from ml4gw.spectral import median
        return median

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, spec["ch"], spec["n"]).abs()}

    def call(self, obj, a):
        return obj(a["x"], -1)


@comp
class Whiten(Comp):
    cfg = {"fduration": [0.5, 1], "sample_rate": [32, 64], "highpass": [None, 4, 8], "lowpass": [None, 12, 10]}
    spec = {"n": [128, 160, 131], "ch": [2, 1, 3], "psd": [3, 2, 1], "nf": [0, 33, 100], "crop": [True, False], "pdt": ["f64", "f32"],
            "dtype": ["f32", "f64"]}
    weight = 5

    def make(self, cfg):
        from ml4gw.transforms import Whiten as W
        return W(**cfg)

    def args(self, cfg, spec, g, B):
        nf = spec["nf"] or spec["n"] // 2 + 1
        shape = {3: (B, spec["ch"], nf), 2: (spec["ch"], nf), 1: (nf,)}[spec["psd"]]
        psd = (0.5 + torch.rand(*shape, generator=g, dtype=torch.float64)).to(DT[spec["pdt"]])
        return {"X": randn(g, B, spec["ch"], spec["n"], dtype=DT[spec["dtype"]]), "psd": psd, "crop": spec["crop"]}

    batched = ("X",)

    def split_keys(self, a):
        return ("X", "psd") if a["psd"].ndim == 3 else ("X",)


@comp
class FnWhiten(Comp):
    cfg = {"sample_rate": [32, 64]}
    spec = {"n": [128, 160], "ch": [2, 1], "fd": [0.5, 1.0, "window"], "highpass": [None, 4], "lowpass": [None, 12], "crop": [True, False]}
    batched = ("X", "psd")

    def make(self, cfg):
        from ml4gw.spectral import whiten
        return lambda **kw: whiten(sample_rate=cfg["sample_rate"], **kw)

    def args(self, cfg, spec, g, B):
        fd = torch.hann_window(16, dtype=torch.float64) if spec["fd"] == "window" else spec["fd"]
        return {"X": randn(g, B, spec["ch"], spec["n"]), "psd": 0.5 + torch.rand(B, spec["ch"], spec["n"] // 2 + 1, generator=g),
                "fduration": fd, "highpass": spec["highpass"], "lowpass": spec["lowpass"], "crop": spec["crop"]}


@comp
class TruncateInverse(Comp):
    cfg = {"sample_rate": [32, 64]}
    spec = {"nf": [65, 64, 33], "ch": [2, 1], "fd": [0.5, 1.0, "window"], "highpass": [None, 4], "lowpass": [None, 12]}
    batched = ("psd",)

    def make(self, cfg):
        from ml4gw.spectral import truncate_inverse_power_spectrum as f
        return lambda **kw: f(sample_rate=cfg["sample_rate"], **kw)

    def args(self, cfg, spec, g, B):
        fd = torch.hann_window(16, dtype=torch.float64) if spec["fd"] == "window" else spec["fd"]
        return {"psd": 0.5 + torch.rand(B, spec["ch"], spec["nf"], generator=g, dtype=torch.float64), "fduration": fd,
                "highpass": spec["highpass"], "lowpass": spec["lowpass"]}


@comp
class NormalizeByPsd(Comp):
    cfg = {"sample_rate": [32, 64]}
    spec = {"n": [64, 65], "ch": [2, 1], "pad": [4, 8], "crop": [True, False], "nd": [3, 2]}
    batched = ("X",)
    weight = 1

    def make(self, cfg):
        from ml4gw.spectral import normalize_by_psd as f
        return lambda **kw: f(sample_rate=cfg["sample_rate"], **kw)

    def args(self, cfg, spec, g, B):
        sh = (B, spec["ch"]) if spec["nd"] == 3 else (spec["ch"],)
        psd = 0.5 + torch.rand(*sh, spec["n"] // 2 + 1, generator=g, dtype=torch.float64)
        psd[..., 0] = float("inf")        # what highpassing leaves behind
        return {"X": randn(g, B, spec["ch"], spec["n"]), "psd": psd, "pad": spec["pad"], "crop": spec["crop"]}

    def split_keys(self, a):
        return ("X", "psd") if a["psd"].ndim == 3 else ("X",)


# amplitudes of the data given to a fit: as drawn, all but the same, tiny
SCALES = [1.0, 1.0, 1.002, 1e-8]


@comp
class FixedWhiten(Comp):
    cfg = {"num_channels": [2, 1], "kernel_length": [4, 3], "sample_rate": [32, 64], "fduration": [0.5, 1], "fftlength": [None, 1, 2],
           "overlap": [None, 0.25], "highpass": [None, 4], "lowpass": [None, 12], "dtype": ["f64", "f32"], "data": [0, 1],
           "scale": SCALES}
    spec = {"crop": [True, False], "dtype": ["f32", "f64"]}
    batched = ("X",)
    fit_needed = True
    weight = 4

    def make(self, cfg):
        from ml4gw.transforms import FixedWhiten as F
        return F(cfg["num_channels"], cfg["kernel_length"], cfg["sample_rate"], dtype=DT[cfg["dtype"]])

    def fit_args(self, cfg):
        g = gen(77 + cfg["data"])
        if cfg["fftlength"] is None:
            bg = [0.5 + torch.rand(50 + 7 * i, generator=g, dtype=torch.float64) for i in range(cfg["num_channels"])]
        else:
            bg = [randn(g, cfg["sample_rate"] * 8) * (1 + i) for i in range(cfg["num_channels"])]
        bg = [x * cfg["scale"] for x in bg]
        return (cfg["fduration"], *degenerate(bg, cfg["data"])), dict(fftlength=cfg["fftlength"], highpass=cfg["highpass"], lowpass=cfg["lowpass"],
                                               overlap=cfg["overlap"])

    def prep(self, obj, cfg):
        a, k = self.fit_args(cfg)
        obj.fit(*a, **k)

    def args(self, cfg, spec, g, B):
        return {"X": randn(g, B, cfg["num_channels"], cfg["kernel_length"] * cfg["sample_rate"], dtype=DT[spec["dtype"]]), "crop": spec["crop"]}


def degenerate(series, data):
    """Fit data numbered 40 and up has a dead, constant or corrupted channel."""
    if data >= 40:
        x = series[data % len(series)]
        how = data % 5
        if how == 0:
            x.fill_(0.0)
        elif how == 1:
            x.fill_(2.0)
        elif how == 2:
            x[len(x) // 3] = float("nan")
        elif how == 3:
            x[len(x) // 2] = float("inf")
        else:
            x[: len(x) // 2] = 0.0
    return series


@comp
class ChannelWiseScaler(Comp):
    cfg = {"num_channels": [2, None, 3], "std_reg": [0.0, 0.1], "data": [0, 1], "scale": SCALES}
    spec = {"n": [32, 50], "reverse": [False, True], "dtype": ["f32", "f64"]}
    batched = ("X",)
    fit_needed = True
    weight = 3

    def make(self, cfg):
        from ml4gw.transforms import ChannelWiseScaler as S
        return S(cfg["num_channels"])

    def fit_args(self, cfg):
        g = gen(177 + cfg["data"])
        sh = (64,) if cfg["num_channels"] is None else (cfg["num_channels"], 64)
        x = (randn(g, *sh) * 3 + 1) * cfg["scale"]
        degenerate([x] if cfg["num_channels"] is None else list(x), cfg["data"])
        return (x,), dict(std_reg=cfg["std_reg"])

    def prep(self, obj, cfg):
        a, k = self.fit_args(cfg)
        obj.fit(*a, **k)

    def args(self, cfg, spec, g, B):
        sh = (B, spec["n"]) if cfg["num_channels"] is None else (B, cfg["num_channels"], spec["n"])
        return {"X": randn(g, *sh, dtype=DT[spec["dtype"]]), "reverse": spec["reverse"]}


@comp
class SnrRescaler(Comp):
    cfg = {"num_channels": [2, 1], "sample_rate": [32, 64], "waveform_duration": [2, 4], "highpass": [None, 4], "lowpass": [None, 12],
           "fftlength": [None, 1], "overlap": [None, 0.25], "data": [0, 1], "scale": SCALES}
    spec = {}
    batched = ("responses", "target_snrs")
    fit_needed = True
    weight = 3

    def make(self, cfg):
        from ml4gw.transforms import SnrRescaler as S
        return S(cfg["num_channels"], cfg["sample_rate"], cfg["waveform_duration"], cfg["highpass"], cfg["lowpass"])

    def fit_args(self, cfg):
        g = gen(277 + cfg["data"])
        if cfg["fftlength"] is None:
            bg = [0.5 + torch.rand(50 + 7 * i, generator=g) for i in range(cfg["num_channels"])]
        else:
            bg = [randn(g, cfg["sample_rate"] * 8) * (1 + i) for i in range(cfg["num_channels"])]
        bg = [x * cfg["scale"] for x in bg]
        return tuple(degenerate(bg, cfg["data"])), dict(fftlength=cfg["fftlength"], overlap=cfg["overlap"])

    def prep(self, obj, cfg):
        a, k = self.fit_args(cfg)
        obj.fit(*a, **k)

    def args(self, cfg, spec, g, B):
        n = cfg["waveform_duration"] * cfg["sample_rate"]
        return {"responses": randn(g, B, cfg["num_channels"], n), "target_snrs": unif(g, B, 4, 20, torch.float32)}


@comp
class SnrRescalerPermute(SnrRescaler):
    batched = ()
    rng = True
    weight = 2

    def args(self, cfg, spec, g, B):
        a = super().args(cfg, spec, g, B + 2)
        a.pop("target_snrs")
        return a


# ---------------------------------------------------------------- Q transform, splines, spectrograms
@comp
class QTile(Comp):
    cfg = {"q": [8.0, 12.0], "frequency": [10.0, 20.0], "duration": [2.0, 4.0], "sample_rate": [64, 128], "mismatch": [0.2, 0.35]}
    spec = {"norm": ["median", "mean", None, "MEAN"], "ch": [1, 2]}
    batched = ("fseries",)

    def make(self, cfg):
        from ml4gw.transforms.qtransform import QTile as Q
        return Q(cfg["q"], cfg["frequency"], cfg["duration"], cfg["sample_rate"], cfg["mismatch"])

    def args(self, cfg, spec, g, B):
        n = int(cfg["duration"] * cfg["sample_rate"]) // 2 + 1
        x = torch.complex(randn(g, B, spec["ch"], n), randn(g, B, spec["ch"], n))
        return {"fseries": x, "norm": spec["norm"]}


@comp
class SingleQTransform(Comp):
    cfg = {"duration": [2.0, 3.0], "sample_rate": [128, 256], "spectrogram_shape": [(16, 16), (24, 16), (16, 32)], "q": [8, 6],
           "frange": [None, (8, 40), (10, 30)], "mismatch": [0.3, 0.2], "interpolation_method": ["bicubic", "bilinear", "spline"]}
    spec = {"norm": ["median", "mean"], "ch": [2, 1, 3], "nd": [3, 2, 1]}
    batched = ("X",)
    weight = 5

    def valid(self, cfg):
        return not (cfg["interpolation_method"] == "spline" and cfg["sample_rate"] == 128 and cfg["frange"] is None)

    def make(self, cfg):
        from ml4gw.transforms import SingleQTransform as S
        kw = dict(cfg)
        if kw["frange"] is not None:
            kw["frange"] = list(kw["frange"])
        return S(**kw)

    def args(self, cfg, spec, g, B):
        n = int(cfg["duration"] * cfg["sample_rate"])
        sh = {3: (B, spec["ch"], n), 2: (B, 1, n), 1: (B, 1, n)}[spec["nd"]]
        return {"X": randn(g, *sh), "norm": spec["norm"]}

    def call(self, obj, a):
        out = obj(**a)
        # size-one dimensions are squeezed away: put requests back in front
        B, C = a["X"].shape[:2] if a["X"].ndim == 3 else (1, 1)
        return out.reshape(B, C, *obj.spectrogram_shape)

    def tol(self, cfg, spec):
        return 2e-2 if cfg["interpolation_method"] == "spline" else 1e-3


@comp
class QTransformSteps(SingleQTransform):
    """compute_qtiles, get_max_energy and interpolate used one by one."""
    batched = ()
    weight = 2
    threads = False
    spec = {**SingleQTransform.spec, "band": [None, (0.1, 0.5), (0.4, 0.9)], "dimension": ["neither", "channel", "batch", "both"]}

    def call(self, obj, a):
        band = a["band"] and [float(obj.freqs[int(f * (len(obj.freqs) - 1))]) for f in a["band"]]
        tiles = obj.compute_qtiles(a["X"], a["norm"])
        return {"tiles": list(tiles), "max": obj.get_max_energy(), a["dimension"]: obj.get_max_energy(band, a["dimension"]),
                "given": obj.get_max_energy(band, qtiles=tiles[::-1] if band is None else tiles), "image": obj.interpolate()}

    def args(self, cfg, spec, g, B):
        return dict(super().args(cfg, spec, g, B), band=spec["band"], dimension=spec["dimension"])


@comp
class QScan(Comp):
    cfg = {"duration": [2.0], "sample_rate": [128, 256], "spectrogram_shape": [(16, 16), (24, 32)], "qrange": [(4, 9), (4, 6)],
           "frange": [None, (8, 40)], "interpolation_method": ["bilinear", "bicubic"], "mismatch": [0.3]}
    spec = {"norm": ["median", "mean"], "ch": [2, 1], "fsearch_range": [None, (12, 28), (9, 16), (22, 30)]}
    weight = 3

    def ok_spec(self, cfg, spec):
        return spec["fsearch_range"] is None or cfg["frange"] is not None

    def make(self, cfg):
        from ml4gw.transforms import QScan as Q
        kw = dict(cfg, qrange=list(cfg["qrange"]))
        if kw["frange"] is not None:
            kw["frange"] = list(kw["frange"])
        return Q(**kw)

    def args(self, cfg, spec, g, B):
        fs = spec["fsearch_range"]
        return {"X": randn(g, B, spec["ch"], int(cfg["duration"] * cfg["sample_rate"])), "fsearch_range": list(fs) if fs else None,
                "norm": spec["norm"]}

    def tol(self, cfg, spec):
        return 1e-3


@comp
class MultiResolutionSpectrogram(Comp):
    cfg = {"kernel_length": [1, 2], "sample_rate": [64, 128], "n_fft": [(16, 32), (32,), (16, 8, 24)], "hop": [None, 4]}
    spec = {"ch": [2, 1]}
    batched = ("X",)
    weight = 3

    def make(self, cfg):
        from ml4gw.transforms import MultiResolutionSpectrogram as M
        kw = {"n_fft": list(cfg["n_fft"])}
        if cfg["hop"]:
            kw["hop_length"] = [cfg["hop"]]
        return M(cfg["kernel_length"], cfg["sample_rate"], **kw)

    def args(self, cfg, spec, g, B):
        return {"X": randn(g, B, spec["ch"], cfg["kernel_length"] * cfg["sample_rate"])}


def _coords(n, kind):
    x = torch.arange(n).float()
    return {"grid": x, "scaled": x / n * 3, "log": torch.logspace(0, 1, n)}[kind]


@comp
class SplineInterpolate1D(Comp):
    cfg = {"n": [12, 9, 15], "coords": ["grid", "scaled", "log"], "kx": [3, 2, 1], "sx": [0.0, 0.01], "x_out": [None, 20, 7]}
    spec = {"x_out": [None, 25, 7, 20], "shift": [0.0, 0.3, -0.6], "ch": [2, 1], "nd": [3, 4]}
    batched = ("Z",)
    weight = 5

    def ok_spec(self, cfg, spec):
        return cfg["x_out"] is not None or spec["x_out"] is not None

    def make(self, cfg):
        from ml4gw.transforms import SplineInterpolate1D as S
        x = _coords(cfg["n"], cfg["coords"])
        out = None if cfg["x_out"] is None else torch.linspace(float(x[0]), float(x[-1]), cfg["x_out"])
        return S(x, cfg["kx"], cfg["sx"], out)

    def args(self, cfg, spec, g, B):
        x = _coords(cfg["n"], cfg["coords"])
        out = None if spec["x_out"] is None else torch.linspace(float(x[0]) + spec["shift"], float(x[-1]) - min(0.0, spec["shift"]), spec["x_out"])
        sh = (B, spec["ch"], 2, cfg["n"]) if spec["nd"] == 4 else (B, spec["ch"], cfg["n"])
        return {"Z": randn(g, *sh), "x_out": out}

    def call(self, obj, a):
        out = obj(**a)
        if a["Z"].ndim == 3:       # three dimensions are (batch or height) lifted to (1, batch, channel, width)
            out = out[0]
        return out

    def tol(self, cfg, spec):
        return 2e-2 if cfg["coords"] != "grid" else 5e-3


@comp
class SplineInterpolate2D(Comp):
    cfg = {"nx": [9, 12], "ny": [8, 10], "kx": [3, 2], "ky": [3, 1], "sx": [0.0, 0.01], "x_out": [None, 14, 6], "y_out": [None, 11, 6]}
    spec = {"x_out": [None, 17, 14, 6], "y_out": [None, 13, 11, 6], "shift": [0.0, 0.3, -0.6], "ch": [2, 1]}
    batched = ("Z",)
    weight = 5

    def ok_spec(self, cfg, spec):
        return all(cfg[k] is not None or spec[k] is not None for k in ("x_out", "y_out"))

    def make(self, cfg):
        from ml4gw.transforms import SplineInterpolate2D as S
        x, y = _coords(cfg["nx"], "grid"), _coords(cfg["ny"], "grid")
        kw = {}
        if cfg["x_out"]:
            kw["x_out"] = torch.linspace(0, cfg["nx"] - 1, cfg["x_out"])
        if cfg["y_out"]:
            kw["y_out"] = torch.linspace(0, cfg["ny"] - 1, cfg["y_out"])
        return S(x, y, cfg["kx"], cfg["ky"], cfg["sx"], 0.0, **kw)

    def args(self, cfg, spec, g, B):
        a = {"Z": randn(g, B, spec["ch"], cfg["ny"], cfg["nx"]), "x_out": None, "y_out": None}
        beyond = -min(0.0, spec["shift"])       # requested points may lie outside the input grid
        if spec["x_out"]:
            a["x_out"] = torch.linspace(spec["shift"], cfg["nx"] - 1 + beyond, spec["x_out"])
        if spec["y_out"]:
            a["y_out"] = torch.linspace(spec["shift"], cfg["ny"] - 1 + beyond, spec["y_out"])
        return a

    def tol(self, cfg, spec):
        return 1e-2


# ---------------------------------------------------------------- other transforms
@comp
class IIRFilter(Comp):
    cfg = {"N": [2, 4], "Wn": [0.2, 0.3, (0.2, 0.4)], "rs": [None, 20], "rp": [None, 1], "btype": ["band", "low", "high"],
           "ftype": ["butter", "cheby1", "cheby2"], "fs": [None]}
    spec = {"n": [64, 80], "ch": [2, 1], "dtype": ["f64"]}
    batched = ("x",)
    weight = 3

    def valid(self, cfg):
        if (cfg["btype"] == "band") != isinstance(cfg["Wn"], tuple):
            return False
        return not (cfg["ftype"] == "cheby1" and cfg["rp"] is None or cfg["ftype"] == "cheby2" and cfg["rs"] is None)

    def make(self, cfg):
        from ml4gw.transforms import IIRFilter as F
        kw = dict(cfg)
        if isinstance(kw["Wn"], tuple):
            kw["Wn"] = list(kw["Wn"])
        return F(**kw)

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, spec["ch"], spec["n"], dtype=DT[spec["dtype"]])}

    def tol(self, cfg, spec):
        return 1e-3


SCHED = {"a": [[0, 2, 8], [2, 3, 16], [3, 4, 32]], "b": [[0, 2, 16], [2, 4, 32]], "c": [[0, 1, 32], [1, 3, 8], [3, 4, 4]],
         "over": [[0, 3, 8], [2, 4, 16]]}


@comp
class Decimator(Comp):
    cfg = {"sample_rate": [32, 64], "schedule": ["a", "b", "c", "over"], "split": [False, True]}
    spec = {"ch": [2, 1]}
    batched = ("X",)

    def valid(self, cfg):
        return cfg["schedule"] != "over" or cfg["split"]

    def make(self, cfg):
        from ml4gw.transforms import Decimator as D
        return D(cfg["sample_rate"], torch.tensor(SCHED[cfg["schedule"]], dtype=torch.int), cfg["split"])

    def args(self, cfg, spec, g, B):
        return {"X": randn(g, B, spec["ch"], 4 * cfg["sample_rate"])}


@comp
class Heterodyne(Comp):
    cfg = {"sample_rate": [32, 64], "kernel_length": [2, 4], "chirp_mass": [(20.0, 30.0), (25.0,), (20.0, 31.0)],
           "return_type": ["time", "freq", "both"]}
    spec = {"ch": [2, 1]}
    batched = ("X",)

    def make(self, cfg):
        from ml4gw.transforms import Heterodyne as H
        return H(cfg["sample_rate"], cfg["kernel_length"], torch.tensor(cfg["chirp_mass"]), cfg["return_type"])

    def args(self, cfg, spec, g, B):
        return {"X": randn(g, B, spec["ch"], cfg["sample_rate"] * cfg["kernel_length"])}


@comp
class TophatIntegrator(Comp):
    cfg = {"sample_rate": [4, 8], "integration_length": [1, 2]}
    spec = {"n": [32, 40], "ch": [2, 1], "nd": [3, 2]}
    batched = ("x",)

    def make(self, cfg):
        from ml4gw.transforms import TophatIntegrator as T
        return T(**cfg)

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, *((B, spec["ch"], spec["n"]) if spec["nd"] == 3 else (B, spec["n"])))}


@comp
class LeakyIntegrator(Comp):
    cfg = {"threshold": [0.0, 0.5], "decay": [0.1, 1.0], "lower_bound": [0.0, -1.0, 0.5], "integrate_value": ["count", "score"]}
    spec = {"n": [32, 40], "ch": [2, 1]}
    batched = ("x",)

    def make(self, cfg):
        from ml4gw.transforms import LeakyIntegrator as T
        return T(**cfg)

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, spec["ch"], spec["n"])}


@comp
class ShiftedPearsonCorrelation(Comp):
    cfg = {"max_shift": [3, 5, 1]}
    spec = {"n": [32, 40], "ch": [2, 1], "ynd": [3, 2, 1]}
    batched = ("x",)
    outdim = 1

    def make(self, cfg):
        from ml4gw.transforms import ShiftedPearsonCorrelation as S
        return S(cfg["max_shift"])

    def args(self, cfg, spec, g, B):
        n, c = spec["n"], spec["ch"]
        return {"x": randn(g, B, c, n), "y": randn(g, *{3: (B, c, n), 2: (c, n), 1: (n,)}[spec["ynd"]])}

    def split_keys(self, a):
        return ("x", "y") if a["y"].ndim == 3 else ("x",)


# ---------------------------------------------------------------- detectors
IFOS = [("H1", "L1"), ("H1", "L1", "V1"), ("V1",), ("L1", "H1"), ("K1", "H1")]


def sky(g, B, dtype=torch.float64):
    a = {"dec": unif(g, B, -1.4, 1.4, dtype), "psi": unif(g, B, 0, 3.1, dtype), "phi": unif(g, B, -3, 3, dtype)}
    return edge(g, a, {"dec": [0.0, 1.5], "psi": [0.0], "phi": [0.0]}, 0.08)


@comp
class WaveformProjector(Comp):
    cfg = {"ifos": IFOS, "sample_rate": [1024, 2048]}
    spec = {"n": [64, 100], "modes": [("plus", "cross"), ("cross", "plus"), ("plus",), ("plus", "cross", "breathing")], "dtype": ["f64", "f32"]}
    batched = ("dec", "psi", "phi")
    weight = 3

    def make(self, cfg):
        from ml4gw.transforms import WaveformProjector as W
        return W(list(cfg["ifos"]), cfg["sample_rate"])

    def args(self, cfg, spec, g, B):
        dt = DT[spec["dtype"]]
        return dict(sky(g, B, dt), **{m: randn(g, B, spec["n"], dtype=dt) for m in spec["modes"]})

    def split_keys(self, a):
        return tuple(a)

    def poison(self, sim, cfg, row):
        k = sim.pick(list(row), "argument")
        row[k].fill_(sim.pick([float("nan"), 0.0, 1e30], "poison value") if k not in ("dec", "phi") else 0.0)


@comp
class ObservedStrain(WaveformProjector):
    """gw.get_ifo_geometry and gw.compute_observed_strain as functions."""

    def make(self, cfg):
        from ml4gw import gw

        def f(**kw):
            t, v = (x.to(kw["dec"].device) for x in gw.get_ifo_geometry(*cfg["ifos"]))
            return gw.compute_observed_strain(detector_tensors=t, detector_vertices=v, sample_rate=cfg["sample_rate"], **kw)
        return f


@comp
class IfoGeometry(Comp):
    cfg = {"ifos": IFOS}
    weight = 1

    def make(self, cfg):
        from ml4gw import gw
        return lambda ifos: gw.get_ifo_geometry(*ifos)

    def args(self, cfg, spec, g, B):
        return {"ifos": list(cfg["ifos"])}


@comp
class AntennaResponses(Comp):
    cfg = {"ifos": IFOS}
    spec = {"modes": [("plus", "cross"), ("breathing",), ("cross",)], "dtype": ["f64", "f32"]}
    batched = ("theta", "psi", "phi")
    weight = 1

    def make(self, cfg):
        from ml4gw import gw
        t, _ = gw.get_ifo_geometry(*cfg["ifos"])
        return lambda **kw: gw.compute_antenna_responses(detector_tensors=t.to(kw["theta"].device), **kw)

    def args(self, cfg, spec, g, B):
        s = sky(g, B, DT[spec["dtype"]])
        return {"theta": s["dec"], "psi": s["psi"], "phi": s["phi"], "modes": list(spec["modes"])}


@comp
class PolarizationTensors(Comp):
    cfg = {"fn": ["plus", "cross", "breathing", "outer"]}
    spec = {"dtype": ["f64", "f32"]}
    weight = 1

    def make(self, cfg):
        from ml4gw import gw
        f = getattr(gw, cfg["fn"])
        return lambda m, n: f(m, n)

    batched = ("m", "n")

    def args(self, cfg, spec, g, B):
        return {"m": randn(g, B, 3, dtype=DT[spec["dtype"]]), "n": randn(g, B, 3, dtype=DT[spec["dtype"]])}


@comp
class ShiftResponses(Comp):
    cfg = {"ifos": IFOS, "sample_rate": [256, 1024]}
    spec = {"n": [64, 50], "dtype": ["f64", "f32"]}
    batched = ("responses", "theta", "phi")

    def make(self, cfg):
        from ml4gw import gw
        _, v = gw.get_ifo_geometry(*cfg["ifos"])
        return lambda **kw: gw.shift_responses(vertices=v.to(kw["theta"].device), sample_rate=cfg["sample_rate"], **kw)

    def args(self, cfg, spec, g, B):
        s = sky(g, B, torch.float64)
        return {"responses": randn(g, B, len(cfg["ifos"]), spec["n"], dtype=DT[spec["dtype"]]), "theta": s["dec"], "phi": s["phi"]}

    def poison(self, sim, cfg, row):
        row["responses"].fill_(sim.pick([float("nan"), 0.0, 1e30], "poison value"))


@comp
class FnSnr(Comp):
    cfg = {"fn": ["compute_ifo_snr", "compute_network_snr"], "sample_rate": [32, 64]}
    spec = {"n": [64, 100], "ch": [2, 1], "nf": [0, 40], "psd": [2, 3], "highpass": [None, 4, "mask"], "lowpass": [None, 12, "mask"]}
    batched = ("responses",)
    weight = 3

    def make(self, cfg):
        from ml4gw import gw
        f = getattr(gw, cfg["fn"])
        return lambda **kw: f(sample_rate=cfg["sample_rate"], **kw)

    def args(self, cfg, spec, g, B):
        n, c = spec["n"], spec["ch"]
        nf = spec["nf"] or n // 2 + 1
        sh = (c, nf) if spec["psd"] == 2 else (B, c, nf)
        a = {"responses": randn(g, B, c, n), "psd": 0.5 + torch.rand(*sh, generator=g)}
        fr = torch.fft.rfftfreq(n, 1 / cfg["sample_rate"])
        a["highpass"] = (fr >= 3) if spec["highpass"] == "mask" else spec["highpass"]
        a["lowpass"] = (fr < 11) if spec["lowpass"] == "mask" else spec["lowpass"]
        return a

    def split_keys(self, a):
        return ("responses", "psd") if a["psd"].ndim == 3 else ("responses",)


@comp
class ReweightSnrs(Comp):
    cfg = {"sample_rate": [32, 64]}
    spec = {"n": [64, 100], "ch": [2, 1], "highpass": [None, 4], "lowpass": [None, 12]}
    batched = ("responses", "target_snrs")

    def make(self, cfg):
        from ml4gw import gw
        return lambda **kw: gw.reweight_snrs(sample_rate=cfg["sample_rate"], **kw)

    def args(self, cfg, spec, g, B):
        n, c = spec["n"], spec["ch"]
        return {"responses": randn(g, B, c, n), "target_snrs": unif(g, B, 4, 20, torch.float32),
                "psd": 0.5 + torch.rand(c, n // 2 + 1, generator=g), "highpass": spec["highpass"], "lowpass": spec["lowpass"]}


# ---------------------------------------------------------------- waveforms
FREQS = [(20.0, 60.0, 41), (25.0, 200.0, 36), (20.0, 60.0, 81)]


class Waveform(Comp):
    poison_vals = (float("nan"), 0.0)
    edges = {}        # parameter -> exceptional values physics allows (no spin, equal masses, face on)

    def poison(self, sim, cfg, row):
        k = sim.pick(list(self.batched), "argument")
        row[k].fill_(sim.pick(self.poison_vals, "poison value"))


def edge(g, a, edges, p=0.12):
    """Give some requests exceptional parameter values."""
    for k, vals in edges.items():
        hit = torch.rand(len(a[k]), generator=g) < p
        which = torch.randint(len(vals), (len(a[k]),), generator=g)
        a[k] = torch.where(hit, torch.tensor(vals, dtype=a[k].dtype)[which], a[k])
    return a


def cbc(g, B, dt):
    return {"chirp_mass": unif(g, B, 8, 30, dt), "mass_ratio": unif(g, B, 0.3, 0.95, dt), "distance": unif(g, B, 100, 1000, dt),
            "phic": unif(g, B, 0, 6, dt), "inclination": unif(g, B, 0, 3, dt)}


@comp
class TaylorF2(Waveform):
    edges = {"chi1": [0.0], "chi2": [0.0], "mass_ratio": [1.0, 0.5], "inclination": [0.0, 1.5], "phic": [0.0]}
    spec = {"freqs": FREQS, "f_ref": [20.0, 40.0], "dtype": ["f64", "f32"]}
    batched = ("chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic", "inclination")

    def make(self, cfg):
        from ml4gw.waveforms import TaylorF2 as T
        return T()

    def args(self, cfg, spec, g, B):
        dt = DT[spec["dtype"]]
        a = dict(cbc(g, B, dt), chi1=unif(g, B, -0.7, 0.7, dt), chi2=unif(g, B, -0.7, 0.7, dt))
        return dict(edge(g, a, self.edges), f=torch.linspace(*spec["freqs"], dtype=dt), f_ref=spec["f_ref"])

    def tol(self, cfg, spec):
        return 5e-2 if spec["dtype"] == "f32" else 1e-5


@comp
class IMRPhenomD(TaylorF2):
    weight = 3

    def make(self, cfg):
        from ml4gw.waveforms import IMRPhenomD as T
        return T()


@comp
class IMRPhenomPv2(TaylorF2):
    edges = {"s1x": [0.0], "s1y": [0.0], "s1z": [0.0], "s2x": [0.0], "s2y": [0.0], "s2z": [0.0], "mass_ratio": [1.0, 0.5], "phic": [0.0],
             "inclination": [0.0]}
    batched = ("chirp_mass", "mass_ratio", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "distance", "phic", "inclination")
    spec = {"freqs": FREQS, "f_ref": [20.0, 40.0], "dtype": ["f64", "f32"], "tc": [0, 1]}
    weight = 3

    def make(self, cfg):
        from ml4gw.waveforms import IMRPhenomPv2 as T
        return T()

    def args(self, cfg, spec, g, B):
        dt = DT[spec["dtype"]]
        a = dict(cbc(g, B, dt), fs=torch.linspace(*spec["freqs"], dtype=dt), f_ref=spec["f_ref"])
        for k in ("s1x", "s1y", "s1z", "s2x", "s2y", "s2z"):
            a[k] = unif(g, B, -0.4, 0.4, dt)
        if spec["tc"]:
            a["tc"] = unif(g, B, 0, 0.1, dt)
        return edge(g, a, self.edges)

    def split_keys(self, a):
        return self.batched + (("tc",) if "tc" in a else ())


@comp
class SineGaussian(Waveform):
    edges = {"eccentricity": [0.0, 1.0], "phase": [0.0], "hrss": [0.0]}
    cfg = {"sample_rate": [64, 128], "duration": [1, 2]}
    spec = {"dtype": ["f64", "f32"]}
    batched = ("quality", "frequency", "hrss", "phase", "eccentricity")

    def make(self, cfg):
        from ml4gw.waveforms import SineGaussian as S
        return S(**cfg)

    def args(self, cfg, spec, g, B):
        dt = DT[spec["dtype"]]
        return edge(g, {"quality": unif(g, B, 5, 30, dt), "frequency": unif(g, B, 5, 25, dt), "hrss": unif(g, B, 0.5, 2, dt),
                        "phase": unif(g, B, 0, 6, dt), "eccentricity": unif(g, B, 0, 0.9, dt)}, self.edges)


@comp
class Ringdown(Waveform):
    edges = {"inclination": [0.0], "phase": [0.0], "epsilon": [0.0]}
    cfg = {"sample_rate": [64, 128], "duration": [1, 2]}
    spec = {"dtype": ["f64", "f32"]}
    batched = ("frequency", "quality", "epsilon", "phase", "inclination", "distance")

    def make(self, cfg):
        from ml4gw.waveforms import Ringdown as S
        return S(**cfg)

    def args(self, cfg, spec, g, B):
        dt = DT[spec["dtype"]]
        return edge(g, {"frequency": unif(g, B, 10, 30, dt), "quality": unif(g, B, 3, 20, dt), "epsilon": unif(g, B, 0.01, 0.1, dt),
                        "phase": unif(g, B, 0, 6, dt), "inclination": unif(g, B, 0, 3, dt), "distance": unif(g, B, 10, 500, dt)}, self.edges)


@comp
class TimeDomainCBC(Comp):
    """Time-domain conditioning; requests share a frequency grid, so not batchable."""
    cfg = {"approx": ["IMRPhenomD", "TaylorF2"], "sample_rate": [512, 256], "duration": [4, 6], "f_min": [30, 40], "f_ref": [40],
           "right_pad": [0.1, 0.5]}
    spec = {"dtype": ["f64"]}
    weight = 2
    threads = True

    def make(self, cfg):
        from ml4gw import waveforms as W
        from ml4gw.waveforms.generator import TimeDomainCBCWaveformGenerator as G
        return G(getattr(W, cfg["approx"])(), cfg["sample_rate"], cfg["duration"], cfg["f_min"], cfg["f_ref"], cfg["right_pad"])

    def args(self, cfg, spec, g, B):
        from ml4gw.waveforms.conversion import chirp_mass_and_mass_ratio_to_components as conv
        dt = DT[spec["dtype"]]
        a = cbc(g, B, dt)
        a["chirp_mass"] = unif(g, B, 25, 30, dt)
        a["chi1"] = unif(g, B, -0.5, 0.5, dt)
        a["chi2"] = unif(g, B, -0.5, 0.5, dt)
        a["s1z"], a["s2z"] = a["chi1"].clone(), a["chi2"].clone()
        a["mass_1"], a["mass_2"] = conv(a["chirp_mass"], a["mass_ratio"])
        return a


@comp
class SpinConversion(Waveform):
    floor = 1e-3      # spin components of order one, left over from cancellation when aligned
    edges = {"a_1": [0.0], "a_2": [0.0], "tilt_1": [0.0], "phi_ref": [0.0], "phi_12": [0.0], "mass_1": [20.0], "mass_2": [20.0]}
    spec = {"f_ref": [20.0, 40.0], "dtype": ["f64", "f32"]}
    batched = ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "a_1", "a_2", "mass_1", "mass_2", "phi_ref")

    def make(self, cfg):
        from ml4gw.waveforms.conversion import bilby_spins_to_lalsim
        return bilby_spins_to_lalsim

    def args(self, cfg, spec, g, B):
        dt = DT[spec["dtype"]]
        a = {k: unif(g, B, 0.1, 3.0, dt) for k in ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12", "phi_ref")}
        a.update({k: unif(g, B, 0.05, 0.9, dt) for k in ("a_1", "a_2")})
        a.update({k: unif(g, B, 5, 50, dt) for k in ("mass_1", "mass_2")})
        edge(g, a, self.edges)
        a["f_ref"] = spec["f_ref"]
        return a

    def tol(self, cfg, spec):
        return 5e-3


@comp
class MassConversion(Waveform):
    batched = ("chirp_mass", "mass_ratio")
    weight = 1

    def make(self, cfg):
        from ml4gw.waveforms.conversion import chirp_mass_and_mass_ratio_to_components as f
        return f

    def args(self, cfg, spec, g, B):
        return edge(g, {"chirp_mass": unif(g, B, 5, 50), "mass_ratio": unif(g, B, 0.1, 1)}, {"mass_ratio": [1.0, 0.5]})


@comp
class CbcBounds(Waveform):
    """The conditioning bounds behind time-domain waveforms."""
    cfg = {"fn": ["chirp_time_bound", "chirp_start_frequency_bound", "final_black_hole_spin_bound", "merge_time_bound", "ringdown_time_bound", "frequency_isco"]}
    spec = {"dtype": ["f64", "f32"]}
    batched = ("mass_1", "mass_2", "s1", "s2", "t", "f")
    weight = 1

    def make(self, cfg):
        from ml4gw.waveforms.cbc import utils as U
        f = getattr(U, cfg["fn"])
        return {"chirp_time_bound": lambda a: f(a["f"], a["mass_1"], a["mass_2"], a["s1"], a["s2"]),
                "chirp_start_frequency_bound": lambda a: f(a["t"], a["mass_1"], a["mass_2"]),
                "final_black_hole_spin_bound": lambda a: f(a["s1"], a["s2"]),
                "merge_time_bound": lambda a: f(a["mass_1"], a["mass_2"]),
                "ringdown_time_bound": lambda a: f(a["mass_1"], a["s1"].abs()),
                "frequency_isco": lambda a: f(a["mass_1"], a["mass_2"])}[cfg["fn"]]

    def args(self, cfg, spec, g, B):
        dt = DT[spec["dtype"]]
        return {"mass_1": unif(g, B, 1e31, 8e31, dt), "mass_2": unif(g, B, 1e31, 8e31, dt), "s1": unif(g, B, -0.9, 0.9, dt), "s2": unif(g, B, -0.9, 0.9, dt),
                "t": unif(g, B, 0.5, 8, dt), "f": unif(g, B, 10, 40, dt)}

    def call(self, obj, a):
        return obj(a)


# ---------------------------------------------------------------- networks
def _norm(kind):
    from ml4gw.nn.norm import GroupNorm1DGetter
    return {"default": None, "group2": GroupNorm1DGetter(2), "bn": torch.nn.BatchNorm1d, "group1": GroupNorm1DGetter(1)}[kind]


def _norm2(kind):
    from ml4gw.nn.norm import GroupNorm2DGetter
    return {"default": None, "group2": GroupNorm2DGetter(2), "bn": torch.nn.BatchNorm2d, "group1": GroupNorm2DGetter(1)}[kind]


class Net(Comp):
    net = True
    floor = 1e-2      # outputs of order one; residual branches may be zero-initialised

    def tol(self, cfg, spec):
        return 2e-3

    def prep(self, obj, cfg):
        # non-trivial norm parameters and running statistics
        g = gen(5 + cfg.get("weights", 0))
        for n, p in sorted(obj.named_parameters()):
            if p.ndim <= 2 and "fc" not in n and "log" not in n and "A_imag" not in n:
                p.data.add_(0.1 * torch.randn(p.shape, generator=g))
        for n, b in sorted(obj.named_buffers()):
            if n.endswith("running_mean"):
                b.add_(0.1 * torch.randn(b.shape, generator=g))
            elif n.endswith("running_var"):
                b.mul_(1 + torch.rand(b.shape, generator=g))

    def call(self, obj, a):
        return obj(a["x"])


@comp
class ResNet1D(Net):
    cfg = {"in_channels": [2, 1], "layers": [(1, 1), (2, 1)], "classes": [1, 3], "kernel_size": [3, 5], "norm": ["default", "group2", "bn"],
           "stride_type": [None, ("dilation",)], "zero_init_residual": [False, True], "weights": [0, 1]}
    spec = {"n": [64, 80]}
    batched = ("x",)
    cls = "ResNet1D"
    mod = "ml4gw.nn.resnet.resnet_1d"

    def make(self, cfg):
        import importlib
        m = importlib.import_module(self.mod)
        kw = {k: cfg[k] for k in ("in_channels", "classes", "kernel_size", "zero_init_residual")}
        st = cfg["stride_type"]
        return getattr(m, self.cls)(layers=list(cfg["layers"]), stride_type=list(st) if st else None,
                                    norm_layer=(_norm if "1d" in self.mod else _norm2)(cfg["norm"]), **kw)

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, cfg["in_channels"], spec["n"])}


@comp
class BottleneckResNet1D(ResNet1D):
    cls = "BottleneckResNet1D"
    weight = 1


@comp
class ResNet2D(ResNet1D):
    cls = "ResNet2D"
    mod = "ml4gw.nn.resnet.resnet_2d"
    weight = 1

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, cfg["in_channels"], spec["n"] // 2, 24)}


@comp
class BottleneckResNet2D(ResNet2D):
    cls = "BottleneckResNet2D"
    weight = 1


@comp
class GroupNorm1D(Net):
    cfg = {"num_channels": [4, 6], "num_groups": [None, 2, 1], "eps": [1e-5, 1e-3], "weights": [0, 1]}
    spec = {"n": [32, 40], "dtype": ["f32"]}
    batched = ("x",)
    weight = 3

    def make(self, cfg):
        from ml4gw.nn.norm import GroupNorm1D as G
        return G(cfg["num_channels"], cfg["num_groups"], cfg["eps"])

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, cfg["num_channels"], spec["n"])}


@comp
class S4D(Net):
    cfg = {"d_model": [4, 6], "d_state": [4, 8], "dropout": [0.0, 0.3], "transposed": [True, False], "weights": [0, 1]}
    spec = {"n": [32, 40, 31]}
    batched = ("x",)
    weight = 3

    def make(self, cfg):
        from ml4gw.nn.ssm.s4d import S4D as S
        return S(cfg["d_model"], cfg["d_state"], cfg["dropout"], cfg["transposed"])

    def args(self, cfg, spec, g, B):
        sh = (B, cfg["d_model"], spec["n"]) if cfg["transposed"] else (B, spec["n"], cfg["d_model"])
        return {"x": randn(g, *sh)}


@comp
class S4DKernel(Net):
    cfg = {"d_model": [4, 6], "N": [4, 8], "weights": [0, 1]}
    spec = {"L": [16, 24, 17]}
    weight = 1

    def make(self, cfg):
        from ml4gw.nn.ssm import S4DKernel as S
        return S(cfg["d_model"], cfg["N"])

    def args(self, cfg, spec, g, B):
        return {"L": spec["L"]}

    def call(self, obj, a):
        return obj(a["L"])


@comp
class S4Model(Net):
    cfg = {"d_input": [2, 3], "d_output": [1, 2], "d_model": [4, 6], "n_layers": [1, 2], "dropout": [0.2, 0.0], "weights": [0, 1]}
    spec = {"n": [32, 40, 31]}
    batched = ("x",)

    def make(self, cfg):
        from ml4gw.nn.ssm.s4d import S4Model as S
        return S(cfg["d_input"], cfg["d_output"], cfg["d_model"], 4, cfg["n_layers"], cfg["dropout"])

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, cfg["d_input"], spec["n"])}


@comp
class ConvAutoencoder(Net):
    """Single-block autoencoders: deeper stacks do not run at this commit (see DESIGN)."""
    cfg = {"in_channels": [2, 3], "encode_channels": [4, 6], "kernel_size": [5, 3], "stride": [1, 2],
           "skip": ["add", "plain"], "decode_channels": [None, 2], "weights": [0, 1]}
    spec = {"n": [32, 40, 33]}
    batched = ("x",)

    def make(self, cfg):
        from ml4gw.nn import autoencoder as A
        skip = {"add": A.AddSkipConnect, "plain": A.SkipConnection}[cfg["skip"]]()
        return A.ConvolutionalAutoencoder(cfg["in_channels"], [cfg["encode_channels"]], cfg["kernel_size"], cfg["stride"],
                                          decode_channels=cfg["decode_channels"], skip_connection=skip,
                                          output_activation=torch.nn.Tanh())

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, cfg["in_channels"], spec["n"])}


@comp
class AutoencoderSteps(ConvAutoencoder):
    """encode and decode called apart, as a compression service does."""
    weight = 1

    def call(self, obj, a):
        z, states = obj.encode(a["x"], return_states=True)
        return z, obj.decode(z, states=states)


@comp
class SkipConnect(Comp):
    cfg = {"kind": ["add", "concat", "plain"], "groups": [1, 2]}
    # the state is never shorter by more than one sample: see DESIGN.md, match_size
    spec = {"n": [16, 15, 13], "m": [16, 17, 21], "ch": [2, 4]}
    batched = ("X", "state")
    weight = 1

    def make(self, cfg):
        from ml4gw.nn import autoencoder as A
        return {"add": A.AddSkipConnect, "plain": A.SkipConnection, "concat": lambda: A.ConcatSkipConnect(cfg["groups"])}[cfg["kind"]]()

    def args(self, cfg, spec, g, B):
        return {"X": randn(g, B, spec["ch"], spec["n"]), "state": randn(g, B, spec["ch"], spec["m"])}

    def call(self, obj, a):
        y = obj(**a)
        # match_size hands its input through when there is nothing to do
        return y.clone() if y is a["X"] else y


# ---------------------------------------------------------------- streaming and slicing
@comp
class Snapshotter(Comp):
    cfg = {"num_channels": [2, 3], "snapshot_size": [12, 16], "stride_size": [4, 2], "batch_size": [3, 1], "split": [None, "ones"]}
    spec = {"state": [0, 1]}
    weight = 3

    def make(self, cfg):
        from ml4gw.nn.streaming import Snapshotter as S
        split = [1] * cfg["num_channels"] if cfg["split"] else None
        return S(cfg["num_channels"], cfg["snapshot_size"], cfg["stride_size"], cfg["batch_size"], split)

    def args(self, cfg, spec, g, B):
        a = {"update": randn(g, cfg["num_channels"], cfg["stride_size"] * cfg["batch_size"])}
        if spec["state"]:
            a["snapshot"] = randn(g, cfg["num_channels"], cfg["snapshot_size"] - cfg["stride_size"])
        return a


@comp
class OnlineAverager(Comp):
    cfg = {"update_size": [4, 2], "batch_size": [3, 1], "num_updates": [3, 2, 1, 5], "num_channels": [2, 1], "offset": [None, 2]}
    spec = {"state": [0, 1]}
    weight = 3

    def make(self, cfg):
        from ml4gw.nn.streaming import OnlineAverager as S
        return S(**cfg)

    def args(self, cfg, spec, g, B):
        a = {"update": randn(g, cfg["batch_size"], cfg["num_channels"], cfg["num_updates"] * cfg["update_size"] + 5)}
        if spec["state"]:
            a["state"] = randn(g, cfg["num_channels"], (cfg["num_updates"] - 1) * cfg["update_size"])
        return a


@comp
class UnfoldWindows(Comp):
    spec = {"n": [32, 35], "ch": [2, 1], "window": [8, 5], "stride": [4, 3], "drop_last": [True, False]}
    batched = ("x",)
    outdim = 1

    def make(self, cfg):
        from ml4gw.utils.slicing import unfold_windows
        return unfold_windows

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, spec["ch"], spec["n"]), "window_size": spec["window"], "stride": spec["stride"],
                "drop_last": spec["drop_last"]}


@comp
class SliceKernels(Comp):
    spec = {"n": [32, 40], "ch": [2, 1], "kernel_size": [8, 5]}
    batched = ("x", "idx")

    def make(self, cfg):
        from ml4gw.utils.slicing import slice_kernels
        return slice_kernels

    def args(self, cfg, spec, g, B):
        return {"x": randn(g, B, spec["ch"], spec["n"]), "idx": torch.randint(0, spec["n"] - 8, (B,), generator=g),
                "kernel_size": spec["kernel_size"]}

    def poison(self, sim, cfg, row):
        row["x"].fill_(float("nan"))


@comp
class SliceKernels2D(Comp):
    spec = {"n": [32, 40], "ch": [2, 1], "kernel_size": [8, 5], "mode": ["co", "indep", "1d"]}
    batched = ("idx",)
    poison_ok = False

    def make(self, cfg):
        from ml4gw.utils.slicing import slice_kernels
        return slice_kernels

    def args(self, cfg, spec, g, B):
        n, c = spec["n"], spec["ch"]
        x = randn(g, n) if spec["mode"] == "1d" else randn(g, c, n)
        sh = (B, c) if spec["mode"] == "indep" else (B,)
        return {"x": x, "idx": torch.randint(0, n - 8, sh, generator=g), "kernel_size": spec["kernel_size"]}


@comp
class SampleKernels(Comp):
    spec = {"n": [40, 48], "ch": [2, 1], "nd": [2, 3, 1], "kernel_size": [8, 12], "max_center_offset": [None, 0, 3, -2],
            "coincident": [True, False], "return_idx": [True, False]}
    rng = True

    def make(self, cfg):
        from ml4gw.utils.slicing import sample_kernels
        return sample_kernels

    def args(self, cfg, spec, g, B):
        n, c = spec["n"], spec["ch"]
        a = {k: spec[k] for k in ("kernel_size", "max_center_offset", "coincident", "return_idx")}
        a["X"] = randn(g, *{1: (n,), 2: (c, n), 3: (B, c, n)}[spec["nd"]])
        if spec["nd"] < 3:
            a["N"] = B
        return a


# ---------------------------------------------------------------- random components
@comp
class WaveformSampler(Comp):
    cfg = {"n": [6, 9], "params": [True, False], "modes": [("plus", "cross"), ("plus",)]}
    spec = {"N": [3, -1, 5]}
    rng = True

    def make(self, cfg):
        from ml4gw.transforms import WaveformSampler as W
        g = gen(31 + cfg["n"])
        par = randn(g, cfg["n"], 3) if cfg["params"] else None
        return W(par, **{m: randn(g, cfg["n"], 16) for m in cfg["modes"]})

    def args(self, cfg, spec, g, B):
        return {"N": spec["N"]}


@comp
class SignalInverter(Comp):
    cfg = {"prob": [0.5, 0.0, 1.0, 0.25]}
    spec = {"n": [16, 20], "ch": [2, 1]}
    rng = True
    inplace = True
    cls = "SignalInverter"
    weight = 1

    def make(self, cfg):
        import ml4gw.augmentations as A
        return getattr(A, self.cls)(cfg["prob"])

    def args(self, cfg, spec, g, B):
        return {"X": randn(g, B, spec["ch"], spec["n"])}


@comp
class SignalReverser(SignalInverter):
    cls = "SignalReverser"


DISTS = {
    "cosine": ("Cosine", ()), "cosine2": ("Cosine", (-0.5, 1.0)), "sine": ("Sine", ()), "sine2": ("Sine", (0.3, 2.0)),
    "logu": ("LogUniform", (0.1, 10.0)), "logu2": ("LogUniform", (5.0, 500.0)), "logn": ("LogNormal", (1.0, 0.3)),
    "pow": ("PowerLaw", (4.0, 100.0, -4)), "pow2": ("PowerLaw", (10.0, 1000.0, 2)), "pow-1": ("PowerLaw", (1.0, 50.0, -1)),
    "delta": ("DeltaFunction", (2.5,)),
}


@comp
class Distribution(Comp):
    cfg = {"dist": list(DISTS)}
    spec = {"shape": [(7,), (3, 2), (1,)], "what": ["sample", "log_prob"]}
    rng = True
    weight = 3

    def ok_spec(self, cfg, spec):
        # LogNormal's declared support is not a torch constraint: its log_prob cannot validate
        return not (cfg["dist"] in ("delta", "logn") and spec["what"] == "log_prob")

    def make(self, cfg):
        import ml4gw.distributions as D
        cls, a = DISTS[cfg["dist"]]
        return getattr(D, cls)(*a)

    def args(self, cfg, spec, g, B):
        if spec["what"] == "sample":
            return {"shape": list(spec["shape"])}
        return {"u": unif(g, spec["shape"], 0.02, 0.98, torch.float32)}

    def call(self, obj, a):
        if "shape" in a:
            return obj.sample(torch.Size(a["shape"]))
        if hasattr(obj, "low") and hasattr(obj, "norm"):
            v = obj.low + a["u"] * (obj.high - obj.low)
        else:
            v = obj.sample(a["u"].shape) if not isinstance(obj, torch.distributions.TransformedDistribution) else obj.sample(a["u"].shape)
        return obj.log_prob(v)


@comp
class ComovingVolume(Comp):
    cfg = {"cls": ["UniformComovingVolume", "RateEvolution"], "minimum": [0.0, 0.1], "maximum": [1.0, 2.0], "distance_type":
           ["redshift", "comoving_distance", "luminosity_distance"], "h0": [67.66, 70.0], "omega_m": [0.30966, 0.3], "grid_size": [500, 300]}
    spec = {"shape": [(7,), (3, 2)], "what": ["sample", "log_prob"]}
    rng = True

    def make(self, cfg):
        import ml4gw.distributions as D
        kw = {k: v for k, v in cfg.items() if k != "cls"}
        if cfg["distance_type"] != "redshift":
            kw["minimum"], kw["maximum"] = 100 * kw["minimum"], 1000 * kw["maximum"]
        if cfg["cls"] == "RateEvolution":
            return D.RateEvolution(lambda z: 1 / (1 + z), **kw)
        return D.UniformComovingVolume(**kw)

    def args(self, cfg, spec, g, B):
        if spec["what"] == "sample":
            return {"shape": list(spec["shape"])}
        hi = 1.2 if cfg["distance_type"] == "redshift" else 1200.0
        return {"value": unif(g, spec["shape"], 0.0, hi, torch.float32)}

    def call(self, obj, a):
        return obj.sample(torch.Size(a["shape"])) if "shape" in a else obj.log_prob(a["value"])


# ---------------------------------------------------------------- drawing cases
def names(pred=lambda c: True):
    out = []
    for n, c in REG.items():
        if pred(c):
            out += [n] * c.weight
    return out


def draw(sim, options, ok=lambda d: True, label="opt"):
    for _ in range(60):
        d = {k: v[sim.choose(len(v), f"{label}:{k}")] for k, v in options.items()}
        if ok(d):
            return d
    raise RuntimeError("no valid options")


def neighbour(sim, options, d, ok=lambda d: True, label="near"):
    """Change one option of d."""
    many = [k for k, v in options.items() if len(v) > 1]
    if not many:
        return dict(d)
    for _ in range(60):
        k = sim.pick(many, label)
        e = dict(d)
        e[k] = sim.pick(options[k], label + ":" + k)
        if ok(e):
            return e
    return dict(d)


def draw_cfg(sim, name):
    c = REG[name]
    return draw(sim, c.cfg, c.valid, "cfg")


def near_cfg(sim, name, cfg):
    c = REG[name]
    return neighbour(sim, c.cfg, cfg, c.valid, "near cfg")


def draw_spec(sim, name, cfg):
    c = REG[name]
    return draw(sim, c.spec, lambda s: c.ok_spec(cfg, s), "call")


def near_spec(sim, name, cfg, spec):
    c = REG[name]
    return neighbour(sim, c.spec, spec, lambda s: c.ok_spec(cfg, s), "near call")


# ---------------------------------------------------------------- structures
def leaves(x, path=""):
    if isinstance(x, torch.Tensor):
        yield path, x
    elif isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], f"{path}.{k}")
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, f"{path}[{i}]")


def clone(x):
    if isinstance(x, torch.Tensor):
        return x.detach().clone()
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(clone(v) for v in x)
    return x


def diff(a, b, tol=1e-5, floor=0.0):
    """None if equal up to tol relative to the largest value (or to ``floor``), else a description."""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)):
            return f"kind {type(a).__name__} vs {type(b).__name__}"
        if a.shape != b.shape:
            return f"shape {tuple(a.shape)} vs {tuple(b.shape)}"
        if a.dtype != b.dtype:
            return f"dtype {a.dtype} vs {b.dtype}"
        a, b = a.detach(), b.detach()
        if a.numel() == 0:
            return None
        if a.dtype == torch.bool or not (a.is_floating_point() or a.is_complex()):
            return None if torch.equal(a, b) else "values differ"
        if a.is_complex():
            a, b = torch.view_as_real(a), torch.view_as_real(b)
        fa, fb = a.isfinite(), b.isfinite()
        if not torch.equal(a.isnan(), b.isnan()):
            return "NaN in different places"
        if not torch.equal(fa, fb) or not torch.equal(torch.where(fa, 0, a).nan_to_num(9.0), torch.where(fb, 0, b).nan_to_num(9.0)):
            return "infinities in different places"
        ok = fa
        if not bool(ok.any()):
            return None
        d = (a[ok].double() - b[ok].double()).abs().max().item()
        s = b[ok].double().abs().max().item()
        return None if d <= tol * max(s, floor) + 1e-300 else f"differs by {d:.3g} (scale {s:.3g})"
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f"keys {list(a)} vs {list(b)}"
        for k in a:
            r = diff(a[k], b[k], tol, floor)
            if r:
                return f"[{k}] {r}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b, strict=True)):
            r = diff(x, y, tol, floor)
            if r:
                return f"[{i}] {r}"
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if a == b or abs(a - b) <= tol * abs(b) or (a != a and b != b) else f"{a} vs {b}"
    return None if a == b else f"{a!r} vs {b!r}"


def invoke(name, obj, args, seed=None):
    c = REG[name]
    if c.rng and seed is not None:
        from . import rngseam
        rngseam.seed_all(seed)
    return c.call(obj, args)


def pristine_handler(req):
    """What a fresh process answers: build, call, return."""
    name, cfg, args, seed = req
    obj = build(name, cfg)
    return clone(invoke(name, obj, args, seed))
