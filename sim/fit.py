"""Life histories of transforms that must be fitted before use."""
import io

import torch

from . import catalog as C
from . import faults

NAMES = ["FixedWhiten", "ChannelWiseScaler", "SnrRescaler"]
FIT_KEYS = {"FixedWhiten": ("fduration", "fftlength", "overlap", "highpass", "lowpass", "data"), "ChannelWiseScaler": ("std_reg", "data", "scale"),
            "SnrRescaler": ("fftlength", "overlap", "data", "scale")}


def draw(sim):
    name = sim.pick(NAMES, "transform")
    return name, C.draw_cfg(sim, name)


def refit_cfg(sim, name, cfg):
    c = dict(cfg)
    if sim.flip(0.25, "almost the same fit"):
        # everything as last time but for one setting, or the data's amplitude
        k = sim.pick(FIT_KEYS[name] + ("scale",) * 3, "only")
        c[k] = sim.pick(C.REG[name].cfg[k], "fit " + k)
        return c
    for k in FIT_KEYS[name]:
        c[k] = sim.pick(C.REG[name].cfg[k], "fit " + k)
    c["data"] = sim.choose(50, "fit data")
    return c


def bare(name, cfg):
    obj = C.REG[name].make(cfg)
    obj.eval()
    return obj


def fit(obj, name, cfg):
    a, k = C.REG[name].fit_args(cfg)
    obj.fit(*a, **k)


def fitted(name, cfg):
    obj = bare(name, cfg)
    fit(obj, name, cfg)
    return obj


def bad_fit_args(sim, name, cfg):
    """Arguments a fit must refuse: data of the wrong number or shape."""
    a, k = C.REG[name].fit_args(cfg)
    a = list(a)
    if name == "ChannelWiseScaler":
        x = a[0]
        how = sim.choose(4, "bad fit")
        if how == 0:
            a[0] = x[None] if x.ndim == 2 else x[None, None]
        elif how == 1:
            a[0] = x[0] if x.ndim == 2 else x[None]
        elif how == 2:
            a[0] = torch.cat([x, x]) if x.ndim == 2 else x[None, None]
        else:
            k["std_reg"] = None
        return a, k
    how = sim.choose(5, "bad fit")
    if how == 0:
        a = a[:-1]
    elif how == 1:
        a = a + [a[-1]]
    elif how == 2:
        a[-1] = None
    elif how == 3:
        # the last channel only: everything before it has already been processed
        k["fftlength"] = 1
        a[-1] = torch.zeros(3)
    else:
        k["fftlength"] = 50
    return a, k


def try_fit(obj, a, k, alloc=None):
    """None if the fit completed, else the error."""
    f = faults.AllocFault(alloc)
    try:
        with f:
            obj.fit(*a, **k)
        return None, f
    except Exception as e:  # noqa: BLE001 - a failing fit is an expected event here
        return e, f


def snapshot_bytes(sd):
    b = io.BytesIO()
    torch.save(sd, b)
    return b.getvalue()


def use(obj, name, cfg, spec, seed, B=2):
    """("ok", output) or ("refused"/"err", message)."""
    a = C.REG[name].args(cfg, spec, C.gen(seed), B)
    try:
        return ("ok", C.clone(C.REG[name].call(obj, a)))
    except ValueError as e:
        return ("refused" if "fit" in str(e).lower() else "err", str(e))
    except Exception as e:  # noqa: BLE001
        return ("err", f"{type(e).__name__}: {e}")


def handler(req):
    """A fresh process's answer for a transform given only its last fit."""
    name, cfg, spec, seed, B = req
    return use(fitted(name, cfg), name, cfg, spec, seed, B)
