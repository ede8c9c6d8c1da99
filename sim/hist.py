"""Shared pieces of the component-history properties."""
import contextlib
import os

import numpy as np
import torch

from . import catalog as C
from . import faults, pristine

MODES = ["grad", "no_grad", "inference"]


@contextlib.contextmanager
def ambient(mode, default="f32"):
    """The caller's autograd mode and default precision during one call."""
    old = torch.get_default_dtype()
    torch.set_default_dtype(C.DT[default])
    cm = {"grad": torch.enable_grad, "no_grad": torch.no_grad, "inference": torch.inference_mode}[mode]()
    try:
        with cm:
            yield
    finally:
        torch.set_default_dtype(old)


def settings():
    """Process-wide settings a call must leave as it found them."""
    return {
        "grad mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(), "default dtype": torch.get_default_dtype(),
        "default device": str(torch.get_default_device()), "deterministic": torch.are_deterministic_algorithms_enabled(),
        "anomaly detection": torch.is_anomaly_enabled(), "autocast": torch.is_autocast_enabled("cpu"),
        "matmul precision": torch.get_float32_matmul_precision(), "threads": torch.get_num_threads(),
        "flush denormal": torch.tensor([1e-310], dtype=torch.float64).mul(1.0).item() == 0.0,
        "numpy errors": tuple(sorted(np.geterr().items())), "working directory": os.getcwd(),
        "distribution validation": torch.distributions.Distribution._validate_args,
    }


class Call:
    """One call, in a form any process can rebuild."""

    def __init__(self, name, cfg, spec, seed, B, mode="no_grad", default="f32", bad=None, call_seed=0):
        self.__dict__.update(name=name, cfg=cfg, spec=spec, seed=seed, B=B, mode=mode, default=default, bad=bad, call_seed=call_seed)

    def args(self):
        a = C.REG[self.name].args(self.cfg, self.spec, C.gen(self.seed), self.B)
        if self.bad is not None:
            damage(a, self.bad)
        return a

    leak = None

    def run(self, obj, a):
        with ambient(self.mode, self.default):
            before = settings()
            try:
                return C.invoke(self.name, obj, a, self.call_seed)
            finally:
                after = settings()
                self.leak = [f"{k}: {before[k]} -> {after[k]}" for k in before if before[k] != after[k]]

    def __str__(self):
        return f"{self.name} {self.cfg} {self.spec} B={self.B} {self.mode}/{self.default}" + (f" bad={self.bad}" if self.bad else "")


BAD = ["short", "extra-dim", "int", "empty", "drop-dim", "channels", "none"]


def damage(a, bad):
    """Turn good arguments into ones that (mostly) must be rejected."""
    which, how = bad
    keys = [k for k, v in a.items() if isinstance(v, torch.Tensor)]
    if not keys:
        return
    k = keys[which % len(keys)]
    t = a[k]
    if how == "short":
        a[k] = t[..., : max(1, t.shape[-1] // 2)] if t.ndim else t
    elif how == "extra-dim":
        a[k] = t[None]
    elif how == "int":
        a[k] = (t.real * 10).long()
    elif how == "empty":
        a[k] = t[..., :0] if t.ndim else t
    elif how == "drop-dim":
        a[k] = t[0] if t.ndim else t
    elif how == "channels":
        a[k] = torch.cat([t, t], 1) if t.ndim > 1 else torch.cat([t, t])
    else:
        a[k] = None


def handler(call):
    obj = C.build(call.name, call.cfg)
    a = call.args()
    return C.clone(call.run(obj, a))


def fresh(call):
    """("ok", result) or ("err", ...) from a process that did nothing else."""
    return pristine.ask(call)


def attempt(call, obj, a, fault=None):
    """Run a call; returns ("ok", result) or ("err", type name, message)."""
    try:
        if fault is None:
            return ("ok", call.run(obj, a))
        with fault:
            return ("ok", call.run(obj, a))
    except faults.ERRORS as e:
        return ("oom", type(e).__name__, str(e))
    except Exception as e:  # noqa: BLE001 - outcome is compared, not hidden
        return ("err", type(e).__name__, str(e)[:300])


def count_allocs(call, obj, a):
    f = faults.AllocFault(None)
    attempt(call, obj, a, f)
    return f.n


def detached(x):
    return C.clone(x)


def refill(old, new):
    """Write new data into the caller's old argument buffers where they fit."""
    if isinstance(old, torch.Tensor) and isinstance(new, torch.Tensor):
        if old.shape == new.shape and old.dtype == new.dtype and not old.is_inference():
            with torch.no_grad():
                old.copy_(new)
            return old
        return new
    if isinstance(old, dict) and isinstance(new, dict):
        return {k: refill(old.get(k), v) for k, v in new.items()}
    return new
