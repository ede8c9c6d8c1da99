"""Random-source seam.

All of ml4gw's randomness comes from torch's and numpy's global generators.
The simulator seeds both, and may replace any draw by another outcome the
generator could legally have produced: the smallest, the largest, or a mix.
"""
import random

import numpy as np

_np_real = {}
_active = None


def seed_all(seed):
    import torch

    torch.manual_seed(seed)
    np.random.seed(seed % (2**32))
    random.seed(seed)


def get_state():
    import torch

    return torch.get_rng_state().clone(), np.random.get_state(), random.getstate()


def set_state(s):
    import torch

    torch.set_rng_state(s[0])
    np.random.set_state(s[1])
    random.setstate(s[2])


def state_equal(a, b):
    import torch

    return (bool(torch.equal(a[0], b[0])) and a[1][0] == b[1][0]
            and bool((a[1][1] == b[1][1]).all()) and a[1][2:] == b[1][2:] and a[2] == b[2])


class Extremes:
    """Context in which random draws may take extreme but legal outcomes."""

    def __init__(self, sim, p=0.5, force=None):
        self.sim = sim
        self.p = p
        self.force = force
        self.mode = None

    # 0 = leave, 1 = all low, 2 = all high, 3 = mixed low/high/ordinary, 4 = alternate
    def _kind(self, what):
        if self.force is not None:
            k = self.force
        else:
            if not self.sim.flip(self.p, "rng:" + what):
                return 0
            k = 1 + self.sim.choose(4, "rng:kind")
        if k:
            self.sim.count("rng-extreme:" + what)
        return k

    def masks(self, kind, shape, numel):
        if kind == 1:
            return np.zeros(shape, int)
        if kind == 2:
            return np.ones(shape, int)
        if kind == 4:
            return (np.arange(numel) % 2).reshape(shape)
        r = np.random.RandomState(self.sim.choose(2**31 - 1, "rng:mix"))
        return r.randint(0, 3, size=shape)   # 0 low, 1 high, 2 ordinary

    def __enter__(self):
        global _active
        import torch
        from torch.utils._python_dispatch import TorchDispatchMode

        outer = self

        class Mode(TorchDispatchMode):
            def __torch_dispatch__(self, func, types, args=(), kwargs=None):
                kwargs = kwargs or {}
                out = func(*args, **kwargs)
                name = func._schema.name
                if name in _TORCH:
                    return _TORCH[name](outer, out, args, kwargs, func)
                return out

        _active = self
        self.mode = Mode()
        self.mode.__enter__()
        return self

    def __exit__(self, *exc):
        global _active
        _active = None
        return self.mode.__exit__(*exc)


def _fill(out, mask, low, high):
    import torch

    m = torch.from_numpy(np.ascontiguousarray(mask)).reshape(out.shape)
    lo = torch.full_like(out, low)
    hi = torch.full_like(out, high)
    res = torch.where(m == 0, lo, torch.where(m == 1, hi, out))
    out.copy_(res)
    return out


def _top(dtype):
    import torch

    return 1 - 2.0**-24 if dtype == torch.float32 else (1 - 2.0**-53 if dtype == torch.float64 else 1 - 2.0**-8)


def _t_rand(ex, out, args, kwargs, func):
    k = ex._kind("rand") if out.numel() else 0
    if not k:
        return out
    return _fill(out, ex.masks(k, tuple(out.shape), out.numel()), 0.0, _top(out.dtype))


def _t_uniform(ex, out, args, kwargs, func):
    import torch

    k = ex._kind("uniform") if out.numel() else 0
    if not k:
        return out
    lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
    hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
    top = torch.tensor(_top(out.dtype), dtype=out.dtype)
    hv = float(top * (hi - lo) + lo)
    return _fill(out, ex.masks(k, tuple(out.shape), out.numel()), lo, hv)


def _t_randn(ex, out, args, kwargs, func):
    k = ex._kind("randn") if out.numel() and not out.is_complex() else 0
    if not k:
        return out
    return _fill(out, ex.masks(k, tuple(out.shape), out.numel()), -5.0, 5.0)


def _t_randint(ex, out, args, kwargs, func):
    k = ex._kind("randint") if out.numel() else 0
    if not k:
        return out
    names = [a.name for a in func._schema.arguments]
    got = dict(zip(names, args))
    got.update(kwargs)
    low = int(got.get("low", 0))
    high = int(got["high"])
    return _fill(out, ex.masks(k, tuple(out.shape), out.numel()), low, high - 1)


def _t_randperm(ex, out, args, kwargs, func):
    import torch

    k = ex._kind("randperm") if out.numel() > 1 else 0
    if not k:
        return out
    n = out.numel()
    ident = torch.arange(n, dtype=out.dtype)
    if k == 1:
        out.copy_(ident)
    elif k == 2:
        out.copy_(ident.flip(0))
    elif k == 4:
        out.copy_(ident.roll(1))
    return out


_TORCH = {
    "aten::rand": _t_rand, "aten::rand_like": _t_rand, "aten::uniform_": _t_uniform,
    "aten::randn": _t_randn, "aten::randn_like": _t_randn,
    "aten::randint": _t_randint, "aten::randint_like": _t_randint, "aten::randperm": _t_randperm,
}


def install_numpy():
    """Route numpy's global draws through the seam (pass-through unless active)."""
    for name in ("randint", "choice", "random", "rand", "random_sample", "permutation", "uniform"):
        _np_real[name] = getattr(np.random, name)

    def randint(low, high=None, size=None, dtype=int):
        out = _np_real["randint"](low, high, size, dtype)
        ex = _active
        if ex is None:
            return out
        k = ex._kind("np.randint")
        if not k:
            return out
        lo, hi = (0, low) if high is None else (low, high)
        if np.ndim(lo) or np.ndim(hi):
            return out
        m = ex.masks(k, np.shape(out), int(np.size(out)))
        res = np.where(m == 0, lo, np.where(m == 1, hi - 1, out))
        return res.astype(np.asarray(out).dtype) if np.ndim(out) else int(res)

    def choice(a, size=None, replace=True, p=None):
        out = _np_real["choice"](a, size, replace, p)
        ex = _active
        if ex is None:
            return out
        k = ex._kind("np.choice")
        if not k:
            return out
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if p is not None:
            pool = pool[np.asarray(p) > 0]
        if np.ndim(out) == 0 or len(pool) == 0:
            return out
        n = int(np.size(out))
        if replace:
            m = ex.masks(k, (n,), n)
            flat = np.asarray(out).reshape(-1)
            res = np.array([pool[0] if v == 0 else (pool[-1] if v == 1 else o) for v, o in zip(m, flat)],
                           dtype=np.asarray(out).dtype)
            return res.reshape(np.shape(out))
        if n > len(pool):
            return out
        if k == 1:
            return pool[:n].astype(np.asarray(out).dtype).reshape(np.shape(out))
        if k == 2:
            return pool[::-1][:n].astype(np.asarray(out).dtype).reshape(np.shape(out))
        return out

    def floats(name):
        def f(*a, **kw):
            out = _np_real[name](*a, **kw)
            ex = _active
            if ex is None or not np.ndim(out):
                return out
            k = ex._kind("np." + name)
            if not k:
                return out
            m = ex.masks(k, np.shape(out), int(np.size(out)))
            return np.where(m == 0, 0.0, np.where(m == 1, 1 - 2.0**-53, out))
        return f

    np.random.randint = randint
    np.random.choice = choice
    for nm in ("random", "rand", "random_sample"):
        setattr(np.random, nm, floats(nm))


class Stratified:
    """Context in which uniform draws of torch take every value of an even grid
    once, in shuffled order: what many draws converge to, without the noise."""

    def __init__(self):
        self.sizes = []

    def __enter__(self):
        import torch
        from torch.utils._python_dispatch import TorchDispatchMode

        outer = self

        def grid(out):
            n = out.numel()
            outer.sizes.append(n)
            # numpy's own generator object: shuffles without touching the global state
            p = outer.rs.permutation(n)
            return torch.from_numpy((p + 0.5) / max(n, 1)).reshape(out.shape)

        class Mode(TorchDispatchMode):
            def __torch_dispatch__(self, func, types, args=(), kwargs=None):
                kwargs = kwargs or {}
                out = func(*args, **kwargs)
                name = func._schema.name
                if name in ("aten::rand", "aten::rand_like") and out.numel():
                    out.copy_(grid(out).to(out.dtype))
                elif name == "aten::uniform_" and out.numel():
                    lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
                    hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
                    out.copy_((grid(out) * (hi - lo) + lo).to(out.dtype))
                return out

        self.rs = np.random.RandomState(4711)
        self.mode = Mode()
        self.mode.__enter__()
        return self

    def __exit__(self, *exc):
        return self.mode.__exit__(*exc)
