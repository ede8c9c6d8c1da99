"""Reference models and generators shared by the streaming properties."""
import io

import torch


def ints(seed, *shape, hi=4000):
    """Exactly representable values in (-hi, hi)."""
    g = torch.Generator().manual_seed(seed)
    return torch.randint(-hi, hi, shape, generator=g).float()


def spoil(sim, X):
    """Bad samples in the stream: they may only affect what covers them."""
    if X.shape[-1] and sim.flip(0.25, "bad samples"):
        for _ in range(sim.between(1, 3, "how many")):
            v = sim.pick([float("nan"), float("inf"), float("-inf"), 0.0], "bad value")
            flat = X.view(-1)
            flat[sim.choose(flat.numel(), "where")] = v
        sim.fault("bad-samples")
    return X


def same(a, b):
    """Exact equality, NaN equal to NaN."""
    return a.shape == b.shape and a.dtype == b.dtype and bool(((a == b) | (a.isnan() & b.isnan())).all())


def close(a, b, rtol=1e-5, atol=1e-5):
    if a.shape != b.shape:
        return False
    if not bool((a.isnan() == b.isnan()).all()):
        return False
    inf = a.isinf() | b.isinf()
    if not bool((a[inf] == b[inf]).all()):
        return False
    ok = ~(a.isnan() | inf)
    scale = b[ok].abs().max() if bool(ok.any()) else 0.0
    return bool(((a[ok] - b[ok]).abs() <= rtol * b[ok].abs() + atol * (1 + scale)).all())


def roundtrip(obj):
    """Durable storage: what survives a crash is bytes."""
    buf = io.BytesIO()
    torch.save(obj, buf)
    return torch.load(io.BytesIO(buf.getvalue()))


def composition(sim, n):
    """Random split of n into positive parts."""
    parts = []
    while n:
        k = sim.between(1, n, "part")
        parts.append(k)
        n -= k
    return parts


class SnapConf:
    def __init__(self, sim, max_size=24, max_batch=6, wide=False):
        self.channels = sim.between(1, 4, "channels")
        self.size = sim.between(2, max_size, "snapshot size")
        self.stride = sim.between(1, self.size - 1, "stride")
        self.split = None
        if sim.flip(0.5, "split"):
            self.split = composition(sim, self.channels)
            if sim.flip(0.3, "tuple"):
                self.split = tuple(self.split)
        if wide and sim.flip(0.05, "wide"):
            self.size = sim.between(65, 300, "snapshot size")
            self.stride = sim.between(1, self.size - 1, "stride")
        self.state_size = self.size - self.stride
        self.max_batch = max_batch

    def build(self, batch):
        from ml4gw.nn.streaming import Snapshotter

        split = list(self.split) if isinstance(self.split, list) else self.split
        return Snapshotter(self.channels, self.size, self.stride, batch, split)

    def window(self, full, n):
        """n-th window of the zero-prefixed stream."""
        return full[:, n * self.stride: n * self.stride + self.size]

    def prefixed(self, X):
        return torch.cat([torch.zeros(self.channels, self.state_size, dtype=X.dtype), X], -1)

    def expect(self, full, n, batch):
        w = torch.stack([self.window(full, n + i) for i in range(batch)])
        state = full[:, (n + batch) * self.stride: (n + batch) * self.stride + self.state_size]
        outs = torch.split(w, list(self.split), dim=1) if self.split is not None else (w,)
        return list(outs), state

    def __str__(self):
        return f"ch={self.channels} size={self.size} stride={self.stride} split={self.split}"


class AvgConf:
    def __init__(self, sim, max_updates=5, max_update=6, wide=False):
        if wide and sim.flip(0.06, "wide"):
            max_updates, max_update = sim.pick([(20, 3), (6, 40), (40, 2)], "how wide")
        self.channels = sim.between(1, 3, "channels")
        self.update = sim.between(1, max_update, "update size")
        self.num = sim.between(1, max_updates, "num updates")
        self.offset = sim.pick([None, 0, 1, 2, 5], "offset")
        self.extra = sim.pick([0, 0, 1, 4], "leading extra")

    @property
    def K(self):
        return self.num * self.update + (self.offset or 0) + self.extra

    @property
    def state_size(self):
        return (self.num - 1) * self.update

    def build(self, batch):
        from ml4gw.nn.streaming import OnlineAverager

        return OnlineAverager(self.update, batch, self.num, self.channels, self.offset)

    def used(self, p):
        """The part of one prediction (channels, K) that gets averaged."""
        end = self.K - (self.offset or 0)
        return p[:, end - self.num * self.update: end]

    def block(self, preds, n):
        """Averaged samples of output step n, from predictions 0..n."""
        s, U = self.update, self.num
        out = torch.zeros(self.channels, s, dtype=torch.float64)
        for m in range(max(0, n - U + 1), n + 1):
            x = self.used(preds[m]).double()
            j = n - m
            out = out + x[:, j * s:(j + 1) * s] / U
        return out

    def state(self, preds, n):
        """State after predictions 0..n-1: partial sums of the steps to come."""
        s, U = self.update, self.num
        out = torch.zeros(self.channels, self.state_size, dtype=torch.float64)
        for k in range(U - 1):            # future step n + k
            for m in range(max(0, n + k - U + 1), n):
                x = self.used(preds[m]).double()
                j = n + k - m
                out[:, k * s:(k + 1) * s] += x[:, j * s:(j + 1) * s] / U
        return out

    def __str__(self):
        return f"ch={self.channels} update={self.update} num={self.num} offset={self.offset} K={self.K}"
