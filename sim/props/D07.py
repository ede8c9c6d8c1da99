"""D07: in-memory epochs cover, order, size and align windows exactly."""
import itertools

import torch

from .. import rngseam

PROPERTY = "D07"
RULE = "one evaluation = one simulated run (configuration, random outcomes, repeated epochs); distinct = different history digest"
REAL = ["ml4gw.dataloading.InMemoryDataset", "ml4gw.utils.slicing.slice_kernels"]
STUB = ["random source outcomes may be replaced by legal extremes"]
QUICK, THOROUGH = 6000, 120000


class Mem:
    def __init__(self, sim, maxT=60):
        self.sim = sim
        self.C = sim.between(1, 4, "channels")
        self.T = sim.between(1, maxT, "length")
        self.k = sim.between(1, min(self.T, 12), "kernel")
        self.stride = sim.between(1, 6, "stride")
        self.nk = (self.T - self.k) // self.stride + 1
        self.batch = sim.between(1, 9, "batch")
        self.coincident = not sim.flip(0.4, "non-coincident")
        self.shuffle = not sim.flip(0.5, "ordered")
        self.bpe = None
        limited = not self.coincident or sim.flip(0.4, "limit?")
        # without a limit, a batch may ask for more windows than there are
        if self.nk < self.batch and limited:
            self.batch = sim.between(1, self.nk, "batch")
        if limited:
            self.bpe = sim.between(1, max(1, self.nk // self.batch), "batches per epoch")
        self.with_y = self.coincident and sim.flip(0.5, "targets?")
        self.X = (1 + torch.arange(self.C).view(-1, 1) * 4096 + torch.arange(self.T)).float()
        if sim.flip(0.2, "non-contiguous X"):
            self.X = self.X.t().contiguous().t()
        self.y = None
        if self.with_y:
            self.y = (1 + 5 * 4096 + torch.arange(self.T)).to(sim.pick([torch.float32, torch.float64, torch.int64], "y dtype"))

    def build(self):
        from ml4gw.dataloading import InMemoryDataset

        return InMemoryDataset(self.X, self.k, self.y, self.batch, self.stride, self.bpe, self.coincident, self.shuffle)

    @property
    def nbatches(self):
        return self.bpe if self.bpe is not None else -(-self.nk // self.batch)

    def describe(self):
        return (f"C={self.C} T={self.T} kernel={self.k} stride={self.stride} batch={self.batch} bpe={self.bpe} "
                f"coincident={self.coincident} shuffle={self.shuffle} y={self.with_y}")

    def starts(self, item, i, key):
        """Validate one batch; return the window index (per channel) of each element."""
        sim = self.sim
        if self.with_y:
            sim.check(isinstance(item, tuple | list) and len(item) == 2, key + ":pair", "expected (inputs, targets)")
            X, y = item
        else:
            X, y = item, None
            sim.check(torch.is_tensor(X), key + ":type", f"batch is {type(X)}")
        n = self.batch
        if self.bpe is None and i == self.nbatches - 1:
            n = self.nk - i * self.batch
        sim.check(tuple(X.shape) == (n, self.C, self.k), key + ":shape",
                  lambda: f"batch {i} has shape {tuple(X.shape)}, expected {(n, self.C, self.k)} [{self.describe()}]")
        first = X[:, :, 0].double() - 1
        c = torch.div(first, 4096, rounding_mode="floor")
        t = first - c * 4096
        sim.check(bool((c == torch.arange(self.C)).all()), key + ":wrong-channel", lambda: f"batch {i}: channels {c[:3].tolist()}")
        want = X[:, :, :1] + torch.arange(self.k)
        sim.check(bool((X == want).all()), key + ":not-contiguous", lambda: f"batch {i}: window {X[0, 0, :10].tolist()}")
        sim.check(bool(((t >= 0) & (t + self.k <= self.T)).all()), key + ":outside", lambda: f"batch {i}: starts {t.tolist()}")
        sim.check(bool((t % self.stride == 0).all()), key + ":off-grid", lambda: f"batch {i}: starts {t.tolist()} stride {self.stride}")
        if self.coincident:
            sim.check(bool((t == t[:, :1]).all()), key + ":not-coincident", lambda: f"batch {i}: {t.tolist()}")
        if y is not None:
            sim.check(tuple(y.shape) == (n, self.k) and y.dtype == self.y.dtype, key + ":target-shape", lambda: f"{tuple(y.shape)} {y.dtype}")
            wy = (1 + 5 * 4096 + t[:, :1].long() + torch.arange(self.k)).to(self.y.dtype)
            sim.check(bool((y == wy).all()), key + ":misaligned", lambda: f"batch {i}: targets start {y[:, 0].tolist()} inputs start {t[:, 0].tolist()}")
        return [tuple(int(v) // self.stride for v in row) for row in t.tolist()]

    def check_epoch(self, wins, key, extremes=False):
        """wins: window indices per element over a whole epoch."""
        sim = self.sim
        total = self.nk if self.bpe is None else self.batch * self.bpe
        sim.check(len(wins) == total, key + ":count", lambda: f"{len(wins)} windows in epoch, expected {total} [{self.describe()}]")
        if self.coincident:
            seq = [w[0] for w in wins]
            sim.check(len(set(seq)) == len(seq), key + ":repeated", lambda: f"window repeated within an epoch: {seq} [{self.describe()}]")
            if self.bpe is None:
                sim.check(sorted(seq) == list(range(self.nk)), key + ":coverage", lambda: f"windows {sorted(seq)} of {self.nk}")
            if not self.shuffle:
                sim.check(seq == list(range(total)), key + ":order", lambda: f"ordered iteration gave {seq}")
        elif not self.shuffle:
            want = list(itertools.islice(itertools.product(*[range(self.nk)] * self.C), total))
            sim.check(wins == want, key + ":order", lambda: f"ordered non-coincident iteration gave {wins[:6]}, expected {want[:6]}")


def run(sim):
    m = Mem(sim)
    sim.log(m.describe())
    rngseam.seed_all(sim.data_seed())
    ds = m.build()
    sim.check(len(ds) == m.nbatches, "D07:len", lambda: f"reported {len(ds)} batches, expected {m.nbatches} [{m.describe()}]")
    xcopy = m.X.clone()
    with rngseam.Extremes(sim, p=0.4):
        for ep in range(sim.between(1, 3, "epochs")):
            wins = []
            for i, item in enumerate(ds):
                sim.check(i < m.nbatches, "D07:too-many", lambda: f"more than {m.nbatches} batches [{m.describe()}]")
                wins += m.starts(item, i, "D07")
                sim.steps += 1
            sim.log("epoch", ep, wins[:12])
            m.check_epoch(wins, "D07")
            sim.check(len(ds) == m.nbatches, "D07:len", "reported length changed")
    sim.check(torch.equal(m.X, xcopy), "D07:input-changed", "the source series was modified")


def shuffled(sim):
    """Ordinary draws over many windows: shuffling really reorders, between epochs too,
    and non-coincident channels really differ."""
    m = Mem(sim, maxT=60)
    m.T, m.k, m.stride = 64 + sim.choose(60, "T"), sim.between(1, 5, "k"), 1
    m.C = sim.between(1, 3, "C")
    m.nk = m.T - m.k + 1
    m.shuffle = True
    m.batch = 16
    m.bpe = None if m.coincident else 3
    m.with_y = False
    m.y = None
    m.X = (1 + torch.arange(m.C).view(-1, 1) * 4096 + torch.arange(m.T)).float()
    rngseam.seed_all(sim.data_seed())
    ds = m.build()
    eps = []
    for _ in range(2):
        wins = []
        for i, item in enumerate(ds):
            wins += m.starts(item, i, "D07")
        m.check_epoch(wins, "D07")
        eps.append(wins)
    # identical or sorted by chance: probability < 1/50!
    sim.check(eps[0] != eps[1], "D07:same-order", "two shuffled epochs came in the same order")
    sim.check(eps[0] != sorted(eps[0]), "D07:not-shuffled", "shuffled epoch came in time order")
    if not m.coincident:
        for j in range(1, m.C):
            sim.check(any(w[0] != w[j] for w in eps[0]), "D07:times-tied", "independent channels always share times")


SCENARIOS = {"epochs": (run, 6), "shuffled": (shuffled, 1)}
