"""D08: concurrent, interleaved and abandoned iterations never disturb each other."""
import torch

from .. import dl, rngseam, sched
from ..core import Violation
from .D07 import Mem

PROPERTY = "D08"
RULE = "one evaluation = one simulated run (loader, consumers, interleaving, abandonments); distinct = different history digest"
REAL = ["ml4gw.dataloading loaders", "h5py/HDF5 on real scratch files", "real Python threads"]
STUB = ["thread scheduling: one thread at a time, preempted at seeded statement/operator boundaries", "chunk source"]
QUICK, THOROUGH = 3000, 50000


class MemLoader:
    """In-memory loader plus the oracle for one iteration of it."""

    def __init__(self, sim):
        self.m = Mem(sim, maxT=24)
        sim.log("memory", self.m.describe())
        self.ds = self.m.build()
        self.total = self.m.nbatches

    def new(self):
        wins = []

        def item(i, x):
            wins.extend(self.m.starts(x, i, "D08"))

        def end():
            self.m.check_epoch(wins, "D08")
        return item, end


class ChunkLoader:
    def __init__(self, sim):
        from ml4gw.dataloading import ChunkedTimeSeriesDataset

        k = self.k = sim.between(1, 4, "kernel")
        vary = sim.flip(0.4, "vary")
        base = (sim.between(1, 3, "rows"), sim.between(1, 3, "channels"), k + sim.between(1, 10, "extra"))
        self.sh = [base if not vary else (sim.between(1, 3, "rows"), base[1], k + sim.between(1, 10, "extra"))
                   for _ in range(sim.between(1, 3, "chunks"))]
        self.batch, self.bpc = sim.between(1, 3, "batch"), sim.between(1, 3, "per chunk")
        self.co = not sim.flip(0.5, "non-coincident")
        self.sim = sim
        chunks = [dl.make_chunk(i, *s) for i, s in enumerate(self.sh)]
        self.ds = ChunkedTimeSeriesDataset(chunks, k, self.batch, self.bpc, self.co)
        self.total = len(self.sh) * self.bpc
        sim.log("chunked", self.sh, k, self.batch, self.bpc, self.co)

    def new(self):
        def item(i, x):
            j = i // self.bpc
            self.sim.check(j < len(self.sh), "D08:too-many", "more batches than chunks provide")
            dl.check_chunk_batch(self.sim, x, j, self.sh[j], self.batch, self.k, self.co, "D08")
        return item, lambda: None


class FileLoader:
    def __init__(self, sim):
        self.k = sim.between(1, 4, "kernel")
        self.files = dl.Files(sim, self.k, max_files=3, max_extra=12)
        self.chans = self.files.pick_channels()
        self.batch = sim.between(1, 4, "batch")
        self.total = sim.between(1, 4, "batches per epoch")
        self.mode = sim.pick(dl.MODES, "mode")
        self.nfpb = sim.pick([None] + list(range(1, len(self.files) + 1)), "nfpb")
        self.sim = sim
        self.ds = dl.make_hdf5(sim, self.files, self.k, self.batch, self.total, self.chans, self.mode, self.nfpb)
        sim.log("file", self.files.lengths, self.chans, self.k, self.batch, self.total, self.mode, self.nfpb)

    def new(self):
        limit = self.nfpb or len(self.files)

        def item(i, x):
            got = self.files.check_batch(x, self.chans, self.batch, self.k, "D08")
            used = {f for r in got for f, _ in r}
            self.sim.check(len(used) <= limit, "D08:file-budget", lambda: f"{len(used)} files in a batch, limit {limit}")
            if self.mode is True:
                for r in got:
                    self.sim.check(len(set(r)) == 1, "D08:not-coincident", lambda: f"{r}")
            elif self.mode == "files":
                for r in got:
                    self.sim.check(len({f for f, _ in r}) == 1, "D08:files-differ", lambda: f"{r}")
        return item, lambda: None


def make(sim):
    kind = sim.choose(3, "loader")
    rngseam.seed_all(sim.data_seed())
    return (MemLoader, ChunkLoader, FileLoader)[kind](sim)


def visible(ds):
    """Digest of loader attributes that later iterations can see."""
    out = {}
    for k, v in vars(ds).items():
        if torch.is_tensor(v):
            out[k] = (tuple(v.shape), v.double().sum().item())
        elif isinstance(v, (int, float, bool, str, type(None), tuple)):
            out[k] = v
    return out


def consume(sim, ld, it, item, end, limit=None, tag=""):
    n = 0
    for x in it:
        sim.check(n < ld.total, "D08:too-many", lambda: f"{tag}: more than {ld.total} batches")
        item(n, x)
        n += 1
        if limit is not None and n >= limit:
            return n
    sim.check(n == ld.total, "D08:count", lambda: f"{tag}: {n} batches, expected {ld.total}")
    end()
    return n


def interleaved(sim):
    """Several generators over one loader, stepped in a seeded order."""
    ld = make(sim)
    live = []
    nc = sim.between(2, 4, "consumers")
    for i in range(nc):
        item, end = ld.new()
        live.append([i, iter(ld.ds), item, end, 0])
    while live:
        c = live[sim.choose(len(live), "sched:consumer")]
        sim.sched_sig.update(b"%d," % c[0])
        if sim.flip(0.04, "abandon"):
            sim.fault("iteration-abandoned", f"consumer {c[0]} after {c[4]}")
            if sim.flip(0.5, "close"):
                c[1].close()
            live.remove(c)
            continue
        if len(live) < 5 and sim.flip(0.04, "join"):
            item, end = ld.new()
            live.append([nc, iter(ld.ds), item, end, 0])
            nc += 1
        try:
            x = next(c[1])
        except StopIteration:
            sim.check(c[4] == ld.total, "D08:count", lambda: f"consumer {c[0]}: {c[4]} batches, expected {ld.total}")
            c[3]()
            live.remove(c)
            continue
        sim.check(c[4] < ld.total, "D08:too-many", lambda: f"consumer {c[0]}: more than {ld.total} batches")
        c[2](c[4], x)
        c[4] += 1
        sim.steps += 1
    sim.count("sched:consumers", nc)
    item, end = ld.new()
    consume(sim, ld, ld.ds, item, end, tag="later epoch")


def threads(sim):
    """Several threads iterate one loader; preemption inside the loader code."""
    ld = make(sim)
    s = sched.Scheduler(sim)
    for i in range(sim.between(2, 3, "threads")):
        item, end = ld.new()
        lim = sim.between(1, max(1, ld.total), "abandon after") if sim.flip(0.2, "abandon") else None

        def body(item=item, end=end, lim=lim, i=i):
            return consume(sim, ld, iter(ld.ds), item, end, lim, f"thread {i}")
        s.spawn(f"t{i}", body)
    for t in s.run():
        if t.error is not None:
            if isinstance(t.error, Violation):
                raise t.error
            sim.check(False, "D08:thread-error", f"{t.name}: {type(t.error).__name__}: {t.error}")
        sim.log(t.name, "delivered", t.result, "steps", t.steps)
    item, end = ld.new()
    consume(sim, ld, ld.ds, item, end, tag="later epoch")


SCENARIOS = {"interleaved": (interleaved, 1), "threads": (threads, 1)}
