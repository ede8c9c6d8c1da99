"""Shared machinery for the data-loading properties: provenance-encoded data
and decoders, simulated sources and simulated loader workers."""
import copy
import os
import pickle
import warnings

import numpy as np
import torch

from . import rngseam, storage

BASE_T = 2048        # per (file, channel) id space
NAMES = ["H1", "L1", "V1", "strain/K1", "aux"]


class Files:
    """A set of HDF5 files whose every sample encodes (file, channel, time)."""

    def __init__(self, sim, kernel, max_files=5, max_extra=60, equal=False, many=False):
        self.sim = sim
        self.kernel = kernel
        self.nchan_all = sim.between(1, len(NAMES), "channels on disk")
        nf = sim.between(1, max_files, "files")
        if many and sim.flip(0.06, "many files"):
            nf = sim.between(10, 13, "files")
        self.lengths = []
        base = sim.between(1, max_extra, "extra length")
        for i in range(nf):
            extra = base if equal else sim.between(1, max_extra, "extra length")
            self.lengths.append(kernel + extra)
        self.chunked = [not sim.flip(0.2, "contiguous storage") for _ in range(nf)]
        self.dtype = sim.pick(["float32", "float64", "int32"], "dtype")
        order = sim.between(0, 1, "file name order")
        names = [f"f{i if order == 0 else nf - i:02d}.h5" for i in range(nf)]
        if sim.flip(0.2, "same name in other directories"):
            names = [os.path.join(f"run{n[1:3]}", "data.h5") for n in names]
            for n in names:
                os.makedirs(os.path.join(sim.scratch, os.path.dirname(n)), exist_ok=True)
        self.paths = [os.path.join(sim.scratch, n) for n in names]
        self.current = {}
        for i in range(nf):
            self.write(i)

    def __len__(self):
        return len(self.paths)

    def values(self, i, c, n=None):
        n = self.lengths[i] if n is None else n
        return 1 + (i * len(NAMES) + c) * BASE_T + np.arange(n)

    def write(self, i, n=None, chans=None, chan_len=None):
        chans = range(self.nchan_all) if chans is None else chans
        n = self.lengths[i] if n is None else n
        lens = {c: (chan_len or {}).get(c, n) for c in chans}
        storage.write_file(self.paths[i], {NAMES[c]: self.values(i, c, lens[c]) for c in chans},
                           self.chunked[i], self.dtype)
        self.current[i] = lens

    def delete(self, i):
        os.unlink(self.paths[i])
        self.current[i] = {}

    def pick_channels(self):
        sim = self.sim
        k = sim.between(1, self.nchan_all, "channels used")
        pool = list(range(self.nchan_all))
        out = []
        for _ in range(k):
            out.append(pool.pop(sim.choose(len(pool), "channel")))
        return out

    def decode(self, v):
        """value -> (file, channel, time) or None."""
        v = float(v)
        if not np.isfinite(v) or v < 1 or v != int(v):
            return None
        v = int(v) - 1
        fc, t = divmod(v, BASE_T)
        f, c = divmod(fc, len(NAMES))
        if f >= len(self.paths) or c >= self.nchan_all:
            return None
        return f, c, t

    def check_batch(self, x, chans, batch, kernel, key):
        """Decode a batch; returns [[(file, time)] per channel] per element."""
        sim = self.sim
        sim.check(isinstance(x, torch.Tensor), key + ":type", f"batch is {type(x)}")
        sim.check(tuple(x.shape) == (batch, len(chans), kernel), key + ":shape",
                  f"batch shape {tuple(x.shape)}, expected {(batch, len(chans), kernel)}")
        arr = x.detach().cpu().double().numpy()
        out = []
        for b in range(batch):
            row = []
            for j, c in enumerate(chans):
                w = arr[b, j]
                d = self.decode(w[0])
                sim.check(d is not None, key + ":invented",
                          lambda: f"element {b} channel {j}: sample {w[0]} is not in any file (window {w[:8]}...)")
                f, cc, t = d
                sim.check(bool((w == w[0] + np.arange(kernel)).all()), key + ":not-contiguous",
                          lambda: f"element {b} channel {j}: not a contiguous stretch: {w[:10]}")
                sim.check(cc == c, key + ":wrong-channel",
                          lambda: f"element {b} row {j}: channel {NAMES[cc]} where {NAMES[c]} was requested")
                have = self.current.get(f, {}).get(c, 0)
                sim.check(t + kernel <= have, key + ":beyond-file",
                          lambda: f"element {b}: window [{t},{t + kernel}) of file {f} holding {have} samples")
                row.append((f, t))
            out.append(row)
        sim.log("batch", [[r for r in row] for row in out[:2]])
        sim.steps += 1
        return out


MODES = [True, "files", False]


def make_hdf5(sim, files, kernel, batch, bpe, chans, coincident, nfpb):
    from ml4gw.dataloading import Hdf5TimeSeriesDataset

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Hdf5TimeSeriesDataset(
            list(files.paths), [NAMES[c] for c in chans], kernel, batch, bpe, coincident,
            num_files_per_batch=nfpb,
        )


# -- chunk sources --------------------------------------------------------
CB = (8, 8, 8, 4096)     # bases for chunk(*), row, channel, time
MAXC = 8


def chunk_value(k, n, c, t):
    """float32-exact id of (chunk, row, channel, time); chunks count modulo 8."""
    return 1 + (((k % 8) * 8 + n) * 8 + c) * 4096 + t


def make_chunk(k, N, C, T, dtype=torch.float32, layout=0):
    n = torch.arange(N).view(N, 1, 1)
    c = torch.arange(C).view(1, C, 1)
    t = torch.arange(T).view(1, 1, T)
    x = (1 + (((k % 8) * 8 + n) * 8 + c) * 4096 + t).to(dtype)
    if layout == 1:      # non-contiguous view
        x = x.permute(2, 0, 1).contiguous().permute(1, 2, 0)
    elif layout == 2:
        x = torch.cat([x, x], dim=1)[:, :C]
    return x


def decode_chunk(v):
    v = float(v)
    if not np.isfinite(v) or v < 1 or v != int(v):
        return None
    v = int(v) - 1
    rest, t = divmod(v, 4096)
    rest, c = divmod(rest, 8)
    k, n = divmod(rest, 8)
    return k, n, c, t


def check_chunk_batch(sim, x, k, shape, batch, kernel, coincident, key):
    """x must be windows of chunk number k of the given shape."""
    N, C, T = shape
    sim.check(isinstance(x, torch.Tensor) and tuple(x.shape) == (batch, C, kernel), key + ":shape",
              f"batch shape {tuple(getattr(x, 'shape', ()))}, expected {(batch, C, kernel)}")
    arr = x.detach().double().numpy()
    out = []
    for b in range(batch):
        row = []
        for j in range(C):
            w = arr[b, j]
            d = decode_chunk(w[0])
            sim.check(d is not None, key + ":invented", lambda: f"element {b} channel {j}: value {w[0]} is in no chunk")
            kk, n, c, t = d
            sim.check(kk == k % 8, key + ":wrong-chunk", lambda: f"element {b}: from chunk {kk} while chunk {k} is being served")
            sim.check(c == j, key + ":wrong-channel", lambda: f"element {b} row {j}: data of channel {c}")
            sim.check(bool((w == w[0] + np.arange(kernel)).all()), key + ":not-contiguous",
                      lambda: f"element {b} channel {j}: window is not contiguous: {w[:10]}")
            sim.check(n < N and t + kernel <= T, key + ":beyond-chunk", lambda: f"element {b}: row {n} start {t} outside chunk {shape}")
            row.append((n, t))
        if coincident:
            sim.check(len(set(row)) == 1, key + ":not-coincident", lambda: f"element {b}: channels from (row, start) {row}")
        out.append(row)
    sim.steps += 1
    return out


class SourceError(Exception):
    """Failure raised by a simulated chunk source."""


# failures a real source may raise; code catching any of these kinds must not
# mistake a failure for the end of the stream
SOURCE_ERRORS = [SourceError] + [
    type(f"Source{b.__name__}", (SourceError, b), {})
    for b in (RuntimeError, OSError, EOFError, IndexError, KeyError, ValueError, TimeoutError, AttributeError, MemoryError, KeyboardInterrupt)
]


class _Resumable:
    """A source iterator that, unlike a generator, survives its own failure:
    asked again after an error it carries on with the next chunk."""

    def __init__(self, gen_from):
        self.gen_from = gen_from
        self.at = 0
        self.gen = gen_from(0)

    def __iter__(self):
        return self

    def __next__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise
        except SourceError:
            self.gen = self.gen_from(None)
            raise


class ChunkSource:
    """Re-iterable simulated producer with a pull log and scheduled faults."""

    def __init__(self, sim, shapes, dtype=torch.float32, layouts=None, fail_at=None, reuse=False, error=SourceError,
                 resumable=False):
        self.sim = sim
        self.shapes = shapes
        self.error = error
        self.resumable = resumable
        self.dtype = dtype
        self.layouts = layouts or [0] * len(shapes)
        self.fail_at = fail_at        # (pass, pull) -> raise
        self.reuse = reuse
        self.passes = 0
        self.pulls = []
        self.finished = []
        self.bufs = {}

    def __len__(self):
        return len(self.shapes)

    def __iter__(self):
        p = self.passes
        self.passes += 1
        self.pulls.append(0)
        self.finished.append(False)
        if self.resumable:
            return _Resumable(lambda at: self._gen(p, at is None))
        return self._gen(p)

    def _gen(self, p, resumed=False):
        for k, (N, C, T) in enumerate(self.shapes):
            if resumed and k < self.fail_at[1]:
                continue
            if self.fail_at == (p, k) and not resumed:
                self.sim.fault("source-error", f"pass {p} chunk {k} {self.error.__name__}")
                raise self.error(f"pass {p} chunk {k}")
            self.pulls[p] += 1
            self.sim.steps += 1
            x = make_chunk(k, N, C, T, self.dtype, self.layouts[k])
            if self.reuse:
                key = (p, N, C, T)
                if key in self.bufs:
                    self.bufs[key].copy_(x)
                    self.sim.count("fault:buffer-reuse")
                    x = self.bufs[key]
                else:
                    self.bufs[key] = x.contiguous()
                    x = self.bufs[key]
            yield x
        if self.fail_at == (p, len(self.shapes)) and not resumed:
            self.sim.fault("source-error", f"pass {p} at end {self.error.__name__}")
            raise self.error("at end")
        self.finished[p] = True


# -- simulated loader workers --------------------------------------------
class SimWorker:
    """One loader worker 'process': own dataset copy, own generator states,
    and the worker-info record torch gives a real worker."""

    def __init__(self, wid, nworkers, ds, seed, how):
        import torch.utils.data._utils.worker as tw

        self.tw = tw
        self.wid = wid
        if how == 0:
            self.ds = pickle.loads(pickle.dumps(ds))
        elif how == 1:
            self.ds = copy.deepcopy(ds)
        else:
            self.ds = ds            # forked copy-on-write: nothing writes to it
        self.info = tw.WorkerInfo(id=wid, num_workers=nworkers, seed=seed + wid, dataset=self.ds)
        keep = rngseam.get_state()
        rngseam.seed_all(seed + wid)
        self.rng = rngseam.get_state()
        rngseam.set_state(keep)
        self.it = None

    def run(self, fn):
        keep = rngseam.get_state()
        old = self.tw._worker_info
        rngseam.set_state(self.rng)
        self.tw._worker_info = self.info
        try:
            return fn()
        finally:
            self.rng = rngseam.get_state()
            self.tw._worker_info = old
            rngseam.set_state(keep)

    def start_epoch(self):
        self.it = self.run(lambda: iter(self.ds))

    def step(self):
        """Next batch or None at the end of this worker's share."""
        return self.run(lambda: next(self.it, None))
