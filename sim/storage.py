"""Simulated storage: real HDF5 files in a private scratch directory, opened
through subclasses of h5py.File / h5py.Dataset that log every operation and
raise the faults the simulator schedules.
"""
import contextlib
import os

import h5py
import numpy as np

RealFile = h5py.File
RealDataset = h5py.Dataset
_disk = None


class SimDataset(RealDataset):
    def __getitem__(self, *a, **k):
        d = _disk
        if d is None:
            return super().__getitem__(*a, **k)
        d.before("read", self.file.filename, f"{self.name}{a}")
        out = super().__getitem__(*a, **k)
        return d.after_read(self.file.filename, self.name, out)

    def read_direct(self, *a, **k):
        d = _disk
        if d is not None:
            d.before("read", self.file.filename, f"{self.name} direct")
        return super().read_direct(*a, **k)


class SimFile(RealFile):
    def __init__(self, name, *a, **k):
        d = _disk
        if d is not None:
            d.before("open", os.fspath(name), a)
        super().__init__(name, *a, **k)
        if d is not None:
            d.opened(self, os.fspath(name))

    def __getitem__(self, name):
        out = super().__getitem__(name)
        if _disk is not None and type(out) is RealDataset:
            return SimDataset(out.id)
        return out

    def get(self, name, default=None, **k):
        out = super().get(name, default, **k)
        if _disk is not None and type(out) is RealDataset:
            return SimDataset(out.id)
        return out

    def close(self):
        d = _disk
        if d is not None:
            d.closed(self)
        return super().close()


def install():
    h5py.File = SimFile


class Disk:
    """Fault schedule and operation log for one run."""

    # an operation that fails, that finds no memory, or that the user interrupts
    FAULTS = ("EIO", "ENOENT", "EMFILE", "EACCES", "ENOMEM", "INTR")
    ERRNO = {"EIO": 5, "ENOENT": 2, "EMFILE": 24, "EACCES": 13}

    def __init__(self, sim):
        self.sim = sim
        self.ops = []            # (kind, basename)
        self.plan = {}           # op index -> fault kind or callable
        self.handles = {}
        self.n = 0
        self.fired = []
        self.on_op = None

    def __enter__(self):
        global _disk
        _disk = self
        return self

    def __exit__(self, *e):
        global _disk
        _disk = None

    @contextlib.contextmanager
    def paused(self):
        global _disk
        _disk = None
        try:
            yield
        finally:
            _disk = self

    def label(self, fname):
        """A name that is the same in every replay."""
        return os.path.relpath(os.fsdecode(fname), self.sim.scratch)

    def before(self, kind, fname, detail):
        i = self.n
        self.n += 1
        base = self.label(fname)
        self.ops.append((kind, base))
        self.sim.steps += 1
        act = self.plan.pop(i, None)
        if act is None:
            return
        if callable(act):
            act(kind, fname)
            return
        self.sim.fault(f"disk-{kind}-{act}", base)
        self.fired.append((i, kind, act))
        if act == "INTR":
            raise KeyboardInterrupt
        if act == "ENOMEM":
            raise MemoryError
        raise OSError(self.ERRNO[act], f"simulated {act} on {kind}", fname)

    def after_read(self, fname, dname, out):
        return out

    def opened(self, f, fname):
        self.handles[id(f)] = (f, self.label(fname))

    def closed(self, f):
        self.handles.pop(id(f), None)

    def open_handles(self):
        return sorted(b for f, b in self.handles.values() if f.id.valid)

    def mark(self):
        return len(self.ops)

    def opens_since(self, mark):
        return [b for k, b in self.ops[mark:] if k == "open"]


def write_file(path, data, chunked=True, dtype="float32", checksum=False):
    """data: dict channel -> 1-D array."""
    tmp = path + ".tmp"
    with RealFile(tmp, "w") as f:
        for c, x in data.items():
            x = np.asarray(x).astype(dtype)
            kw = {}
            if chunked and len(x):
                kw["chunks"] = (max(1, min(len(x), 16)),)
                if checksum:
                    kw["fletcher32"] = True
            f.create_dataset(c, data=x, **kw)
    os.replace(tmp, path)
