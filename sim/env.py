"""Process environment of a simulated run: one OS thread per torch call, the
seams installed before ml4gw is imported, scratch space on a private directory.

Nothing here changes /repo; ml4gw is imported from the working tree in /repo.
"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("HDF5_USE_FILE_LOCKING", "FALSE")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "ml4gw") + os.sep
_loaded = False


def load():
    """Import torch/h5py/ml4gw with the seams in place (idempotent)."""
    global _loaded
    if _loaded:
        return
    _loaded = True
    import warnings

    warnings.filterwarnings("ignore")
    import numpy  # noqa
    import torch

    torch.set_num_threads(1)
    # torch imports this (and sympy) on first use of some operators: pay for it once, not in every fork
    import torch.fx.experimental.symbolic_shapes  # noqa
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    from . import sched, storage, rngseam

    sched.install_lock_seam()
    storage.install()
    rngseam.install_numpy()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import ml4gw  # noqa
    import ml4gw.waveforms.generator  # noqa
    import ml4gw.waveforms.conversion  # noqa
    import ml4gw.transforms.qtransform  # noqa

    got = os.path.realpath(os.path.dirname(ml4gw.__file__)) + os.sep
    if got != PKG:
        raise RuntimeError(f"ml4gw imported from {got}, expected {PKG}")
    torch.set_grad_enabled(False)
    _cheap_forks()


def _cheap_forks():
    """Collapse the heap into huge pages: every run and every fresh-process answer is a fork.

    Purely a speed-up; failures are ignored.
    """
    import ctypes
    import gc

    gc.collect()
    gc.freeze()
    try:
        libc = ctypes.CDLL(None)
        for ln in open("/proc/self/maps").read().splitlines():
            f = ln.split()
            if (len(f) == 5 or f[5] == "[heap]") and "w" in f[1]:
                a, b = (int(x, 16) for x in f[0].split("-"))
                a, b = (a + 2**21 - 1) & -(2**21), b & -(2**21)
                if b > a:
                    libc.madvise(ctypes.c_void_p(a), ctypes.c_size_t(b - a), 25)
    except Exception:  # noqa: BLE001
        pass
