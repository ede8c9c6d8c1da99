"""Failing calls: the k-th allocating torch operator finds no memory, or the
user interrupts the call at the k-th operator or the k-th executed line."""
import sys

import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import env

# how a call can die half way
ERRORS = (torch.OutOfMemoryError, KeyboardInterrupt)


def allocates(func):
    r = func._schema.returns
    return bool(r) and any(x.alias_info is None and "Tensor" in str(x.type) for x in r)


class AllocFault(TorchDispatchMode):
    """Counts allocating operators; raises at the k-th (None: only count)."""

    def __init__(self, k=None, error=torch.OutOfMemoryError):
        super().__init__()
        self.k = k
        self.n = 0
        self.fired = None
        self.error = error
        self.kind = "interrupt" if error is KeyboardInterrupt else "allocation-failure"

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        if allocates(func):
            i = self.n
            self.n += 1
            if self.k is not None and i == self.k:
                self.fired = func._schema.name
                raise self.error("simulated")
        return func(*args, **(kwargs or {}))


class LineFault:
    """Interrupts the call before the k-th line ml4gw executes in it."""

    kind = "interrupt"

    def __init__(self, k):
        self.k = k
        self.n = 0
        self.fired = None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(env.PKG):
            return None
        if event == "line" and self.fired is None:
            i = self.n
            self.n += 1
            if i == self.k:
                self.fired = frame.f_code.co_name
                raise KeyboardInterrupt
        return self.trace

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *e):
        sys.settrace(self.old)


def draw(sim, depths=(3, 10, 40, 150)):
    """A fault that makes the coming call die half way (if it gets that far)."""
    how = sim.choose(4, "fault kind")
    k = sim.choose(sim.pick(depths, "depth"), "at")
    if how == 3:
        return LineFault(k)
    return AllocFault(k, ERRORS[how == 2])
