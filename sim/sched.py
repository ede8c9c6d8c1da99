"""Deterministic scheduler for real threads.

Each simulated task is a real thread, but exactly one runs at a time: a task
may only lose the processor at a yield point (every line executed inside
ml4gw, every torch operator dispatched, every lock operation) and the seeded
scheduler decides where, and who runs next.
"""
import sys
import threading

from . import core, env

_real_lock = threading.Lock
_real_rlock = threading.RLock
_local = threading.local()


def current_task():
    return getattr(_local, "task", None)


class SimLock:
    """Lock used when code under test creates one: blocking yields to the scheduler."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0
        self._lk = _real_rlock() if reentrant else _real_lock()

    def _me(self):
        return current_task() or threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        t = current_task()
        if t is None:
            return self._lk.acquire(blocking, timeout)
        while not self._lk.acquire(False) if not self._re else not self._try_re():
            if not blocking:
                return False
            t.block()
        return True

    def _try_re(self):
        me = self._me()
        if self._owner is None or self._owner is me:
            self._owner = me
            self._n += 1
            return True
        return False

    def release(self):
        t = current_task()
        if self._re and t is not None:
            self._n -= 1
            if self._n == 0:
                self._owner = None
        else:
            self._lk.release()
        if t is not None:
            t.sched.unblock_all()

    def locked(self):
        return self._lk.locked() if not self._re else self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock objects")


def install_lock_seam():
    def from_pkg():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(env.PKG)

    def Lock():
        return SimLock() if from_pkg() else _real_lock()

    def RLock(*a, **k):
        return SimLock(True) if from_pkg() else _real_rlock(*a, **k)

    threading.Lock = Lock
    threading.RLock = RLock


class Task:
    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked = False
        self.error = None
        self.result = None
        self.quantum = 0
        self.steps = 0
        self.thread = threading.Thread(target=self._main, name=f"sim-{name}", daemon=True)

    def _main(self):
        _local.task = self
        self.go.acquire()
        sys.settrace(self._trace)
        try:
            import torch
            from torch.utils._python_dispatch import TorchDispatchMode

            task = self

            class Yielder(TorchDispatchMode):
                def __torch_dispatch__(self, func, types, args=(), kwargs=None):
                    task.yield_point()
                    return func(*args, **(kwargs or {}))

            torch.set_grad_enabled(False)
            if self.sched.op_yields:
                with Yielder():
                    self.result = self.fn()
            else:
                self.result = self.fn()
        except BaseException as e:  # noqa: BLE001
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.back.release()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(env.PKG):
            return None
        if event == "call":
            return self._trace
        if event == "line":
            self.yield_point()
        return self._trace

    def yield_point(self):
        self.steps += 1
        self.sched.total_steps += 1
        if self.sched.total_steps > self.sched.max_steps:
            raise core.NoProgress("simulation step bound exceeded")
        if self.quantum is None:
            return
        self.quantum -= 1
        if self.quantum <= 0:
            self.sched.back.release()
            self.go.acquire()

    def block(self):
        self.blocked = True
        self.sched.back.release()
        self.go.acquire()


class Scheduler:
    def __init__(self, sim, op_yields=True, max_steps=2_000_000, script=None):
        self.sim = sim
        # fixed schedule: (task index, yield points or None for "to the end")
        self.script = list(script) if script is not None else None
        self.tasks = []
        self.back = threading.Semaphore(0)
        self.op_yields = op_yields
        self.total_steps = 0
        self.max_steps = max_steps
        self.switches = 0

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def unblock_all(self):
        for t in self.tasks:
            t.blocked = False

    QUANTA = [None, 1, 2, 3, 5, 8, 13, 20, 30, 45, 70, 100, 150, 250, 400, 700, 1200, 2500]

    def run(self):
        sim = self.sim
        for t in self.tasks:
            t.thread.start()
        last = None
        while True:
            live = [t for t in self.tasks if not t.done]
            if not live:
                break
            ready = [t for t in live if not t.blocked]
            sim.check(bool(ready), "deadlock", "all threads blocked on locks")
            if self.script is not None:
                t, q = ready[0], None
                while self.script:
                    i, q = self.script.pop(0)
                    if self.tasks[i] in ready:
                        t = self.tasks[i]
                        break
                t.quantum = q
            elif len(ready) == 1:
                t = ready[0]
                t.quantum = None if len(live) == 1 else 50
            else:
                # choice 0 keeps the current thread where possible
                order = ([last] if last in ready else []) + [x for x in ready if x is not last]
                t = order[sim.choose(len(order), "sched:thread")]
                q = self.QUANTA[sim.choose(len(self.QUANTA), "sched:quantum")]
                if q is not None and q > 3:
                    q = max(1, q - sim.choose(max(1, q // 3), "sched:jitter"))
                t.quantum = q
            if t is not last:
                self.switches += 1
            last = t
            before = t.steps
            t.go.release()
            self.back.acquire()
            sim.sched_sig.update(f"{t.name}:{t.steps - before};".encode())
            sim.steps += t.steps - before
        for t in self.tasks:
            t.thread.join()
        sim.count("sched:switches", self.switches)
        return self.tasks
