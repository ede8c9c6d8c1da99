"""Seeded runs, recorded choices, violations, replay and minimisation."""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg


class Sim:
    """One simulated execution.

    Every nondeterministic decision (schedule, fault, random-source outcome,
    configuration, history) is drawn through :meth:`choose`, either from the
    seed or from a recorded list, so a run is a function of its choices.
    """

    MAX_CHOICES = 20000

    def __init__(self, seed, choices=None, scratch=None):
        self.seed = seed
        self.rng = random.Random(f"sim-{seed}")
        self.replaying = choices is not None
        self.inp = list(choices) if choices is not None else None
        self.rec = []          # values
        self.labels = []       # (label, n)
        self.events = []
        self.counters = {}
        self.sched_sig = hashlib.sha256()
        self.steps = 0
        self.scratch = scratch
        self.checks = 0
        self.tags = set()

    # -- choices ----------------------------------------------------------
    def choose(self, n, label=""):
        n = int(n)
        if n <= 0:
            raise ValueError("choose from nothing")
        i = len(self.rec)
        if i > self.MAX_CHOICES:
            raise RuntimeError("too many choices")
        if self.replaying:
            v = self.inp[i] if i < len(self.inp) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        self.labels.append((label, n))
        return v

    def flip(self, p, label=""):
        """True with probability p; choice value 0 means False."""
        return self.choose(1000, label) >= 1000 - int(round(p * 1000))

    def pick(self, seq, label=""):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]

    def between(self, lo, hi, label=""):
        return lo + self.choose(hi - lo + 1, label)

    def data_seed(self, label=""):
        return self.choose(2**31 - 1, label)

    # -- recording --------------------------------------------------------
    def log(self, *parts):
        self.events.append(" ".join(str(p) for p in parts))

    def count(self, kind, k=1):
        self.counters[kind] = self.counters.get(kind, 0) + k

    def fault(self, kind, detail=""):
        self.count("fault:" + kind)
        self.log("FAULT", kind, detail)

    def check(self, cond, key, msg):
        self.checks += 1
        if not cond:
            self.log("VIOLATED", key)
            raise Violation(key, msg() if callable(msg) else msg)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode())
            h.update(b"\n")
        h.update(self.sched_sig.digest())
        return h.hexdigest()


def from_sut(exc):
    """Did this exception pass through a frame of the code under test?"""
    from . import env

    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(env.PKG):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


class NoProgress(BaseException):
    """The step bound of a simulated run was exceeded."""


def run_one(fn, seed, choices, scratch_root):
    """Execute one run in this process and describe the outcome."""
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix="run-", dir=scratch_root)
    sim = Sim(seed, choices, scratch)
    t0 = time.perf_counter()
    out = {"status": "ok"}
    try:
        fn(sim)
    except Violation as v:
        out = {"status": "violation", "key": v.key, "msg": v.msg}
    except BaseException as e:  # noqa: BLE001 - classified, never swallowed
        msg = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if isinstance(e, NoProgress):
            out = {"status": "violation", "key": "no-progress", "msg": msg}
        elif from_sut(e):
            # a request the property says must succeed failed inside ml4gw
            sim.log("RAISED", type(e).__name__)
            out = {"status": "violation", "key": "raised:" + type(e).__name__, "msg": msg}
        else:
            out = {"status": "harness", "key": "harness:" + type(e).__name__, "msg": msg}
    finally:
        from . import pristine
        pristine.shutdown()
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(
        seed=seed, choices=sim.rec, labels=sim.labels, events=sim.events[-400:],
        digest=sim.digest(), sched=sim.sched_sig.hexdigest(), counters=sim.counters,
        steps=sim.steps, checks=sim.checks, wall=time.perf_counter() - t0,
        tags=sorted(sim.tags),
    )
    return out


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _recv(fd, timeout=None):
    def need(k):
        buf = b""
        while len(buf) < k:
            if timeout is not None:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError
            b = os.read(fd, k - len(buf))
            if not b:
                raise EOFError
            buf += b
        return buf

    deadline = time.monotonic() + timeout if timeout is not None else None
    (n,) = struct.unpack("<Q", need(8))
    return pickle.loads(need(n))


def isolated(fn, seed, choices, scratch_root, timeout=120.0):
    """Run one execution in a forked child: nothing leaks between runs."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            os.setpgid(0, 0)
            _send(w, run_one(fn, seed, choices, scratch_root))
        except BrokenPipeError:
            code = 4
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    base = dict(seed=seed, choices=choices or [], labels=[], events=[], digest="", sched="",
                counters={}, steps=0, checks=0, wall=0.0, tags=[])
    try:
        res = _recv(r, timeout)
    except TimeoutError:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        res = dict(base, status="violation", key="hang", msg=f"no progress: run did not finish within {timeout}s")
    except EOFError:
        res = None
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if res is None:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
            res = dict(base, status="violation", key="crash",
                       msg=f"process under test died with signal {os.WTERMSIG(st)}")
        else:
            res = dict(base, status="harness", key="harness:died", msg=f"child ended, status {st}")
    return res


# -- minimisation ---------------------------------------------------------
def minimise(fn, res, scratch_root, max_runs=250, max_wall=60.0):
    """Greedy shrink of the choice list keeping the same violation key."""
    t0 = time.monotonic()
    best = dict(res)
    runs = 0

    def attempt(c):
        nonlocal best, runs
        if runs >= max_runs or time.monotonic() - t0 > max_wall:
            return False
        runs += 1
        r = isolated(fn, res["seed"], c, scratch_root)
        if r["status"] == "violation" and r["key"] == res["key"]:
            rc = r["choices"]
            while rc and rc[-1] == 0:
                rc = rc[:-1]
            key = lambda x: (sum(1 for v in x if v), sum(min(v, 10**6) for v in x), len(x))  # noqa: E731
            cur = best["choices"]
            while cur and cur[-1] == 0:
                cur = cur[:-1]
            if key(rc) < key(cur):
                best = dict(r)
                best["choices"] = rc
                return True
        return False

    changed = True
    while changed and runs < max_runs and time.monotonic() - t0 < max_wall:
        changed = False
        # zero or delete spans, largest first
        size = max(1, len(best["choices"]) // 2)
        while size >= 1:
            i = 0
            while i < len(best["choices"]):
                c = best["choices"]
                if any(c[i:i + size]) and attempt(c[:i] + [0] * len(c[i:i + size]) + c[i + size:]):
                    changed = True
                elif attempt(best["choices"][:i] + best["choices"][i + size:]):
                    changed = True
                    continue
                i += size
                if runs >= max_runs or time.monotonic() - t0 > max_wall:
                    break
            size //= 2
        for i in range(len(best["choices"])):
            for div in (16, 4, 2):
                c = best["choices"]
                if i < len(c) and c[i] > 1 and attempt(c[:i] + [c[i] // div] + c[i + 1:]):
                    changed = True
                    break
    best["min_runs"] = runs
    return best
