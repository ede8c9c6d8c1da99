"""M09: training can be stopped, resumed and watched without changing what is learned."""
import copy
import io

import torch

from .. import catalog as C
from .. import faults, pristine
from ..core import Violation

PROPERTY = "M09"
RULE = ("one evaluation = one seeded training history of one or two jobs in one process: steps, validations, checkpoints, crashes at any point "
        "of a step, failed allocations, restores; final weights, buffers and losses compared with the uninterrupted run; distinct = different history digest")
REAL = ["every trainable network of sim/catalog.py", "ml4gw augmentations", "torch optimizers, autograd, torch.save and torch.load"]
STUB = ["durable storage (bytes)", "process crash and restart (fresh, differently initialised objects)", "allocation failures"]
QUICK, THOROUGH = 700, 25000
TOL = 1e-5
PHASES = ["before the forward pass", "after the forward pass", "after the backward pass", "after the optimizer step"]


def trainable(c):
    return c.net


class Crash(Exception):
    pass


FRONTS = {"ResNet1D": ["scaler", "whiten"], "BottleneckResNet1D": ["scaler", "whiten"], "S4D": ["scaler"], "S4Model": ["scaler", "whiten"],
          "ConvAutoencoder": ["scaler"], "GroupNorm1D": ["scaler", "whiten"]}


def preprocess(c, front, plan, fitted):
    """A fitted transform in front of the net: it travels in the same checkpoint."""
    from ml4gw import transforms as T
    name, cfg, spec = plan[:3]
    x = c.args(cfg, spec, C.gen(plan[6] + 999), 8)["x"]
    ch, n = x.shape[1:]
    if front == "scaler":
        f = T.ChannelWiseScaler(ch)
        if fitted:
            f.fit(x.transpose(0, 1).reshape(ch, -1) * 3 + 1)
    else:
        f = T.FixedWhiten(ch, n / 16, 16, dtype=torch.float32)
        if fitted:
            f.fit(0.5, *x.transpose(0, 1).reshape(ch, -1), fftlength=2)
    return f


class Job:
    """One training run; everything it owns dies with it except its checkpoints."""

    def __init__(self, plan, other_init=False):
        self.plan = name, cfg, spec, opt, B, aug, seed, front = plan
        c = C.REG[name]
        if other_init:
            cfg = dict(cfg, weights=cfg.get("weights", 0) + 17)
        self.net = C.build(name, cfg)
        if front:
            self.net = torch.nn.Sequential(preprocess(c, front, self.plan, not other_init), self.net)
        self.net.train()
        self.make_opt()
        if aug:
            from ml4gw import augmentations as A
            self.augs = [A.SignalInverter(0.5), A.SignalReverser(0.5)]
        else:
            self.augs = []
        self.c = c
        self.at = 0
        self.losses = []
        torch.manual_seed(seed % 1000 + (5 if other_init else 0))
        self.rng = torch.get_rng_state()

    def make_opt(self):
        kind = self.plan[3]
        # S4's kernels ask for their own optimizer options
        groups, own = [], [p for p in self.net.parameters() if hasattr(p, "_optim")]
        rest = [p for p in self.net.parameters() if not hasattr(p, "_optim")]
        if rest:
            groups.append({"params": rest})
        if own:
            groups.append({"params": own, "weight_decay": 0.0})
        self.opt = {"sgd": lambda: torch.optim.SGD(groups, lr=0.01, momentum=0.9), "adam": lambda: torch.optim.Adam(groups, lr=1e-3),
                    "adamw": lambda: torch.optim.AdamW(groups, lr=1e-3, weight_decay=0.1)}[kind]()

    def data(self, step):
        name, cfg, spec, _, B, _, seed, _ = self.plan
        a = self.c.args(cfg, spec, C.gen(seed + 31 * step), B)
        loud = {0: 1e4, 1: 1e-4}.get((seed + 7 * step) % 10)
        if loud and isinstance(a.get("x"), torch.Tensor) and a["x"].is_floating_point():    # a glitch, or a dead detector
            a["x"] = a["x"] * loud
        return a

    def step(self, stop=None):
        torch.set_rng_state(self.rng)
        if stop == 0:
            raise Crash
        with torch.enable_grad():
            a = self.data(self.at)
            if "x" in a:
                for f in self.augs:
                    a["x"] = f(a["x"])
            self.opt.zero_grad(set_to_none=self.plan[6] % 2 == 0)
            out = [t for t in self._tensors(self.c.call(self.net, a)) if t.requires_grad]
            g = C.gen(self.plan[6] + self.at)
            total = sum(((t.abs() if t.is_complex() else t) - torch.randn(t.shape, generator=g)).pow(2).mean() for t in out)
            if stop == 1:
                raise Crash
            total.backward()
        if stop == 2:
            raise Crash
        torch.nn.utils.clip_grad_norm_(self.net.parameters(), 1.0)
        self.opt.step()
        self.losses.append(float(total.detach()))
        self.at += 1
        self.rng = torch.get_rng_state()
        if stop == 3:
            raise Crash

    def _tensors(self, out):
        return [t for _, t in C.leaves(out)]

    def validate(self, seed, mode):
        """What a trainer does between steps."""
        torch.set_rng_state(self.rng)
        name, cfg, spec, _, B, *_ = self.plan
        a = self.c.args(cfg, spec, C.gen(seed), 2)
        self.net.eval()
        with mode():
            v = C.clone(self.c.call(self.net, a))
        self.net.train()
        self.rng = torch.get_rng_state()
        return v

    def swap(self, seed, mode, how):
        """Other weights swapped in for two passes, as with averaged weights; the passes before and between."""
        rng = self.rng
        torch.set_rng_state(rng)
        name, cfg, spec, _, B, *_ = self.plan
        self.net.eval()
        a = self.c.args(cfg, spec, C.gen(seed), 2)
        mine = {k: v.detach().clone() for k, v in self.net.state_dict().items()}
        g = C.gen(seed + 1)
        mean = {k: v * (1 + 0.2 * torch.rand(v.shape, generator=g)) if v.is_floating_point() and k in dict(self.net.named_parameters()) else v for k, v in mine.items()}
        out = []
        for sd in (None, mean, mine):
            if sd is not None and how == "load":
                self.net.load_state_dict(sd)
            elif sd is not None:
                with torch.no_grad():
                    for k, p in self.net.named_parameters():
                        if how == "copy":
                            p.copy_(sd[k])
                        elif how == "data":
                            p.data.copy_(sd[k])
                        else:
                            p.data = sd[k].clone()
            with mode():
                out.append(C.clone(self.c.call(self.net, {k: C.clone(v) for k, v in a.items()})))
        self.net.train()
        self.rng = rng
        return mean, out

    def save(self, whole):
        b = io.BytesIO()
        torch.save({"net": self.net if whole else self.net.state_dict(), "opt": self.opt.state_dict(), "rng": self.rng, "at": self.at,
                    "losses": list(self.losses), "whole": whole}, b)
        return b.getvalue()

    def load(self, blob, assign=False):
        d = torch.load(io.BytesIO(blob), weights_only=False)
        if d["whole"]:
            for src, dst in zip(d["net"].parameters(), self.net.parameters(), strict=True):
                if hasattr(dst, "_optim"):
                    src._optim = dst._optim
            self.net = d["net"]
            self.net.train()
            self.make_opt()
        else:
            self.net.load_state_dict(d["net"])
        self.opt.load_state_dict(d["opt"])
        self.rng, self.at, self.losses = d["rng"], d["at"], list(d["losses"])

    def result(self):
        return {"losses": list(self.losses), **{k: v.detach().clone() for k, v in self.net.state_dict().items()}}


def uninterrupted(req):
    plan, n = req
    j = Job(plan)
    for _ in range(n):
        j.step()
    return j.result()


def front(sim, name, cfg):
    if name not in FRONTS or not sim.flip(0.4, "preprocess") or name == "S4D" and not cfg["transposed"]:
        return None
    return sim.pick(FRONTS[name], "front")


def validated(sim, j, seed, mode, when):
    """A validation in the middle of training sees the weights of that moment."""
    got = j.validate(seed, mode)
    sim.count("validations")
    if not sim.flip(0.5, "compare"):
        return
    ref = Job(j.plan, other_init=True)
    ref.load(j.save(False))
    d = C.diff(got, ref.validate(seed, mode), TOL, 1e-2)
    sim.check(d is None, "M09:validation", lambda: f"{j.plan}: validation {when} (step {j.at}): {d} from a new net with the same weights")


def swapped(sim, j, seed):
    """Averaged weights swapped in for a validation, and out again."""
    mode = sim.pick([torch.no_grad, torch.inference_mode], "mode")
    how = sim.pick(["copy", "data", "point", "load"], "swap")
    if mode is torch.inference_mode:
        how = "copy" if how == "data" else how
    mean, got = j.swap(seed, mode, how)
    refs = [Job(j.plan, other_init=True) for _ in range(2)]
    refs[0].load(j.save(False))
    refs[1].load(j.save(False))
    refs[1].net.load_state_dict(mean)
    a = refs[0].validate(seed, mode)
    b = refs[1].validate(seed, mode)
    for when, x, want in (("before other weights are swapped in", got[0], a), ("with other weights swapped in", got[1], b), ("with its own weights swapped back", got[2], a)):
        d = C.diff(x, want, TOL, 1e-2)
        sim.check(d is None, "M09:validation", lambda when=when, d=d: f"{j.plan}: validation {when} ({how}, step {j.at}): {d} from a new net with the same weights")
    sim.count("weight swaps")


def training(sim):
    pristine.start(uninterrupted)
    name = sim.pick(C.names(trainable), "net")
    cfg = C.draw_cfg(sim, name)
    plans = []
    for i in range(sim.pick([1, 1, 2], "jobs")):
        c = cfg if not i or sim.flip(0.5, "same configuration") else C.near_cfg(sim, name, cfg)
        plans.append((name, c, C.draw_spec(sim, name, c), sim.pick(["sgd", "adam", "adamw"], "optimizer"), sim.between(2, 4, "B"),
                      sim.flip(0.5, "augment"), sim.data_seed(), front(sim, name, c)))
    sim.log(name, plans)
    n = sim.between(3, 5, "steps")
    live = [Job(p) for p in plans]
    saved = [j.save(False) for j in live]
    kept = []
    events = 0
    try:
        while any(j.at < n for j in live) and events < 25:
            events += 1
            i = sim.choose(len(live), "job")
            j = live[i]
            act = sim.choose(12, "event")
            if act >= 9 and events > 18:
                act = 0
            down = None
            if act < 5:
                if j.at < n:
                    j.step()
            elif act == 5:
                whole = sim.flip(0.3, "whole module")
                saved[i] = j.save(whole)
                sim.count("checkpoints")
            elif act == 6:
                mode = sim.pick([torch.no_grad, torch.inference_mode, torch.enable_grad], "mode")
                validated(sim, j, sim.data_seed(), mode, "after a step")
            elif act == 7:
                if len(kept) < 2:
                    kept.append((i, copy.deepcopy(j.net), j.save(False)))
            elif act == 8 and j.at < n:
                p = sim.choose(4, "crash at")
                try:
                    j.step(p)
                except Crash:
                    down = PHASES[p]
            elif act == 11:
                swapped(sim, j, sim.data_seed())
            elif act == 10:     # back to the kept weights, in place
                mode = sim.pick([torch.no_grad, torch.inference_mode], "mode")
                seed = sim.data_seed()
                validated(sim, j, seed, mode, "before a rollback")
                j.load(saved[i])
                validated(sim, j, seed, mode, "after a rollback")
                sim.fault("rollback", "in place")
            elif j.at < n:
                f = faults.draw(sim, [250])
                try:
                    with f:
                        j.step()
                except faults.ERRORS:
                    down = f.kind
                    sim.fault(f.kind)
            sim.log(events, i, act, j.at, down)
            if down:
                sim.fault("crash-restart", down)
                blob = saved[i]
                how = sim.choose(3, "restart")
                if how:         # another process: nothing survives but the checkpoint
                    live[i] = Job(plans[i], other_init=True)
                live[i].load(blob)
                if sim.flip(0.5, "validate the restored"):
                    mode = sim.pick([torch.no_grad, torch.inference_mode], "mode")
                    validated(sim, live[i], sim.data_seed(), mode, "after a restore")
            sim.steps += 1
        for j in live:
            while j.at < n:
                j.step()
    except (*faults.ERRORS, Crash, Violation):
        raise
    except Exception as e:  # noqa: BLE001
        sim.check(False, "M09:died", f"{name} {plans}: training dies at event {events} with {type(e).__name__}: {str(e)[:300]}")
    for i, j in enumerate(live):
        req = (plans[i], n)
        want = pristine.ask(req)[1] if sim.flip(0.2, "fresh process") else uninterrupted(req)
        got = j.result()
        dl = C.diff(got["losses"], want["losses"], TOL)
        sim.check(dl is None, "M09:losses", lambda i=i, dl=dl: f"{plans[i]}: losses {dl} from the uninterrupted run")
        for k in want:
            d = C.diff(got[k], want[k], TOL, 1e-2) if k != "losses" else None
            sim.check(d is None, "M09:learned", lambda i=i, k=k, d=d: f"{plans[i]}: {k} {d} from the uninterrupted run")
    for i, twin, blob in kept:
        # a copy kept from the middle of training is what its checkpoint says
        ref = Job(plans[i], other_init=True)
        ref.load(blob)
        twin.eval()
        ref.net.eval()
        a = ref.c.args(plans[i][1], plans[i][2], C.gen(sim.data_seed()), 2)
        with torch.no_grad():
            d = C.diff(ref.c.call(twin, a), ref.c.call(ref.net, a), TOL, 1e-2)
        sim.check(d is None, "M09:copy", lambda i=i, d=d: f"{plans[i]}: a copy kept at some step: {d} from the checkpoint of the same step")
    sim.tags.add(name)


SCENARIOS = {"training": (training, 1)}


def _warm():
    """Import what the first optimizer step and checkpoint import (in the parent of all runs)."""
    for kind in (torch.optim.SGD, torch.optim.Adam, torch.optim.AdamW):
        p = torch.nn.Parameter(torch.ones(2))
        p.grad = torch.ones(2)
        torch.nn.utils.clip_grad_norm_([p], 1.0)
        opt = kind([p], lr=0.1)
        opt.step()
        opt.load_state_dict(opt.state_dict())
    b = io.BytesIO()
    torch.save({"x": torch.ones(1)}, b)
    torch.load(io.BytesIO(b.getvalue()), weights_only=False)


_warm()
