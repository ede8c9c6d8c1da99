"""S04: the online inference pipeline reproduces offline inference.

The real components are wired as in an online deployment: a snapshotter cuts
the stream into background-plus-analysis windows, the background part gives a
spectral density, the analysis part is whitened with it, a network makes a
prediction series for each window and an online averager combines them. The
simulator feeds the stream update by update, with crashes, redelivery and
changes of batch size. The reference takes every window of the whole series
alone, through its own instances, and averages the predictions offline.
"""
import torch

from .. import faults, stream

PROPERTY = "S04"
RULE = "one evaluation = one simulated deployment history of the pipeline; distinct = different history digest"
REAL = ["ml4gw.nn.streaming.Snapshotter", "ml4gw.transforms.SpectralDensity", "ml4gw.transforms.Whiten",
        "ml4gw.nn.resnet.ResNet1D / ml4gw.nn.ssm S4Model / ml4gw.nn.norm.GroupNorm1D networks (evaluation mode)",
        "ml4gw.nn.streaming.OnlineAverager"]
STUB = ["stream source, commit log, delivery, allocator failures"]
QUICK, THOROUGH = 1500, 16000


class Conv(torch.nn.Module):
    """Series-to-series head around the library's group normalisation."""

    def __init__(self, ch, groups):
        super().__init__()
        from ml4gw.nn.norm import GroupNorm1D

        self.a = torch.nn.Conv1d(ch, 2 * ch, 3, padding=1)
        self.n = GroupNorm1D(2 * ch, groups)
        self.b = torch.nn.Conv1d(2 * ch, ch, 3, padding=1)

    def forward(self, x):
        return self.b(torch.tanh(self.n(self.a(x))))


class Pipe:
    def __init__(self, sim):
        self.ch = sim.between(1, 3, "channels")
        self.rate = sim.pick([16, 32], "sample rate")
        self.fft = sim.pick([1, 0.5], "fft length")
        self.psd_len = self.rate * sim.between(2, 3, "psd length")
        self.fdur = sim.pick([0.5, 1], "fduration")
        self.pad = int(self.fdur * self.rate)
        self.stride = sim.between(2, 12, "stride")
        self.num = sim.between(1, 3, "num updates")
        self.offset = sim.pick([None, 0, 2], "offset")
        need = self.num * self.stride + (self.offset or 0)
        self.K = max(need, 8) + sim.choose(4, "extra")
        self.size = self.psd_len + self.K + self.pad
        self.highpass = sim.pick([None, 4], "highpass")
        self.lowpass = sim.pick([None, 7], "lowpass")
        self.fast = sim.flip(0.5, "fast psd")
        self.average = sim.pick(["mean", "median"], "average")
        self.net = sim.pick(["norm", "resnet", "s4"], "network")
        self.groups = sim.pick([None, 1, 2], "groups")
        self.seed = sim.data_seed("weights")
        self.psd3 = sim.flip(0.7, "per-window psd")

    def __str__(self):
        return (f"ch={self.ch} rate={self.rate} fft={self.fft} psd={self.psd_len} fdur={self.fdur} stride={self.stride} "
                f"num={self.num} off={self.offset} K={self.K} hp={self.highpass} lp={self.lowpass} fast={self.fast} "
                f"avg={self.average} net={self.net} groups={self.groups}")

    def network(self):
        torch.manual_seed(self.seed)
        if self.net == "norm":
            m = Conv(self.ch, self.groups)
        elif self.net == "resnet":
            from ml4gw.nn.norm import GroupNorm1DGetter
            from ml4gw.nn.resnet import ResNet1D

            m = ResNet1D(self.ch, layers=[1, 1], classes=self.ch, kernel_size=3,
                         norm_layer=GroupNorm1DGetter(self.groups))
        else:
            from ml4gw.nn.ssm.s4d import S4Model

            m = S4Model(self.ch, self.ch, d_model=4, d_state=4, n_layers=1, dropout=0.2)
        return m.double().eval()

    def parts(self):
        from ml4gw.transforms import SpectralDensity, Whiten

        return (SpectralDensity(self.rate, self.fft, average=self.average, fast=self.fast),
                Whiten(self.fdur, self.rate, self.highpass, self.lowpass), self.network())

    def predict(self, parts, W):
        """W: (batch, channels, size) -> predictions (batch, channels, K)."""
        psd, whiten, net = parts
        bg, x = W[..., :self.psd_len], W[..., self.psd_len:]
        p = psd(bg)
        y = whiten(x, p)
        z = net(y.double())
        if z.ndim == 2:
            z = z[:, :, None] * torch.linspace(0.5, 1.5, self.K).to(z)
        return z


def deploy(sim):
    from ml4gw.nn.streaming import OnlineAverager, Snapshotter

    p = Pipe(sim)
    batches = [sim.between(1, 4, "batch") for _ in range(2)]
    nupd = sim.between(2, 6, "updates")
    total = nupd * max(batches)
    g = torch.Generator().manual_seed(sim.data_seed())
    X = torch.randn(p.ch, total * p.stride, generator=g)
    if sim.flip(0.5, "glitch"):
        i = sim.choose(X.shape[1], "glitch at")
        X[:, i:i + 3] *= sim.pick([50.0, 1e4, 0.0], "size")
        sim.fault("glitch")
    # the zeros that precede the stream are replaced: a constant stretch has no spectrum
    full = torch.cat([torch.randn(p.ch, p.size - p.stride, generator=g), X], -1)
    sim.log(str(p), batches, nupd)

    def build():
        return {i: (Snapshotter(p.ch, p.size, p.stride, b), OnlineAverager(p.stride, b, p.num, p.ch, p.offset).double())
                for i, b in enumerate(batches)}, p.parts()

    # offline: one window at a time
    ref_parts = p.parts()
    with torch.no_grad():
        preds = torch.cat([p.predict(ref_parts, full[None, :, n * p.stride:n * p.stride + p.size]) for n in range(total)])
    sim.check(tuple(preds.shape) == (total, p.ch, p.K), "S04:pred-shape",
              lambda: f"predictions {tuple(preds.shape)}, expected {(total, p.ch, p.K)}")
    sim.check(bool(preds.isfinite().all()), "S04:finite", "offline predictions are not finite")
    ref = stream.AvgConf.__new__(stream.AvgConf)
    ref.channels, ref.update, ref.num, ref.offset = p.ch, p.stride, p.num, p.offset
    ref.extra = p.K - p.num * p.stride - (p.offset or 0)
    scale = float(preds.abs().max())

    inst, parts = build()
    init = full[:, :p.size - p.stride].clone()
    mem = (init, None)
    durable, pos = (0, stream.roundtrip(init), None), 0
    done = 0
    budget = 40
    with torch.no_grad():
        while done < nupd and budget:
            budget -= 1
            act = sim.choose(8, "action")
            if act == 0:
                sim.fault("crash-restart")
                inst, parts = build()
                pos, s, a = durable
                mem = (stream.roundtrip(s), None if a is None else stream.roundtrip(a))
                continue
            which = sim.choose(2, "batch size")
            b = batches[which]
            if pos + b > total:
                break
            upd = X[:, pos * p.stride:(pos + b) * p.stride].clone()

            def step(which=which, upd=upd):
                snap, avg = inst[which]
                W, st = snap(upd, mem[0])
                out, ast = avg(p.predict(parts, W), mem[1])
                return out, st, ast

            r = None
            if act == 1:
                with faults.draw(sim, [120]) as f:
                    try:
                        r = step()
                    except faults.ERRORS:
                        pass
                if f.fired:
                    sim.fault(f.kind, f"{f.fired} #{f.k}")
                    sim.check(r is None, "S04:fault-swallowed", "a failed allocation or an interrupt was swallowed")
            if act == 2:
                sim.fault("redelivery")
                step()
            if r is None:
                r = step()
            out, st, ast = r
            want = torch.cat([ref.block(preds, m) for m in range(pos, pos + b)], -1)
            ok = out.shape == want.shape and stream.close(out.double(), want, rtol=1e-3, atol=1e-3 * scale)
            sim.check(ok, "S04:series",
                      lambda out=out, want=want: f"steps {pos}..{pos + b - 1}: online {tuple(out.shape)} vs offline {tuple(want.shape)}"
                      + (f", max difference {(out.double() - want).abs().max():.3g} of scale {scale:.3g}" if out.shape == want.shape else "")
                      + f"; {p}, batch {b}")
            mem, pos, done = (st, ast), pos + b, done + 1
            sim.steps += 1
            sim.log("update", pos)
            if sim.flip(0.5, "commit"):
                durable = (pos, stream.roundtrip(st), stream.roundtrip(ast))


SCENARIOS = {"deploy": (deploy, 1)}
