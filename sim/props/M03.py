"""M03: restoring into a fresh process reproduces behaviour exactly."""
import copy
import io
import pickle

import torch

from .. import catalog as C
from .. import fit, hist, pristine

PROPERTY = "M03"
RULE = ("one evaluation = one seeded life of a component: calls and refits, a save at some point, a crash, and a restore (checkpoint, "
        "serialised module or deep copy) in a fresh process or beside the original; distinct = different history digest")
REAL = ["every torch module of sim/catalog.py", "torch.save, torch.load, pickle, copy.deepcopy"]
STUB = ["durable storage (bytes)", "process crash and restart (forked fresh process)"]
QUICK, THOROUGH = 1500, 50000
TOL = 1e-5


def is_module(c):
    return type(c).__name__ in MODULES


MODULES = {"SpectralDensity", "Whiten", "FixedWhiten", "ChannelWiseScaler", "SnrRescaler", "SnrRescalerPermute", "QTile", "SingleQTransform",
           "QTransformSteps", "QScan", "MultiResolutionSpectrogram", "SplineInterpolate1D", "SplineInterpolate2D", "IIRFilter", "Decimator",
           "Heterodyne", "TophatIntegrator", "LeakyIntegrator", "ShiftedPearsonCorrelation", "WaveformProjector", "TaylorF2", "IMRPhenomD",
           "IMRPhenomPv2", "SineGaussian", "Ringdown", "TimeDomainCBC", "ResNet1D", "BottleneckResNet1D", "ResNet2D", "BottleneckResNet2D", "AutoencoderSteps", "GroupNorm1D", "S4D",
           "S4DKernel", "S4Model", "ConvAutoencoder", "Snapshotter", "OnlineAverager", "WaveformSampler"}


def other_start(name, cfg):
    """A freshly constructed instance of the same configuration, differently initialised."""
    c = C.REG[name]
    torch.manual_seed(987654321)
    cfg = dict(cfg)
    if "weights" in cfg:
        cfg["weights"] = cfg["weights"] + 17
    obj = c.make(cfg)
    if not c.fit_needed:
        c.prep(obj, cfg)
    obj.eval()
    return obj


def handler(req):
    kind, name, cfg, blob, call, dbl, assign = req
    if kind == "state":
        obj = other_start(name, cfg)
        if dbl:
            obj = obj.double()
        obj.load_state_dict(torch.load(io.BytesIO(blob)), strict=True, assign=assign)
    elif kind == "torn":
        obj = other_start(name, cfg)
        obj.load_state_dict(torch.load(io.BytesIO(blob)), strict=True)
        return "accepted"
    elif kind == "pickle":
        obj = pickle.loads(blob)
    else:
        obj = torch.load(io.BytesIO(blob), weights_only=False)
    if call is None:
        return "restored"
    return C.clone(call.run(obj, call.args()))


def life(sim):
    pristine.start(handler)
    name = sim.pick(C.names(is_module), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    # now and then its life starts before it has been fitted: it must stay unusable wherever it goes
    obj = fit.bare(name, cfg) if name in fit.NAMES and sim.flip(0.2, "unfitted") else C.build(name, cfg)
    sim.log(name, cfg)
    spec = None

    def draw_call(args_spec=None):
        nonlocal spec
        spec = C.draw_spec(sim, name, cfg) if spec is None or sim.flip(0.5, "new options") else spec
        return hist.Call(name, cfg, spec, sim.data_seed(), sim.between(1, 3, "batch"), sim.pick(hist.MODES, "mode"), call_seed=sim.data_seed())

    def compare(restored, call, label, state=False):
        got = hist.attempt(call, obj, call.args())
        # KNOWN_FINDINGS.txt: whether a transform has been fitted is not part of its checkpoint
        refused = state and got[0] == "err" and "Must fit" in str(got[1:])
        sim.check(not (refused and restored[0] == "ok"), "M03:unfitted-checkpoint", lambda: f"{name} {cfg}: {label}: usable although the original was never "
                  f"fitted and refuses {call}: {got[1:3]}")
        sim.check(restored[0] == got[0], "M03:outcome", lambda: f"{name} {cfg}: {label}: {restored[1:3] if restored[0] != 'ok' else 'works'}, "
                  f"the original: {got[1:3] if got[0] != 'ok' else 'works'}; {call}")
        if got[0] == "ok":
            d = C.diff(restored[1], got[1], TOL)
            sim.check(d is None, "M03:behaviour", lambda: f"{name} {cfg}: {label}: {d} from the original; {call}")

    for step in range(sim.between(1, 4, "life")):
        # something happens
        act = sim.choose(5, "event")
        if act in (1, 2):
            call = draw_call()
            hist.attempt(call, obj, call.args())
        elif act == 3 and name in fit.NAMES:
            c2 = fit.refit_cfg(sim, name, cfg)
            fit.fit(obj, name, c2)      # the parameters now come from other data than the configuration's
        elif act == 4 and list(torch.nn.Module.parameters(obj)):
            g = C.gen(sim.data_seed())
            with torch.no_grad():
                for p in torch.nn.Module.parameters(obj):      # training moved the weights
                    p.add_(0.02 * torch.randn(p.shape, generator=g).to(p.dtype))
        how = sim.choose(5, "move")
        call = draw_call()
        sim.log(step, act, how, call)
        if how == 0:
            blob = fit.snapshot_bytes(obj.state_dict())
            sim.fault("crash-restart", "checkpoint")
            res = pristine.ask(("state", name, cfg, blob, call, False, sim.flip(0.2, "assign")))
            sim.check(res[0] == "ok" or hist.attempt(call, obj, call.args())[0] != "ok", "M03:restore", lambda: f"{name} {cfg}: restoring its checkpoint: {res[1:]}")
            compare(res, call, "restored from its checkpoint in a fresh process", state=True)
        elif how == 1:
            kind = sim.pick(["pickle", "torchsave"], "serialiser")
            try:
                blob = pickle.dumps(obj) if kind == "pickle" else fit.snapshot_bytes(obj)
            except Exception as e:  # noqa: BLE001
                sim.check(False, "M03:unserialisable", f"{name} {cfg} cannot be serialised ({kind}) after {step} events: {type(e).__name__}: {e}")
            sim.fault("crash-restart", kind)
            compare(pristine.ask((kind, name, cfg, blob, call, False, False)), call, f"moved to a fresh process ({kind})")
        elif how == 2:
            try:
                twin = copy.deepcopy(obj)
            except Exception as e:  # noqa: BLE001
                sim.check(False, "M03:uncopyable", f"{name} {cfg} cannot be deep-copied after {step} events: {type(e).__name__}: {e}")
            sim.fault("moved", "deepcopy")
            a = call.args()
            compare(hist.attempt(call, twin, a), call, "deep copy")
            # whatever happens to the copy, the original is not disturbed
            before = hist.attempt(call, obj, call.args())
            before = (before[0], C.clone(before[1]))
            what = sim.choose(3, "abuse copy")
            with torch.no_grad():
                if what == 0:
                    for t in list(torch.nn.Module.parameters(twin)) + list(twin.buffers()):
                        if t.is_floating_point():
                            t.mul_(0.5)
                elif what == 1 and name in fit.NAMES:
                    fit.fit(twin, name, fit.refit_cfg(sim, name, cfg))
                else:
                    other = draw_call()
                    hist.attempt(other, twin, other.args())
            after = hist.attempt(call, obj, call.args())
            d = C.diff(after[1], before[1], 0.0) if before[0] == "ok" and after[0] == "ok" else None
            sim.check(after[0] == before[0] and d is None, "M03:original-disturbed", lambda: f"{name} {cfg}: original changed by use of its copy: {d or after}")
        elif how == 3:
            # restored beside the original, into an instance that already has a life of its own
            other = C.build(name, cfg)
            if name in fit.NAMES:
                fit.fit(other, name, fit.refit_cfg(sim, name, cfg))
            x = draw_call()
            hist.attempt(x, other, x.args())
            sd = torch.load(io.BytesIO(fit.snapshot_bytes(obj.state_dict())))
            other.load_state_dict(sd)
            sim.fault("restored-over-used-instance")
            compare(hist.attempt(call, other, call.args()), call, "its checkpoint loaded into a used instance", state=True)
        else:
            sd = dict(obj.state_dict())
            if not sd:
                continue
            blob = fit.snapshot_bytes(sd)
            if sim.flip(0.5, "torn or incomplete"):
                blob = blob[: sim.choose(len(blob), "torn at")]
                sim.fault("torn-checkpoint", len(blob))
                what = "torn"
            else:
                k = sim.pick(sorted(k for k in sd if not k.endswith("num_batches_tracked")), "missing")   # torch itself forgives that one
                del sd[k]
                blob = fit.snapshot_bytes(sd)
                sim.fault("incomplete-checkpoint", k)
                what = f"incomplete (without {k})"
            res = pristine.ask(("torn", name, cfg, blob, None, False, False))
            sim.check(res[0] == "err", "M03:accepted", lambda: f"{name} {cfg}: {what} checkpoint accepted")
        sim.steps += 1
    sim.tags.add(name)


SCENARIOS = {"life": (life, 1)}
