"""M01: fittable transforms refuse to run until completely fitted or restored."""
import copy
import io
import pickle

import torch

from .. import catalog as C
from .. import fit

PROPERTY = "M01"
RULE = ("one evaluation = one seeded life of a fittable transform: fits, failing fits, restores from good, partial, mismatched, foreign and "
        "torn checkpoints, uses; verdicts against a two-state model; distinct = different history digest")
REAL = ["ml4gw.transforms.transform.FittableTransform", "FixedWhiten", "ChannelWiseScaler", "SnrRescaler"]
STUB = ["durable storage of checkpoints (bytes in memory)", "allocation failures (torch dispatch mode)"]
QUICK, THOROUGH = 3000, 100000


def life(sim):
    name, cfg = fit.draw(sim)
    inner = fit.bare(name, cfg)
    depth = sim.choose(3, "nesting")
    prefix, root = "", inner
    sibling = None
    if depth:
        # the transform inside a larger model, next to other parameters
        parts = {"t": inner, "lin": torch.nn.Linear(2, 2)}
        if sim.flip(0.4, "fittable sibling"):
            sibling = fit.bare("ChannelWiseScaler", {"num_channels": 2})
            parts["t2"] = sibling
        root = torch.nn.ModuleDict(parts)
        prefix = "t."
        if depth == 2:
            root = torch.nn.Sequential(torch.nn.Identity(), root)
            prefix = "1.t."
    good = fit.fitted(name, cfg)
    local = {prefix + k: v for k, v in good.state_dict().items()}
    usable = False
    sim.log(name, cfg, "depth", depth, "sibling", sibling is not None)

    def full():
        sd = {k: v.clone() for k, v in root.state_dict().items()}
        sd.update({k: v.clone() for k, v in local.items()})
        return sd

    def load(sd, strict):
        try:
            root.load_state_dict(sd, strict=strict, assign=sim.flip(0.2, "assign"))
            return True
        except RuntimeError:
            return False

    def verdict(what):
        for _ in range(sim.between(1, 2, "uses")):
            spec = C.draw_spec(sim, name, cfg)
            got = fit.use(inner, name, cfg, spec, sim.data_seed())
            if usable:
                sim.check(got[0] == "ok", "M01:refused-fitted", lambda: f"{name} is fitted, but after {what}: {got[1]}")
            else:
                sim.check(got[0] != "ok", "M01:served-unfitted", lambda: f"{name} was never completely fitted or restored, but processes data after {what}")

    what = "construction"
    verdict(what)
    for step in range(sim.between(1, 7, "steps")):
        act = sim.choose(11, "action")
        if act == 0:
            a, k = C.REG[name].fit_args(fit.refit_cfg(sim, name, cfg))
            inner.fit(*a, **k)
            usable, what = True, "a completed fit"
        elif act == 1:
            a, k = fit.bad_fit_args(sim, name, cfg)
            err, _ = fit.try_fit(inner, a, k)
            if err is None:
                usable, what = True, "a fit on odd data"
            else:
                sim.fault("fit-on-bad-data", type(err).__name__)
                what = f"a fit refused with {type(err).__name__}"
        elif act in (2, 3):
            a, k = C.REG[name].fit_args(fit.refit_cfg(sim, name, cfg))
            err, f = fit.try_fit(inner, a, k, sim.choose(sim.pick([4, 15, 40, 90], "depth"), "at"))
            if err is None:
                usable, what = True, "a completed fit"
            else:
                sim.fault("allocation-failure", f.fired)
                what = f"a fit that failed for lack of memory in {f.fired}"
        elif act == 4:
            strict = sim.flip(0.5, "strict")
            ok = load(full(), strict)
            sim.check(ok, "M01:good-refused", lambda: f"a complete checkpoint of {name} was refused")
            usable, what = True, "a complete restore"
        elif act == 5:
            sd = full()
            drop = sorted(k for k in local if sim.flip(0.6, "drop")) or [sorted(local)[0]]
            for k in drop:
                del sd[k]
            strict = sim.flip(0.4, "strict")
            ok = load(sd, strict)
            sim.fault("partial-checkpoint", drop)
            sim.check(not (ok and strict), "M01:partial-accepted", lambda: f"checkpoint without {drop} was accepted by a strict load")
            what = f"a restore without {drop} (strict={strict})"
        elif act == 6:
            sd = full()
            k = sim.pick(sorted(local), "which")
            v = sd[k]
            how = sim.choose(3, "mismatch")
            sd[k] = torch.cat([v, v], -1) if how == 0 else (v[None] if how == 1 else v[..., :-1])
            ok = load(sd, sim.flip(0.5, "strict"))
            sim.fault("mismatched-checkpoint", k)
            sim.check(not ok, "M01:mismatch-accepted", lambda: f"checkpoint with {tuple(sd[k].shape)} for {k} {tuple(v.shape)} was accepted")
            what = f"a restore with a mismatched {k}"
        elif act == 7:
            # a checkpoint of something else
            how = sim.choose(4, "foreign")
            if how == 0:
                sd = {}
            elif how == 1:
                sd = {k: v for k, v in full().items() if k not in local}
            elif how == 2:
                sd = {"other." + k: v for k, v in full().items()}
            else:
                sd = {k + "_old": v for k, v in full().items()}
            strict = sim.flip(0.3, "strict")
            ok = load(sd, strict)
            sim.fault("foreign-checkpoint", how)
            sim.check(not (ok and strict), "M01:foreign-accepted", "foreign checkpoint accepted by a strict load")
            what = f"a restore from a foreign checkpoint (kind {how}, strict={strict})"
        elif act == 8:
            # the whole model moves to another process, or is copied
            kind = sim.pick(["deepcopy", "pickle", "torchsave"], "move")
            if kind == "deepcopy":
                root = copy.deepcopy(root)
            elif kind == "pickle":
                root = pickle.loads(pickle.dumps(root))
            else:
                root = torch.load(io.BytesIO(fit.snapshot_bytes(root)), weights_only=False)
            inner = root if depth == 0 else (root["t"] if depth == 1 else root[1]["t"])
            sim.fault("moved", kind)
            what = f"being moved ({kind})"
        elif act == 9:
            kind = sim.pick(["train", "to-cpu", "requires-grad", "state-dict", "double", "share"], "housekeeping")
            if kind == "train":
                root.train()
                root.eval()
            elif kind == "to-cpu":
                root.to("cpu")
            elif kind == "requires-grad":
                root.requires_grad_(False)
            elif kind == "state-dict":
                root.state_dict()
            elif kind == "double":
                root.double()
            else:
                root.share_memory()
            what = f"housekeeping ({kind})"
        else:
            data = fit.snapshot_bytes(full())
            cut = sim.choose(len(data), "torn at")
            sim.fault("torn-checkpoint", cut)
            try:
                sd = torch.load(io.BytesIO(data[:cut]))
                ok = load(sd, True)
            except Exception:  # noqa: BLE001 - a torn file is expected to be unreadable
                ok = False
            sim.check(not ok, "M01:torn-accepted", f"checkpoint torn at byte {cut} of {len(data)} was accepted")
            what = "a torn restore"
        sim.log(step, what)
        verdict(what)
        sim.steps += 1
    sim.tags.add(name)


SCENARIOS = {"life": (life, 1)}
