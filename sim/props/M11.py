"""M11: components follow their module and data between devices and precisions."""
import copy
import io

import torch

from .. import accel
from .. import catalog as C
from .. import fit as F
from ..accel import DEV
from . import M03

PROPERTY = "M11"
RULE = ("one evaluation = one seeded history of moves (host, accelerator, double and single precision), calls, refits, checkpoints and copies, "
        "with device memory running out at any point; distinct = different history digest")
REAL = ["every component of sim/catalog.py", "ml4gw.dataloading (in-memory and chunked)", "torch.nn.Module.to, torch.save and torch.load"]
STUB = ["the accelerator (sim/accel.py: placement rules of a device, values computed on the host)", "device memory", "durable storage (bytes)"]
QUICK, THOROUGH = 1500, 50000
TOL = 1e-6
# objects that live on the host by construction; "born" builds the distributions elsewhere
HOSTED = {"IfoGeometry", "Distribution", "ComovingVolume", "WaveformSampler"}


def moved(x, dev):
    if isinstance(x, torch.Tensor):
        return x.to(dev)
    if isinstance(x, (list, tuple)):
        return type(x)(moved(v, dev) for v in x)
    if isinstance(x, dict):
        return {k: moved(v, dev) for k, v in x.items()}
    return x


def tensors(obj):
    """Parameters and buffers (checkpointed or not) of a module."""
    if not isinstance(obj, torch.nn.Module):
        return {}
    return {**dict(torch.nn.Module.named_parameters(obj)), **dict(torch.nn.Module.named_buffers(obj))}


def outcome(f, *a):
    try:
        return "ok", f(*a)
    except torch.OutOfMemoryError:
        return "oom", None
    except Exception as e:  # noqa: BLE001 - compared with the host's outcome
        return "err", f"{type(e).__name__}: {str(e)[:300]}"


def moves(sim):
    name = sim.pick(C.names(lambda c: c.name not in HOSTED), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec0 = C.draw_spec(sim, name, cfg)
    obj, twin = C.build(name, cfg), C.build(name, cfg)
    module = isinstance(obj, torch.nn.Module)
    sim.log(name, cfg)
    there = False
    story = []
    blob = None
    with accel.Accelerator() as dev:
        for _ in range(sim.between(3, 9, "events")):
            act = sim.choose(9, "event")
            k = sim.choose(60, "device memory for") if sim.flip(0.15, "device memory") else None
            if act == 0 or act > 5:
                spec = spec0 if sim.flip(0.5, "same options") else C.draw_spec(sim, name, cfg)
                seed, B = sim.data_seed(), sim.between(1, 3, "B")
                on = there if module else sim.flip(0.7, "data there")
                a = c.args(cfg, spec, C.gen(seed), B)
                b = moved(c.args(cfg, spec, C.gen(seed), B), DEV) if on else c.args(cfg, spec, C.gen(seed), B)
                want = outcome(C.invoke, name, twin, a, seed)
                dev.fail_at = k if on else None
                got = outcome(C.invoke, name, obj, b, seed)
                dev.fail_at = None
                story.append(f"call {'there' if on else 'here'} {got[0]}")
                desc = lambda: f"{name} {cfg} {spec} data {seed} B={B}: {'; '.join(story)}"  # noqa: B023, E731
                if got[0] == "oom":
                    sim.fault("device-memory", "call")
                    continue
                sim.check(got[0] == want[0], "M11:outcome", lambda: f"{desc()}: {got[1] if got[0] != 'ok' else 'succeeds'}; "   # noqa: B023
                          f"on the host: {want[1] if want[0] != 'ok' else 'succeeds'}")   # noqa: B023
                if got[0] != "ok":
                    continue
                at = accel.place(got[1])
                if isinstance(got[1], (torch.Tensor, list, tuple, dict)) and at != "none":
                    sim.check(at == ("device" if on else "host"), "M11:placement", lambda: f"{desc()}: the results are on "   # noqa: B023
                              f"{[(p, str(t.device)) for p, t in C.leaves(got[1])]}")   # noqa: B023
                d = C.diff(accel.to_host(got[1]), want[1], TOL)
                sim.check(d is None, "M11:values", lambda: f"{desc()}: {d} from an instance that never left the host")   # noqa: B023
            elif not module:
                continue
            elif act in (1, 2):
                to = not there if act == 1 else sim.flip(0.5, "to the device")
                dev.fail_at = k
                r = outcome(obj.to, DEV if to else "cpu")
                dev.fail_at = None
                story.append(f"move {'there' if to else 'here'} {r[0]}")
                if r[0] == "oom":       # half-way: try again, or give up and come back
                    sim.fault("device-memory", "move")
                    to = sim.flip(0.5, "try again")
                    r = outcome(obj.to, DEV if to else "cpu")
                    story.append(f"then {'there' if to else 'here'}")
                sim.check(r[0] == "ok", "M11:move", lambda: f"{name} {cfg}: {'; '.join(story)}: {r[1]}")   # noqa: B023
                there = to
                left = [n for n, t in tensors(obj).items() if isinstance(t, accel.Accel) != there]
                sim.check(not left, "M11:move", lambda: f"{name} {cfg}: {'; '.join(story)}: {left} did not move")   # noqa: B023
            elif act == 3:
                if name not in F.NAMES:
                    continue
                c2 = F.refit_cfg(sim, name, cfg)
                fa, fk = c.fit_args(c2)
                want = outcome(lambda: twin.fit(*fa, **fk))     # noqa: B023
                fa, fk = c.fit_args(c2)
                dev.fail_at = k if there else None
                got = outcome(lambda: obj.fit(*moved(fa, DEV if there else "cpu"), **moved(fk, DEV if there else "cpu")))   # noqa: B023
                dev.fail_at = None
                story.append(f"fit {'there' if there else 'here'} {got[0]}")
                if got[0] == "oom":
                    sim.fault("device-memory", "fit")
                    fa, fk = c.fit_args(c2)
                    got = outcome(lambda: obj.fit(*moved(fa, DEV), **moved(fk, DEV)))   # noqa: B023
                sim.check(got[0] == want[0], "M11:fit", lambda: f"{name} {cfg} -> {c2}: {'; '.join(story)}: {got[1]}; on the host: {want[1]}")   # noqa: B023
            elif act == 4:
                if blob is None or sim.flip(0.5, "save"):
                    b = io.BytesIO()
                    torch.save(obj.state_dict(), b)
                    b2 = io.BytesIO()
                    torch.save(twin.state_dict(), b2)
                    blob = b.getvalue(), b2.getvalue()
                    story.append("save")
                else:
                    how = sim.choose(3, "restore into")
                    if how:     # a fresh object, on the host
                        try:
                            obj, twin = M03.other_start(name, cfg), M03.other_start(name, cfg)
                        except Exception:  # noqa: BLE001 - not every component can be built unfitted
                            obj, twin = C.build(name, cfg), C.build(name, cfg)
                        there = False
                    dev.gone = how == 2     # a machine without the device
                    try:
                        sd = torch.load(io.BytesIO(blob[0]), weights_only=False)
                    finally:
                        dev.gone = False
                    if sd:
                        obj.load_state_dict(sd)
                        twin.load_state_dict(torch.load(io.BytesIO(blob[1]), weights_only=False))
                    story.append(f"restore {how}")
                    left = [n for n, t in tensors(obj).items() if isinstance(t, accel.Accel) != there]
                    sim.check(not left, "M11:move", lambda: f"{name} {cfg}: {'; '.join(story)}: {left} changed places with the checkpoint")   # noqa: B023
            else:
                obj = copy.deepcopy(obj)
                story.append("copy")
            sim.log(story[-1] if story else None)
            sim.steps += 1
        if module:
            obj.to("cpu")
            mine, other = obj.state_dict(), twin.state_dict()
            sim.check(list(mine) == list(other), "M11:state", lambda: f"{name} {cfg}: {'; '.join(story)}: state {list(mine)} rather than {list(other)}")
            for k in other:
                d = C.diff(accel.to_host(mine[k]), other[k], TOL)
                sim.check(d is None, "M11:state", lambda k=k, d=d: f"{name} {cfg}: {'; '.join(story)}: {k} {d} from an instance that never left the host")
    if module:      # back on the host, for good: no trace of the device
        seed = sim.data_seed()
        want = outcome(C.invoke, name, twin, c.args(cfg, spec0, C.gen(seed), 2), seed)
        got = outcome(C.invoke, name, obj, c.args(cfg, spec0, C.gen(seed), 2), seed)
        sim.check(got[0] == want[0], "M11:back", lambda: f"{name} {cfg} {spec0}: {'; '.join(story)}: back on the host: {got[1] if got[0] != 'ok' else 'succeeds'}; "
                  f"never left: {want[1] if want[0] != 'ok' else 'succeeds'}")
        if got[0] == "ok":
            sim.check(accel.place(got[1]) in ("host", "none"), "M11:back", lambda: f"{name} {cfg} {spec0}: {'; '.join(story)}: results are still on the device")
            d = C.diff(got[1], want[1], TOL)
            sim.check(d is None, "M11:back", lambda: f"{name} {cfg} {spec0}: {'; '.join(story)}: back on the host: {d} from an instance that never left")
    sim.counters["device operations"] = sim.counters.get("device operations", 0) + dev.ops
    sim.tags.add(name)


def precision(sim):
    """double() and float() at any point; data follows."""
    name = sim.pick(C.names(M03.is_module), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec0 = C.draw_spec(sim, name, cfg)
    obj = C.build(name, cfg)
    if not isinstance(obj, torch.nn.Module):
        return
    sim.log(name, cfg)
    double = rounded = False        # now; since the last fit
    fitted = None                   # (configuration, precision) of the last fit
    story = []
    native = {t.dtype for t in tensors(obj).values()}

    def fresh():
        """A new instance taken straight here."""
        o = C.build(name, cfg)
        if fitted:
            if fitted[1]:
                o.double()
            fa, fk = c.fit_args(fitted[0])
            o.fit(*(C.double(fa) if fitted[1] else fa), **fk)
        if rounded:
            o.float()
        if double:
            o.double()
        return o

    for _ in range(sim.between(2, 7, "events")):
        act = sim.choose(5, "event")
        if act < 2:
            spec = spec0 if sim.flip(0.5, "same options") else C.draw_spec(sim, name, cfg)
            seed, B = sim.data_seed(), sim.between(1, 3, "B")

            def args(wide=double, spec=spec, seed=seed, B=B):
                a = c.args(cfg, spec, C.gen(seed), B)
                return {k: C.double(v) for k, v in a.items()} if wide else a
            got = outcome(C.invoke, name, obj, args(), seed)
            want = outcome(C.invoke, name, fresh(), args(), seed)
            story.append(f"call {got[0]}")
            desc = f"{name} {cfg} {spec} data {seed} B={B}: {'; '.join(story)}"
            sim.check(got[0] == want[0], "M11:precision", lambda: f"{desc}: {got[1] if got[0] != 'ok' else 'succeeds'}; "     # noqa: B023
                      f"a new instance: {want[1] if want[0] != 'ok' else 'succeeds'}")      # noqa: B023
            if got[0] == "ok":
                d = C.diff(got[1], want[1], TOL)
                sim.check(d is None, "M11:precision", lambda: f"{desc}: {d} from a new instance taken straight there")      # noqa: B023
            if double and not c.rng and not rounded and native != {torch.float64}:
                o = C.build(name, cfg)
                if fitted:
                    fa, fk = c.fit_args(fitted[0])
                    o.fit(*fa, **fk)
                single = outcome(C.invoke, name, o, args(False), seed)
                if single[0] != "ok":
                    continue
                sim.check(got[0] == "ok", "M11:double", lambda: f"{desc}: {got[1]}; in single precision it succeeds")     # noqa: B023
                d = C.diff(C.double(got[1]), C.double(single[1]), max(c.tol(cfg, spec), 1e-3), c.floor)
                sim.check(d is None, "M11:double", lambda: f"{desc}: {d} from single precision")       # noqa: B023
        elif act < 4:
            double = not double if act == 2 else sim.flip(0.5, "double")
            # to(dtype) is for real modules: PyTorch drops imaginary parts
            real = all(v.is_floating_point() for v in tensors(obj).values())
            r = outcome(obj.to, torch.float64 if double else torch.float32) if real and sim.flip(0.5, "to") else outcome(obj.double if double else obj.float)
            rounded = rounded or not double
            story.append("double" if double else "single")
            sim.check(r[0] == "ok", "M11:precision", lambda: f"{name} {cfg}: {'; '.join(story)}: {r[1]}")       # noqa: B023
            sim.fault("precision-change")
        elif name in F.NAMES:
            c2 = F.refit_cfg(sim, name, cfg)
            fa, fk = c.fit_args(c2)
            r = outcome(lambda: obj.fit(*(C.double(fa) if double else fa), **fk))       # noqa: B023
            story.append(f"fit {r[0]}")
            if r[0] == "ok":
                fitted, rounded = (c2, double), rounded and not double
        sim.log(story[-1] if story else None)
        sim.steps += 1
    sim.tags.add(name)


def born_distribution(sim):
    import ml4gw.distributions as D
    name = sim.pick(["Distribution", "Distribution", "ComovingVolume"], "which")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    here = C.build(name, cfg)
    if name == "Distribution":
        cls, a = C.DISTS[cfg["dist"]]
        if not a:
            return
        there = getattr(D, cls)(*(torch.tensor(float(v)).to(DEV) for v in a[:2]), *a[2:])
    else:
        kw = {k: v for k, v in cfg.items() if k != "cls"}
        if cfg["distance_type"] != "redshift":
            kw["minimum"], kw["maximum"] = 100 * kw["minimum"], 1000 * kw["maximum"]
        kw.update({k: torch.tensor(kw[k]).to(DEV) for k in ("minimum", "maximum")})
        there = D.RateEvolution(lambda z: 1 / (1 + z), **kw) if cfg["cls"] == "RateEvolution" else D.UniformComovingVolume(**kw)
    for _ in range(sim.between(1, 3, "draws")):
        seed = sim.data_seed()
        want = outcome(C.invoke, name, here, c.args(cfg, spec, C.gen(seed), 1), seed)
        got = outcome(C.invoke, name, there, moved(c.args(cfg, spec, C.gen(seed), 1), DEV), seed)
        desc = f"{name} {cfg} {spec} with parameters on the device"
        sim.check(got[0] == want[0], "M11:born", lambda: f"{desc}: {got[1] if got[0] != 'ok' else 'succeeds'}; on the host: {want[1] if want[0] != 'ok' else 'succeeds'}")   # noqa: B023
        if got[0] != "ok":
            continue
        sim.check(accel.place(got[1]) == "device", "M11:born", lambda: f"{desc}: the results are on the host")      # noqa: B023
        d = C.diff(accel.to_host(got[1]), want[1], TOL)
        sim.check(d is None, "M11:born", lambda: f"{desc}: {d} from the same distribution on the host")     # noqa: B023
    sim.tags.add(name)


def born_loader(sim, dev):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset, InMemoryDataset
    g = C.gen(sim.data_seed())
    chunked = sim.flip(0.5, "chunked")
    ch, k = sim.pick([1, 2, 3], "channels"), sim.pick([4, 8], "kernel")
    coincident = sim.flip(0.5, "coincident")
    if chunked:
        chunks = [C.randn(g, sim.between(1, 3, "rows"), ch, sim.between(12, 40, "chunk")) for _ in range(sim.between(1, 3, "chunks"))]
        already = sim.flip(0.3, "chunks already there")
        kw = dict(kernel_size=k, batch_size=sim.between(1, 4, "batch"), batches_per_chunk=sim.between(1, 3, "per chunk"), coincident=coincident)
        here = ChunkedTimeSeriesDataset(chunks, device="cpu", **kw)
        there = ChunkedTimeSeriesDataset([x.to(DEV) for x in chunks] if already else chunks, device=str(DEV), **kw)
    else:
        X = C.randn(g, ch, sim.between(40, 80, "length"))
        y = X[0].clone() if coincident and sim.flip(0.5, "target") else None
        kw = dict(kernel_size=k, batch_size=sim.between(1, 4, "batch"), stride=sim.pick([1, 3], "stride"), coincident=coincident, y=y,
                  shuffle=sim.flip(0.6, "shuffle"), batches_per_epoch=None if coincident and sim.flip(0.4, "whole") else sim.between(1, 2, "per epoch"))
        here = InMemoryDataset(X, device="cpu", **kw)
        there = InMemoryDataset(X, device=str(DEV), **kw)
    for epoch in range(sim.between(1, 2, "epochs")):
        seed = sim.data_seed()
        torch.manual_seed(seed % 2**31)
        want = outcome(lambda: [C.clone(b) for b in here])
        torch.manual_seed(seed % 2**31)
        got = outcome(lambda: list(there))
        desc = f"{type(here).__name__} {kw} hosted on the device, epoch {epoch}"
        sim.check(got[0] == want[0], "M11:loader", lambda: f"{desc}: {got[1] if got[0] != 'ok' else 'succeeds'}; on the host: {want[1] if want[0] != 'ok' else 'succeeds'}")     # noqa: B023
        if got[0] != "ok":
            continue
        sim.check(accel.place(got[1]) == "device", "M11:loader", lambda: f"{desc}: batches on the {accel.place(got[1])}")       # noqa: B023
        d = C.diff(accel.to_host(got[1]), want[1], TOL)
        sim.check(d is None, "M11:loader", lambda: f"{desc}: {d} from the one on the host")     # noqa: B023
    sim.tags.add(type(here).__name__)


def born_spline(sim):
    name = sim.pick(["SplineInterpolate1D", "SplineInterpolate2D"], "spline")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    here = C.build(name, cfg)
    kw = {k: getattr(here, k) for k in ("x_in", "y_in", "x_out", "y_out", "kx", "ky", "sx") if hasattr(here, k)}
    there = outcome(lambda: type(here)(**moved(kw, DEV)))
    seed = sim.data_seed()
    a = c.args(cfg, spec, C.gen(seed), 2)
    want = c.call(here, c.args(cfg, spec, C.gen(seed), 2))
    got = outcome(lambda: c.call(there[1], moved(a, DEV))) if there[0] == "ok" else there
    desc = f"{name} {cfg} {spec} with coordinates on the device"
    sim.check(got[0] == "ok", "M11:born", lambda: f"{desc}: {got[1]}")
    sim.check(accel.place(got[1]) == "device", "M11:born", lambda: f"{desc}: the results are on the host")
    d = C.diff(accel.to_host(got[1]), want, TOL)
    sim.check(d is None, "M11:born", lambda: f"{desc}: {d} from the one on the host")


def born(sim):
    """Objects told where to live when they are made."""
    with accel.Accelerator() as dev:
        [born_loader, born_loader, lambda s, _: born_distribution(s), lambda s, _: born_distribution(s), lambda s, _: born_spline(s)][
            sim.choose(5, "what")](sim, dev)
    sim.counters["device operations"] = sim.counters.get("device operations", 0) + dev.ops
    sim.steps += 1


SCENARIOS = {"moves": (moves, 6), "precision": (precision, 4), "born": (born, 1)}
