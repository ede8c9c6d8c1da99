"""M04: results do not depend on what was computed before."""
import torch

from .. import catalog as C
from .. import faults, hist, pristine

PROPERTY = "M04"
RULE = ("one evaluation = one seeded history of constructions, calls, rejected calls and allocation faults over several component "
        "instances, every result compared with the same call in a pristine process; distinct = different history digest")
REAL = ["every component of sim/catalog.py: spectral functions and transforms, Q transform, splines, filters, detector projection, waveforms, "
        "networks, streaming components, slicing, distributions"]
STUB = ["none (allocator failures come from a torch dispatch mode)"]
QUICK, THOROUGH = 1300, 40000
TOL = 1e-5


def tolerance(call):
    # the same program on the same data; only memory alignment may differ
    return min(TOL, C.REG[call.name].tol(call.cfg, call.spec)) if call.default == "f32" else C.REG[call.name].tol(call.cfg, call.spec)


def history(sim, pred=lambda c: True):
    pristine.start(hist.handler)
    pool = []          # [name, cfg, obj, last spec, last args]

    def add(name, cfg):
        pool.append([name, cfg, C.build(name, cfg), None, None, 1])
        sim.log("new", len(pool) - 1, name, cfg)

    name = sim.pick(C.names(pred), "component")
    add(name, C.draw_cfg(sim, name))
    for _ in range(sim.between(0, 2, "more instances")):
        how = sim.choose(4, "which more")
        if how == 3:
            other = sim.pick(C.names(pred), "component")
            add(other, C.draw_cfg(sim, other))
        else:
            base = sim.pick(pool, "neighbour of")
            add(base[0], C.near_cfg(sim, base[0], base[1]) if how else dict(base[1]))
    for step in range(sim.between(3, 9, "steps")):
        e = sim.pick(pool, "instance")
        name, cfg, obj, last, last_args = e[:5]
        if sim.flip(0.12, "new instance"):
            add(name, C.near_cfg(sim, name, cfg))
            continue
        if last is None or sim.flip(0.25, "new call options"):
            spec = C.draw_spec(sim, name, cfg)
        elif sim.flip(0.5, "neighbouring call options"):
            spec = C.near_spec(sim, name, cfg, last)
        else:
            spec = last
        bad = (sim.choose(4, "bad arg"), sim.pick(hist.BAD, "how bad")) if sim.flip(0.15, "bad call") else None
        B = sim.between(1, 3, "batch") if last is None or sim.flip(0.4, "new batch") else e[5]
        call = hist.Call(name, cfg, spec, sim.data_seed("data"), B, sim.pick(hist.MODES, "mode"),
                         "f64" if sim.flip(0.06, "default f64") else "f32", bad, sim.data_seed("rng"))
        a = call.args()
        if last_args is not None and not bad and sim.flip(0.35, "reuse buffers"):
            a = hist.refill(last_args, a)
            sim.count("fault:argument-buffers-reused")
        sim.log(step, [x is e for x in pool].index(True), call)
        fault = None
        if sim.flip(0.25, "alloc fault"):
            # a call that fails half way: its result is nobody's, the next ones must not notice
            fault = faults.draw(sim)
        got = hist.attempt(call, obj, a, fault)
        sim.check(not call.leak, "M04:settings", lambda: f"{call} ({got[0]}) left process-wide settings changed: {call.leak}")
        e[3:] = [spec, a if not bad else last_args, B]
        if fault is not None and fault.fired:
            sim.fault(fault.kind, fault.fired)
            if got[0] == "oom":
                continue
        want = hist.fresh(call)
        if bad:
            sim.count("fault:rejected-call" if want[0] != "ok" else "fault:odd-call")
        if want[0] != "ok" or got[0] != "ok":
            if got[0] == "err" and fault is not None and fault.fired:
                continue
            sim.check((want[0] == "ok") == (got[0] == "ok"), "M04:outcome",
                      lambda: f"{call} after this history: {got[:3] if got[0] != 'ok' else 'succeeded'}; "
                              f"in a fresh process: {want[1:3] if want[0] != 'ok' else 'succeeded'}")
            continue
        d = C.diff(got[1], want[1], tolerance(call))
        sim.check(d is None, "M04:result", lambda: f"{call}: {d} from what a fresh process gives")
        sim.tags.add(name)
        if sim.flip(0.2, "consumer overwrites result"):
            for _, t in C.leaves(got[1]):
                if not t.is_inference() and t.numel() and not any(t.untyped_storage().data_ptr() == x.untyped_storage().data_ptr() for _, x in C.leaves(a)):
                    with torch.no_grad():
                        try:
                            t.zero_()
                        except RuntimeError:
                            pass
            sim.count("fault:consumer-overwrites-result")
        sim.steps += 1


def neighbours(sim):
    """The same work under configurations and options that differ in one field."""
    pristine.start(hist.handler)
    name = sim.pick(C.names(), "component")
    comp = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    B = sim.between(1, 3, "batch")
    seed = sim.data_seed("data")
    todo = []
    for opts, base, ok in ((comp.cfg, cfg, comp.valid), (comp.spec, spec, lambda s: comp.ok_spec(cfg, s))):
        for k, v in opts.items():
            alts = [x for x in v if x != base[k]]
            if alts:
                d = dict(base)
                d[k] = sim.pick(alts, "alternative")
                if ok(d):
                    todo.append((d, spec) if opts is comp.cfg else (cfg, d))
    run_all(sim, name, cfg, spec, B, seed, todo, 7)
    sim.tags.add("neighbours:" + name)


def grid(sim):
    """All combinations of two or three construction options.

    Different configurations can share a derived quantity (a length in
    samples, a number of bins); whatever is remembered under it must not be
    taken for the others'.
    """
    pristine.start(hist.handler)
    many = [n for n in C.names() if sum(len(v) > 1 for v in C.REG[n].cfg.values()) > 1]
    name = sim.pick(many, "component")
    comp = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    left = [k for k, v in comp.cfg.items() if len(v) > 1]
    fields = [left.pop(sim.choose(len(left), "field")) for _ in range(min(len(left), sim.between(2, 3, "fields")))]
    todo = [dict(cfg)]
    for k in fields:
        todo = [dict(d, **{k: v}) for d in todo for v in comp.cfg[k]]
    todo = [(d, spec) for d in todo if d != cfg and comp.valid(d)]
    run_all(sim, name, cfg, spec, sim.between(1, 2, "batch"), sim.data_seed("data"), todo, 9)
    sim.tags.add("grid:" + name)


def run_all(sim, name, cfg, spec, B, seed, todo, limit):
    comp = C.REG[name]
    todo = [(c, s) for c, s in todo if comp.ok_spec(c, s)]
    for i in range(len(todo) - 1, 0, -1):
        j = sim.choose(i + 1, "order")
        todo[i], todo[j] = todo[j], todo[i]
    todo = [(cfg, spec)] + todo[:limit]
    if sim.flip(0.5, "return to base"):
        todo.append((cfg, spec))
    objs = {}
    same_data = sim.flip(0.6, "same data seed")
    early = sim.flip(0.3, "construct all first")
    halting, lines = sim.flip(0.4, "interrupted first"), 0
    for step, (c, s) in enumerate(todo):
        call = hist.Call(name, c, s, seed if same_data else seed + step, B, call_seed=seed)
        sim.log(step, call)
        for c2, _ in todo if early else [(c, s)]:
            key = repr(sorted(c2.items()))
            if key not in objs:
                objs[key] = C.build(name, c2)
        obj = objs[repr(sorted(c.items()))]
        if halting and lines:
            # the user stops this call somewhere and repeats it
            f = faults.LineFault(sim.choose(lines, "interrupt at line"))
            hist.attempt(call, obj, call.args(), f)
            if f.fired:
                sim.fault(f.kind, f.fired)
            sim.check(not call.leak, "M04:settings", lambda: f"{call} (interrupted) left process-wide settings changed: {call.leak}")
        f = faults.LineFault(None) if halting and not lines else None
        got = hist.attempt(call, obj, call.args(), f)
        lines = f.n if f is not None else lines
        sim.check(not call.leak, "M04:settings", lambda: f"{call} ({got[0]}) left process-wide settings changed: {call.leak}")
        want = hist.fresh(call)
        sim.check((want[0] == "ok") == (got[0] == "ok"), "M04:outcome",
                  lambda: f"{call} after this history: {got[:3] if got[0] != 'ok' else 'succeeded'}; "
                          f"in a fresh process: {want[1:3] if want[0] != 'ok' else 'succeeded'}")
        if want[0] == "ok":
            d = C.diff(got[1], want[1], tolerance(call))
            sim.check(d is None, "M04:result", lambda: f"{call}: {d} from what a fresh process gives")
        sim.steps += 1


def spectral(sim):
    history(sim, lambda c: c.__class__.__name__ in (
        "SpectralDensity", "Whiten", "FixedWhiten", "SingleQTransform", "QScan", "QTile", "SplineInterpolate1D", "SplineInterpolate2D",
        "MultiResolutionSpectrogram", "FnWhiten", "TruncateInverse", "Heterodyne", "Decimator"))


SCENARIOS = {"all": (history, 3), "transforms": (spectral, 2), "neighbours": (neighbours, 3), "grid": (grid, 2)}
