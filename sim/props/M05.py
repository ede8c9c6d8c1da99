"""M05: threads sharing a component each get the answer to their own input."""
from .. import catalog as C
from .. import faults, hist, pristine, sched

PROPERTY = "M05"
RULE = ("one evaluation = one seeded preemptive schedule of 2-4 threads calling a shared component (or siblings of its class); preemption "
        "at any statement of ml4gw and any torch operator; distinct = different history and schedule digest")
REAL = ["every thread-usable component of sim/catalog.py, on real threads", "threading locks created by ml4gw go through the scheduler"]
STUB = ["thread scheduling (one runs at a time, the seeded scheduler decides who and for how long)"]
QUICK, THOROUGH = 900, 30000


def usable(c):
    return c.threads and not c.rng and not c.inplace


def shared(sim, pred=usable):
    pristine.start(hist.handler)
    name = sim.pick(C.names(pred), "component")
    cfg = C.draw_cfg(sim, name)
    insts = [(cfg, C.build(name, cfg))]
    if sim.flip(0.3, "sibling"):
        c2 = C.near_cfg(sim, name, cfg)
        insts.append((c2, C.build(name, c2)))
    if sim.flip(0.3, "warm"):
        spec = C.draw_spec(sim, name, cfg)
        w = hist.Call(name, cfg, spec, sim.data_seed(), sim.between(1, 3, "batch"))
        hist.attempt(w, insts[0][1], w.args())
    base = {i: C.draw_spec(sim, name, c) for i, (c, _) in enumerate(insts)}
    work = []
    for t in range(sim.between(2, 4, "threads")):
        calls = []
        for _ in range(sim.between(1, 2, "calls")):
            i = sim.choose(len(insts), "instance")
            spec = base[i] if sim.flip(0.5, "same options") else C.near_spec(sim, name, insts[i][0], base[i])
            bad = (sim.choose(4, "bad arg"), sim.pick(hist.BAD, "how bad")) if sim.flip(0.07, "bad call") else None
            k = sim.choose(40, "alloc at") if sim.flip(0.05, "alloc fault") else None
            calls.append((i, hist.Call(name, insts[i][0], spec, sim.data_seed(), sim.between(1, 3, "batch"), sim.pick(hist.MODES[1:], "mode"),
                                       bad=bad), k))
        work.append(calls)
    s = sched.Scheduler(sim)

    def body(calls):
        def run():
            out = []
            for i, call, k in calls:
                f = faults.AllocFault(k) if k is not None else None
                a = call.args()
                r = hist.attempt(call, insts[i][1], a, f)
                out.append((r[0], C.clone(r[1]) if r[0] == "ok" else r[1:], f.fired if f else None))
            return out
        return run

    for t, calls in enumerate(work):
        s.spawn(f"t{t}", body(calls))
        for i, call, k in calls:
            sim.log(f"t{t}", i, call, k)
    for t, task in enumerate(s.run()):
        if task.error is not None:
            raise task.error
        for (i, call, k), got in zip(work[t], task.result, strict=True):
            if got[2]:
                sim.fault("allocation-failure", got[2])
                continue
            want = hist.fresh(call)
            if call.bad:
                sim.count("fault:rejected-call")
            sim.check((want[0] == "ok") == (got[0] == "ok"), "M05:outcome",
                      lambda: f"thread {t}: {call}: {got[:2] if got[0] != 'ok' else 'succeeded'}; alone: {want[1:3] if want[0] != 'ok' else 'succeeded'}")
            if want[0] == "ok":
                d = C.diff(got[1], want[1], min(1e-5, C.REG[name].tol(call.cfg, call.spec)))
                sim.check(d is None, "M05:result", lambda: f"thread {t}: {call}: {d} from the same call alone")
    sim.tags.add(name)


def preempt(sim, pred=usable):
    """One call is stopped at every stage in turn while another one runs."""
    pristine.start(hist.handler)
    name = sim.pick(C.names(pred), "component")
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    B = sim.between(1, 3, "batch")
    mode = sim.pick(hist.MODES[1:], "mode")
    cfgs, specs = [cfg, cfg], [spec, spec]
    if sim.flip(0.2, "sibling"):
        cfgs[1] = C.near_cfg(sim, name, cfg)
        specs[1] = spec if C.REG[name].ok_spec(cfgs[1], spec) else C.draw_spec(sim, name, cfgs[1])
    elif sim.flip(0.4, "other options"):
        specs[1] = C.near_spec(sim, name, cfg, spec)
    calls = [hist.Call(name, cfgs[t], specs[t], sim.data_seed(), B if t == 0 or sim.flip(0.7, "same batch") else 4 - B, mode) for t in range(2)]
    args = [c.args() for c in calls]
    want = [hist.fresh(c) for c in calls]
    sim.log(*calls)
    build = lambda: (lambda a: [a, a if cfgs[1] is cfg else C.build(name, cfgs[1])])(C.build(name, cfg))  # noqa: E731
    insts = build()
    keep = sim.flip(0.5, "one instance throughout")
    length = [0, 0]

    def once(script):
        s = sched.Scheduler(sim, script=script)
        for t in range(2):
            s.spawn(f"t{t}", lambda t=t: (lambda r: (r[0], C.clone(r[1])) if r[0] == "ok" else r)(hist.attempt(calls[t], insts[t], args[t])))
        tasks = s.run()
        for t, task in enumerate(tasks):
            if task.error is not None:
                raise task.error
            got = task.result
            length[t] = max(length[t], task.steps)
            sim.check((want[t][0] == "ok") == (got[0] == "ok"), "M05:outcome",
                      lambda: f"thread {t}, schedule {script}: {calls[t]}: {got[:3] if got[0] != 'ok' else 'succeeded'}; "
                              f"alone: {want[t][1:3] if want[t][0] != 'ok' else 'succeeded'}")
            if want[t][0] == "ok":
                d = C.diff(got[1], want[t][1], min(1e-5, C.REG[name].tol(calls[t].cfg, calls[t].spec)))
                sim.check(d is None, "M05:result", lambda: f"thread {t}, schedule {script}: {calls[t]}: {d} from the same call alone")

    once([(0, None), (1, None)])
    if not keep:
        insts = build()
    n = length[0]
    m = min(n, 14 if n < 150 else 9)
    phase = sim.choose(max(1, n), "phase")
    for j in range(m):
        k = 1 + (phase + j * n // m) % n
        script = [(0, k)]
        if sim.flip(0.3, "second preemption"):
            script += [(1, 1 + sim.choose(max(1, length[1]), "at")), (0, None)]
        script += [(1, None), (0, None)]
        once(script)
        if not keep:
            insts = build()
    sim.count("sched:switches", m)
    sim.count("fault:preempted-call", m)
    sim.tags.add("preempt:" + name)


def stateful(sim):
    """Components with intermediate state get more schedules."""
    shared(sim, lambda c: usable(c) and type(c).__name__ in (
        "SingleQTransform", "QScan", "SplineInterpolate1D", "SplineInterpolate2D", "QTile", "Whiten", "FixedWhiten", "SnrRescaler",
        "SpectralDensity", "Snapshotter", "OnlineAverager", "MultiResolutionSpectrogram"))


SCENARIOS = {"shared": (shared, 3), "stateful": (stateful, 2), "preempt": (preempt, 5)}
