"""M02: a failed fit leaves the previous fit fully in force."""
from .. import catalog as C
from .. import fit, pristine

PROPERTY = "M02"
RULE = ("one evaluation = one seeded sequence of successful and failing fits interleaved with use, every output compared with a fresh "
        "process given only the last successful fit; distinct = different history digest")
REAL = ["FixedWhiten", "ChannelWiseScaler", "SnrRescaler", "FittableTransform.build", "spectral.truncate_inverse_power_spectrum"]
STUB = ["allocation failures (torch dispatch mode)"]
QUICK, THOROUGH = 2000, 60000


def same(a, b, dtype_tol):
    return C.diff(a, b, dtype_tol)


def sequence(sim):
    pristine.start(fit.handler)
    # several instances alive at once: a fit of one is nobody else's business
    insts = []
    name, cfg = fit.draw(sim)
    for i in range(sim.between(1, 3, "instances")):
        if i:
            if sim.flip(0.3, "other class"):
                name, cfg = fit.draw(sim)
            elif sim.flip(0.5, "neighbour"):
                cfg = C.near_cfg(sim, name, cfg)
        insts.append([name, cfg, fit.fitted(name, cfg)])
        sim.log("instance", i, name, cfg)

    def verdict(what, which=None):
        for i, (n, c, obj) in enumerate(insts):
            if which is not None and i != which and not sim.flip(0.3, "check others"):
                continue
            spec = C.draw_spec(sim, n, c)
            seed, B = sim.data_seed(), sim.between(1, 3, "batch")
            got = fit.use(obj, n, c, spec, seed, B)
            if sim.flip(0.3, "fresh process"):
                want = pristine.ask((n, c, spec, seed, B))
                assert want[0] == "ok", want
                want = want[1]
            else:
                want = fit.use(fit.fitted(n, c), n, c, spec, seed, B)
            if want[0] != "ok":
                continue
            sim.check(got[0] == "ok", "M02:refused", lambda: f"{n} {c} no longer works after {what}: {got[1]}")
            d = C.diff(got[1], want[1], 1e-5)
            sim.check(d is None, "M02:result", lambda: f"{n} instance {i} after {what}: {d} from a fresh instance given only its last fit {c}")

    verdict("the first fits")
    for step in range(sim.between(1, 6, "steps")):
        i = sim.choose(len(insts), "instance")
        n, c, obj = insts[i]
        act = sim.choose(5, "action")
        if act in (0, 1):
            c2 = fit.refit_cfg(sim, n, c)
            fit.fit(obj, n, c2)
            insts[i][1] = c2
            what = f"refit of instance {i} with {c2}"
        elif act == 2:
            a, k = fit.bad_fit_args(sim, n, fit.refit_cfg(sim, n, c))
            err, _ = fit.try_fit(obj, a, k)
            if err is None:
                # odd but accepted: its result is not modelled, so fit again
                c2 = fit.refit_cfg(sim, n, c)
                fit.fit(obj, n, c2)
                insts[i][1] = c2
                what = "a refit"
            else:
                sim.fault("fit-on-bad-data", type(err).__name__)
                what = f"a refit of instance {i} that failed with {type(err).__name__}: {err}"[:200]
        else:
            c2 = fit.refit_cfg(sim, n, c)
            a, k = C.REG[n].fit_args(c2)
            err, f = fit.try_fit(obj, a, k, sim.choose(sim.pick([6, 20, 60, 120], "depth"), "at"))
            if err is None:
                insts[i][1] = c2
                what = "a refit"
            else:
                sim.fault("allocation-failure", f.fired)
                what = f"a refit of instance {i} out of memory at allocation {f.k} ({f.fired})"
        sim.log(step, what)
        verdict(what, i)
        sim.steps += 1
    sim.tags.add(name)


SCENARIOS = {"sequence": (sequence, 1)}
