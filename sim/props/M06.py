"""M06: a request's result does not depend on its companions in a batch."""
import torch

from .. import catalog as C
from .. import hist

PROPERTY = "M06"
RULE = ("one evaluation = one simulated request server coalescing 2-7 requests into seeded batches (arrival order, batch sizes, position, "
        "poisoned companions); every row compared with the request alone; distinct = different history digest")
REAL = ["every batch-capable component of sim/catalog.py"]
STUB = ["request arrival, queue and batcher"]
QUICK, THOROUGH = 5000, 150000


def batchable(c):
    return bool(c.batched) and not c.rng and not c.inplace


def keys(c, a):
    return c.split_keys(a) if hasattr(c, "split_keys") else c.batched


def row(x, i, dim):
    if isinstance(x, torch.Tensor):
        return x.narrow(dim, i, 1)
    if isinstance(x, dict):
        return {k: row(v, i, dim) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(row(v, i, dim) for v in x)
    return x


def server(sim, pred=batchable):
    name = sim.pick(C.names(pred), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    obj, other = C.build(name, cfg), C.build(name, cfg)
    sim.log(name, cfg, spec)
    shared = c.args(cfg, spec, C.gen(sim.data_seed("shared")), 1)
    ks = keys(c, shared)
    mode = sim.pick(hist.MODES, "mode")

    def one(label):
        a = c.args(cfg, spec, C.gen(sim.data_seed(label)), 1)
        return {k: a[k] if k in ks else shared[k] for k in a}

    def run(o, a):
        try:
            with hist.ambient(mode):
                return ("ok", c.call(o, a))
        except Exception as e:  # noqa: BLE001 - outcome is compared
            return ("err", type(e).__name__ + ": " + str(e)[:200])

    reqs = [one("request") for _ in range(sim.between(2, 7, "requests"))]
    alone = []
    bad = set()
    for i, r in enumerate(reqs):
        if c.poison_ok and i and sim.flip(0.3, "poison"):
            c.poison(sim, cfg, r)
            sim.fault("poisoned-companion", i)
            bad.add(i)
        elif i and sim.flip(0.1, "scale"):
            # a loud neighbour is as independent as a broken one
            for k in ks:
                if r[k].is_floating_point() and r[k].ndim > 1:
                    r[k] = r[k] * 1e6
            sim.count("fault:loud-companion")
        elif i and sim.flip(0.1, "duplicate"):
            reqs[i] = r = dict(reqs[sim.choose(i, "of")])
    for r in reqs:
        alone.append(run(other, {k: C.clone(v) for k, v in r.items()}))
    for rnd in range(sim.between(1, 3, "rounds")):
        order = []
        left = list(range(len(reqs)))
        while left:
            order.append(left.pop(sim.choose(len(left), "arrival")))
        while order:
            n = sim.between(1, len(order), "coalesce")
            batch, order = order[:n], order[n:]
            if sim.flip(0.15, "repeat in batch"):
                batch = batch + [sim.pick(batch, "repeat")]
            a = {k: torch.cat([reqs[i][k] for i in batch]) if k in ks else shared.get(k, v) for k, v in reqs[0].items()}
            out = run(obj, a)
            sim.log("batch", batch, out[0])
            if out[0] == "err":
                refused = [i for i in batch if alone[i][0] == "err"]
                sim.check(bool(refused), "M06:refused", lambda: f"{name} {cfg} {spec}: batch {batch} fails ({out[1]}) though every request succeeds alone")
                continue
            for pos, i in enumerate(batch):
                sim.check(alone[i][0] == "ok", "M06:accepted", lambda: f"{name} {cfg} {spec}: request {i} is refused alone "
                          f"({alone[i][1]}) but served at position {pos} of batch {batch}")
                got = row(out[1], pos, c.outdim)
                d = C.diff(got, alone[i][1], c.tol(cfg, spec), c.floor)
                sim.check(d is None, "M06:row", lambda: f"{name} {cfg} {spec}: request {i} at position {pos} of batch {batch} "
                          f"(broken requests: {sorted(bad)}): {d} from the request alone")
                sim.steps += 1
    sim.tags.add(name)


def crowd(sim):
    """A few requests hidden in a large batch of strangers."""
    name = sim.pick(C.names(lambda c: batchable(c) and c.poison_ok), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    obj, other = C.build(name, cfg), C.build(name, cfg)
    N = sim.pick([17, 33, 40, 65, 70, 130, 257], "batch size")
    a = c.args(cfg, spec, C.gen(sim.data_seed("strangers")), N)
    ks = keys(c, c.args(cfg, spec, C.gen(0), 1))
    one = c.args(cfg, spec, C.gen(sim.data_seed("request")), 1)
    sim.log(name, cfg, spec, N)
    at = [0, N - 1, sim.choose(N, "position"), sim.choose(N, "position")]
    for p in at[:sim.between(1, 4, "copies")]:
        for k in ks:
            a[k][p] = one[k][0]
    alone = {k: one[k] if k in ks else a[k] for k in a}
    with hist.ambient("no_grad"):
        want = c.call(other, {k: C.clone(v) for k, v in alone.items()})
        try:
            out = c.call(obj, a)
        except (RuntimeError, ValueError, IndexError) as e:
            sim.check(False, "M06:refused", f"{name} {cfg} {spec}: a batch of {N} fails ({e!r}) though its requests succeed alone")
    for p in at:
        if all(torch.equal(a[k][p], one[k][0]) for k in ks):
            d = C.diff(row(out, p, c.outdim), want, c.tol(cfg, spec), c.floor)
            sim.check(d is None, "M06:row", lambda p=p, d=d: f"{name} {cfg} {spec}: request at position {p} of a batch of {N}: {d} from the request alone")
            sim.steps += 1
    sim.tags.add(name)


SCENARIOS = {"server": (server, 8), "crowd": (crowd, 1)}
