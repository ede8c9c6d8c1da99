"""M08: a backward pass yields the gradient of its own forward call."""
import torch

from .. import catalog as C
from .. import faults, hist, pristine, rngseam

PROPERTY = "M08"
RULE = ("one evaluation = one seeded interleaving of the forward and backward passes of several requests (with inference calls, failing "
        "calls and poisoned companions between and beside them); distinct = different history digest")
REAL = ["every differentiable component of sim/catalog.py", "torch autograd"]
STUB = ["order of the passes, batch coalescing, allocation failures"]
QUICK, THOROUGH = 2600, 90000


def floats(a):
    """Paths of the floating-point tensors among the arguments."""
    return [k for k, v in a.items() if isinstance(v, torch.Tensor) and (v.is_floating_point() or v.is_complex())]


def usable(c):
    return not c.inplace and c.name not in ("Distribution", "ComovingVolume", "IfoGeometry")


def leaves(out):
    if isinstance(out, torch.Tensor):
        return [out]
    if isinstance(out, dict):
        return [t for v in out.values() for t in leaves(v)]
    if isinstance(out, (list, tuple)):
        return [t for v in out for t in leaves(v)]
    return []


def loss(out, seed, pick=None):
    g = C.gen(seed)
    total = None
    for t in leaves(out):
        if not t.requires_grad:
            continue
        w = torch.randn(t.shape, generator=g, dtype=torch.float64)
        if t.is_complex():
            s = (t.real * w).sum() + (t.imag * w.flip(-1) if t.ndim else t.imag * w).sum()
        else:
            s = (t * w).sum()
        total = s if total is None else total + s
    return total


def params(obj):
    return dict(sorted(torch.nn.Module.named_parameters(obj))) if isinstance(obj, torch.nn.Module) else {}


def forward(name, obj, cfg, spec, seed, B, call_seed, train):
    """(inputs that want gradients, loss)"""
    c = C.REG[name]
    a = c.args(cfg, spec, C.gen(seed), B)
    want = {}
    for k in floats(a):
        want[k] = a[k] = a[k].clone().requires_grad_(True)
    if isinstance(obj, torch.nn.Module):
        obj.train(train)
    rngseam.seed_all(call_seed)
    with torch.enable_grad():
        out = c.call(obj, a)
        return want, loss(out, seed + 1)


def backward(obj, want, total):
    ps = {k: p for k, p in params(obj).items() if p.requires_grad}
    if total is None:
        return {}
    gs = torch.autograd.grad(total, list(want.values()) + list(ps.values()), allow_unused=True)
    return {k: (None if g is None else g.clone()) for k, g in zip([*want, *("param " + p for p in ps)], gs, strict=True)}


def alone(req):
    name, cfg, spec, seed, B, call_seed, train = req
    obj = C.build(name, cfg)
    want, total = forward(name, obj, cfg, spec, seed, B, call_seed, train)
    return backward(obj, want, total)


def differ(name, cfg, spec, got, want):
    c = C.REG[name]
    if set(got) != set(want):
        return f"gradients for {sorted(got)} rather than {sorted(want)}"
    for k in want:
        if (got[k] is None) != (want[k] is None):
            return f"{k}: gradient {'missing' if got[k] is None else 'unexpected'}"
        if want[k] is not None:
            d = C.diff(got[k], want[k], 1e-5)
            if d:
                return f"{k}: {d}"
    return None


def interleaved(sim):
    """Several requests in flight: passes in any order, other work in between."""
    pristine.start(alone)
    name = sim.pick(C.names(usable), "component")
    cfg = C.draw_cfg(sim, name)
    insts = [(cfg, C.build(name, cfg))]
    if sim.flip(0.3, "sibling"):
        c2 = C.near_cfg(sim, name, cfg)
        insts.append((c2, C.build(name, c2)))
    train = C.REG[name].net and sim.flip(0.3, "train mode")
    spec0 = C.draw_spec(sim, name, cfg)
    flight, todo = [], sim.between(2, 4, "requests")
    sim.log(name, cfg, train)
    n = 0
    while todo or flight:
        act = sim.choose(4, "next")
        if act == 3:
            i = sim.choose(len(insts), "of")
            c, obj = insts[i]
            spec = spec0 if sim.flip(0.5, "same options") and C.REG[name].ok_spec(c, spec0) else C.draw_spec(sim, name, c)
            bad = (sim.choose(4, "bad arg"), sim.pick(hist.BAD, "how bad")) if sim.flip(0.2, "bad") else None
            call = hist.Call(name, c, spec, sim.data_seed(), sim.between(1, 3, "B"), sim.pick(hist.MODES, "mode"), bad=bad, call_seed=sim.data_seed())
            f = faults.draw(sim, [40]) if sim.flip(0.2, "alloc fault") else None
            if isinstance(obj, torch.nn.Module):
                obj.eval()
            r = hist.attempt(call, obj, call.args(), f)
            if r[0] == "oom":
                sim.fault(f.kind)
            elif bad:
                sim.fault("rejected-call")
            sim.log("call", i, r[0])
            r = None
            if not todo and not flight:
                break
        elif todo and (act < 2 or not flight):
            todo -= 1
            i = sim.choose(len(insts), "of")
            c, obj = insts[i]
            spec = spec0 if sim.flip(0.6, "same options") and C.REG[name].ok_spec(c, spec0) else C.draw_spec(sim, name, c)
            req = (name, c, spec, sim.data_seed(), sim.between(1, 3, "B"), sim.data_seed(), train)
            try:
                f = ("ok", forward(name, obj, *req[1:]))
            except Exception as e:  # noqa: BLE001 - compared with the request alone
                f = ("err", f"{type(e).__name__}: {e}"[:300])
            flight.append((n, i, req, f))
            sim.log("forward", n, i, f[0])
            n += 1
        elif flight:
            j = sim.choose(len(flight), "whose backward")
            no, i, req, f = flight.pop(j)
            got = f
            if f[0] == "ok":
                try:
                    got = ("ok", backward(insts[i][1], *f[1]))
                except Exception as e:  # noqa: BLE001
                    got = ("err", f"{type(e).__name__}: {e}"[:300])
            if sim.flip(0.25, "fresh process"):
                want = pristine.ask(req)
            else:
                try:
                    want = ("ok", alone(req))
                except Exception as e:  # noqa: BLE001
                    want = ("err", type(e).__name__, f"{e}"[:300])
            sim.log("backward", no, got[0])
            sim.check(got[0] == want[0], "M08:outcome", lambda: f"request {no} ({req}), {len(flight)} others in flight: "
                      f"{got[1] if got[0] != 'ok' else 'succeeds'}; alone: {want[1:3] if want[0] != 'ok' else 'succeeds'}")
            if got[0] == "ok":
                d = differ(name, req[1], req[2], got[1], want[1])
                sim.check(d is None, "M08:gradient", lambda: f"request {no} ({req}): {d} from the request alone")
                sim.counters["gradients"] = sim.counters.get("gradients", 0) + sum(v is not None for v in want[1].values())
        sim.steps += 1
    sim.count("sched:switches", n)
    sim.tags.add(name)


def rowloss(out, i, dim, seed):
    return loss(rowof(out, i, dim), seed)


def rowof(x, i, dim):
    if isinstance(x, torch.Tensor):
        return x.narrow(dim, i, 1)
    if isinstance(x, dict):
        return {k: rowof(v, i, dim) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [rowof(v, i, dim) for v in x]
    return x


def off(got, want, tol, floor=0.0):
    """None, or how got departs from want (both tensors)."""
    if not torch.equal(got.isnan(), want.isnan()):
        return "NaN in different places"
    got, want = got.nan_to_num(0.0, 0.0, 0.0), want.nan_to_num(0.0, 0.0, 0.0)
    d = float((got - want).abs().max()) if want.numel() else 0.0
    s = float(want.abs().max()) if want.numel() else 0.0
    return None if d <= tol * max(s, floor) + 1e-300 else f"differs by {d:.3g} (scale {s:.3g})"


def companions(sim):
    """The loss of one request in a batch: its own gradient, and nobody else's."""
    name = sim.pick(C.names(lambda c: usable(c) and c.batched and not c.rng), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    obj, other = C.build(name, cfg), C.build(name, cfg)
    shared = c.args(cfg, spec, C.gen(sim.data_seed("shared")), 1)
    ks = c.split_keys(shared) if hasattr(c, "split_keys") else c.batched
    sim.log(name, cfg, spec)

    reqs, bad = [], set()
    for i in range(sim.between(2, 5, "requests")):
        a = c.args(cfg, spec, C.gen(sim.data_seed("request")), 1)
        r = {k: a[k] if k in ks else shared[k] for k in a}
        if c.poison_ok and i and sim.flip(0.25, "poison"):
            c.poison(sim, cfg, r)
            sim.fault("poisoned-companion", i)
            bad.add(i)
        reqs.append(r)

    def run(o, a, n, pick):
        """Per picked row: gradients of that row's loss."""
        a = dict(a)
        want = {}
        for k in floats(a):
            want[k] = a[k] = a[k].clone().requires_grad_(True)
        with torch.enable_grad():
            out = c.call(o, a)
            res = {}
            for pos, i in pick:
                total = rowloss(out, pos, c.outdim, 100 + i)
                res[i] = None if total is None else dict(zip([*want, *params(o)], torch.autograd.grad(
                    total, list(want.values()) + list(params(o).values()), allow_unused=True, retain_graph=True), strict=True))
        return res

    order = list(range(len(reqs)))
    for i in range(len(order) - 1):
        j = i + sim.choose(len(order) - i, "arrival")
        order[i], order[j] = order[j], order[i]
    batch = {k: torch.cat([reqs[i][k] for i in order]) if k in ks else shared.get(k, v) for k, v in reqs[0].items()}
    good = [(p, i) for p, i in enumerate(order) if i not in bad]
    try:
        got = run(obj, batch, len(order), good)
    except Exception as e:  # noqa: BLE001 - refused batches are M06's business
        sim.log("refused", type(e).__name__)
        return
    tol = max(c.tol(cfg, spec), 1e-3)
    for p, i in good:
        want = run(other, reqs[i], 1, [(0, i)])[i]
        sim.check((want is None) == (got[i] is None), "M08:companions", lambda i=i: f"{name} {cfg} {spec}: the loss of request {i} in batch {order} "
                  f"{'has' if got[i] is not None else 'has no'} gradient, alone it {'has' if want is not None else 'has none'}")
        if want is None:
            continue
        for k in want:
            g, w = got[i][k], want[k]
            sim.check((g is None) == (w is None), "M08:companions", lambda k=k, i=i: f"{name} {cfg} {spec}: gradient of {k} for request {i} in batch {order} "
                      f"{'missing' if got[i][k] is None else 'unexpected'}")
            if w is None:
                continue
            if k not in ks:
                if bad:         # theirs as well: a broken row spoils a sum
                    continue
                d = off(g, w, tol, FLOOR)
                sim.check(d is None, "M08:companions", lambda k=k, i=i, d=d: f"{name} {cfg} {spec}: gradient of {k} from the loss of request {i} "
                          f"in batch {order} (broken requests: {sorted(bad)}): {d} from the request alone")
                continue
            d = off(g.narrow(0, p, 1), w, tol, FLOOR)
            sim.check(d is None, "M08:companions", lambda k=k, i=i, d=d: f"{name} {cfg} {spec}: gradient of {k} for request {i} "
                      f"in batch {order} (broken requests: {sorted(bad)}): {d} from the request alone")
            for q, j in enumerate(order):
                if q != p and j not in bad:
                    s = float(w.abs().nan_to_num(0.0, 0.0, 0.0).max())
                    m = float(g.narrow(0, q, 1).abs().nan_to_num(0.0, 0.0, 0.0).max())
                    sim.check(m <= 1e-5 * s, "M08:leak", lambda k=k, i=i, j=j, m=m, s=s: f"{name} {cfg} {spec}: the loss of request {i} in batch {order} "
                              f"pushes {k} of request {j} with a gradient of {m:.3g} (its own: {s:.3g})")
        sim.counters["gradients"] = sim.counters.get("gradients", 0) + 1
    sim.tags.add(name)


FLOOR = 1e-30

# a gradient along these is not promised: singular where the simulated data sit,
# or the value goes through a rounding to whole samples or a comparison
SINGULAR = {"NormalizeByPsd": {"psd"}}


def value(c, obj, a, seed, call_seed):
    rngseam.seed_all(call_seed)
    with torch.enable_grad():
        b = {k: v.detach().clone().requires_grad_(True) if k in floats(a) else v for k, v in a.items()}
        total, g = 0.0, C.gen(seed)
        for t in leaves(c.call(obj, b)):
            if not (t.is_floating_point() or t.is_complex()):
                continue
            t = t.detach()
            w = torch.randn(t.shape, generator=g, dtype=torch.float64)
            total += float((t.real * w).sum() + (t.imag * w.flip(-1) if t.ndim else t.imag * w).sum()) if t.is_complex() else float((t * w).sum())
    return total


def compare(sim, desc, gu, f, scale, eps, tol, slack=0.0):
    tries = []
    for h in (1e-3, 1e-5, 1e-2, 1e-7):
        st = h * scale
        fp, fm = f(st), f(-st)
        fd = (fp - fm) / (2 * st)
        noise = eps * max(abs(fp), abs(fm), 1e-300) / (2 * st) * 10
        tries.append((h, fd, noise))
        if abs(fd - gu) <= tol * abs(gu) + noise + slack:
            break
    else:
        # two steps that agree are a derivative; steps that all disagree say
        # only that the value is singular here (a near-zero denominator, say)
        tries.sort()
        if not any(abs(a - b) <= 0.2 * max(abs(a), abs(b)) + na + nb for (_, a, na), (_, b, nb) in zip(tries, tries[1:], strict=False)):
            sim.count("singular direction")
            return
        sim.check(False, "M08:truth", f"{desc}: {gu:.6g} expected, but the values change by "
                  + ", ".join(f"{fd:.6g} (step {h:g})" for h, fd, _ in tries))
    sim.check(True, "M08:truth", "")
    sim.counters["finite differences"] = sim.counters.get("finite differences", 0) + 1


def truth(sim):
    """The gradient against the directional derivative of the served values."""
    name = sim.pick(C.names(usable), "component")
    c = C.REG[name]
    cfg = C.draw_cfg(sim, name)
    spec = C.draw_spec(sim, name, cfg)
    for k in ("prec", "dtype", "pdt"):
        if "f64" in c.spec.get(k, ()):
            spec[k] = "f64"
    obj = C.build(name, cfg)
    if c.net:
        obj.double()
    B = sim.between(1, 3, "B")
    sim.log(name, cfg, spec, B)
    edges = getattr(c, "edges", {})
    for _ in range(200):
        seed = sim.data_seed()
        a = c.args(cfg, spec, C.gen(seed), B)
        if not any(bool((a[k] == v).any()) for k, vs in edges.items() if k in a for v in vs):
            break
    else:
        return
    if c.net:
        a = {k: C.double(v) for k, v in a.items()}
    for k in ("x_out", "y_out"):        # not on a knot, where low orders have a kink
        if isinstance(a.get(k), torch.Tensor):
            a[k] = a[k] * 0.987 + 0.0131
    fl = [k for k in floats(a) if k not in SINGULAR.get(name, ())]
    if not fl:
        return
    if len(fl) > 1 and sim.flip(0.5, "only some inputs want gradients"):
        fl = [k for k in fl if sim.flip(0.5, "wanted")] or [sim.pick(fl, "wanted")]
    if c.net and sim.flip(0.3, "some parameters frozen"):
        for p in obj.parameters():
            p.requires_grad_(sim.flip(0.5, "trained"))
    trained = {k: p for k, p in params(obj).items() if p.requires_grad}
    cs = sim.data_seed("call")
    want = {}
    b = dict(a)
    for k in fl:
        want[k] = b[k] = a[k].clone().requires_grad_(True)
    rngseam.seed_all(cs)
    with torch.enable_grad():
        total = loss(c.call(obj, b), seed)
    if sim.flip(0.5, "other request"):
        value(c, obj, {k: C.clone(v) for k, v in a.items()} if sim.flip(0.5, "same data") else c.args(cfg, spec, C.gen(seed + 1), B) if not c.net else a, seed, cs)
    if total is not None and not bool(total.detach().isfinite()):
        return          # a dead bin served as infinity: nothing to differentiate
    gs = backward(obj, want, total) if total is not None else {}
    if trained:
        ps = {k: (p, gs["param " + k]) for k, p in trained.items() if gs.get("param " + k) is not None}
        gu = float(sum(g.double().pow(2).sum() for _, g in ps.values()))
        um = max([float(g.abs().max()) for _, g in ps.values()] or [0.0]) or 1.0

        def moved(st):
            with torch.no_grad():
                for p, g in ps.values():
                    p.add_(g, alpha=st)
            v = value(c, obj, a, seed, cs)
            with torch.no_grad():
                for p, g in ps.values():
                    p.sub_(g, alpha=st)
            return v
        compare(sim, f"{name} {cfg} {spec} data {seed}: gradient of the parameters", gu, moved, 1.0 / um, 1e-12, 2e-3)
        none = [k for k in trained if k not in ps or not bool((ps[k][1] != 0).any())]
        if none:        # parameters said to have no influence: another net with others gives the same
            u = {k: torch.randn(p.shape, generator=C.gen(seed + 3), dtype=torch.float64) for k, p in params(obj).items() if k in none}

            def other(st):
                o = C.build(name, cfg).double()
                o.load_state_dict(obj.state_dict())
                with torch.no_grad():
                    for k, p in params(o).items():
                        if k in u:
                            p.add_(u[k].to(p.dtype), alpha=st)
                return value(c, o, a, seed, cs)
            compare(sim, f"{name} {cfg} {spec} data {seed}: no gradient for parameters {none}", 0.0, other, 1.0, 1e-12, 2e-3)
    for k in fl:
        g = gs.get(k)
        desc = f"{name} {cfg} {spec} data {seed}: gradient of {k}"
        if not a[k].numel():
            continue
        if g is not None:
            sim.check(bool(g.isfinite().all()), "M08:finite", lambda desc=desc: f"{desc} is not finite though values and data are")
        u = g if g is not None and bool((g != 0).any()) else None
        gu = 0.0
        if u is None:
            u = torch.randn(a[k].shape, generator=C.gen(seed + 2), dtype=torch.float64).to(a[k].dtype)
        else:
            gu = float(u.abs().double().pow(2).sum())
        sc = float(a[k].abs().max()) or 1.0
        um = float(u.abs().max())
        compare(sim, desc, gu, lambda st, k=k, u=u: value(c, obj, dict(a, **{k: a[k] + st * u}), seed, cs), sc / um,
                1e-12 if a[k].dtype in (torch.float64, torch.complex128) else 3e-6,
                2e-3 if c.net else 0.03)      # others compute in single precision inside
        if g is None or not bool((g != 0).any()):
            continue
        # what the gradient says along another direction: a common offset, a common scale, anything
        v = {"offset": torch.ones_like, "scale": lambda x: x.clone(), "any": lambda x: torch.randn(x.shape, generator=C.gen(seed + 4), dtype=torch.float64).to(x.dtype),
             "rows": lambda x: torch.randn(x.shape[:-1] + (1,) if x.ndim else (), generator=C.gen(seed + 5), dtype=torch.float64).to(x.dtype).expand(x.shape).clone(),
             }[sim.pick(["offset", "scale", "any", "rows"], "direction")](a[k])
        vm = float(v.abs().max())
        if not vm:
            continue
        along = float((g.conj() * v).real.double().sum())
        size = float(g.abs().double().norm() * v.abs().double().norm()) / max(1, a[k].numel()) ** 0.5
        tol = 2e-3 if c.net else 0.03
        compare(sim, f"{desc}, along another direction", along, lambda st, k=k, v=v: value(c, obj, dict(a, **{k: a[k] + st * v}), seed, cs), sc / vm,
                1e-12 if a[k].dtype in (torch.float64, torch.complex128) else 3e-6, tol, 3 * tol * size)
    sim.tags.add(name)


SCENARIOS = {"interleaved": (interleaved, 3), "companions": (companions, 2), "truth": (truth, 3)}
