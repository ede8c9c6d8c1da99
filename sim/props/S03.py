"""S03: streaming survives crash, redelivery, failure and multiplexing.

An at-least-once deployment: a server process holds instances and, per
stream, the state it last committed. Updates are delivered in order per
stream, streams interleave freely through shared instances, deliveries are
repeated, a call may fail with an allocation fault and be retried, the
server may crash before or after committing, consumers overwrite the outputs
they were given and producers reuse their update buffers.
"""
import copy

import torch

from .. import faults, stream

PROPERTY = "S03"
RULE = "one evaluation = one simulated deployment history; distinct = different history digest"
REAL = ["ml4gw.nn.streaming.Snapshotter", "ml4gw.nn.streaming.OnlineAverager", "torch.save/torch.load of the state"]
STUB = ["server loop, commit log and durable store", "message delivery", "allocator failures (raised at a chosen torch operator)"]
QUICK, THOROUGH = 3500, 90000


class SnapSUT:
    def __init__(self, sim):
        self.c = stream.SnapConf(sim, max_size=12, max_batch=4)
        self.batch = sim.between(1, 4, "batch")

    def build(self, batch=None):
        return self.c.build(batch or self.batch)

    def series(self, sim, total):
        X = stream.ints(sim.data_seed(), self.c.channels, total * self.c.stride)
        stream.spoil(sim, X)
        return X

    def update(self, X, n, b):
        return X[:, n * self.c.stride:(n + b) * self.c.stride].clone()

    def expect(self, X, n, b):
        return self.c.expect(self.c.prefixed(X), n, b)

    @staticmethod
    def same(a, b):
        return stream.same(a, b)

    def room(self, X):
        return X.shape[1] // self.c.stride


class AvgSUT:
    def __init__(self, sim):
        self.c = stream.AvgConf(sim, max_updates=4, max_update=4)
        self.batch = sim.between(1, 4, "batch")

    def build(self, batch=None):
        return self.c.build(batch or self.batch)

    def series(self, sim, total):
        P = stream.ints(sim.data_seed(), total, self.c.channels, self.c.K, hi=50) * self.c.num
        stream.spoil(sim, P)
        return P

    def update(self, P, n, b):
        return P[n:n + b].clone()

    def expect(self, P, n, b):
        outs = [self.c.block(P, m) for m in range(n, n + b)]
        return [torch.cat(outs, -1) if outs else None], self.c.state(P, n + b)

    def room(self, P):
        return P.shape[0]

    @staticmethod
    def same(a, b):
        return stream.close(a.double(), b.double())


def deploy(sut_cls):
    def run(sim):
        sut = sut_cls(sim)
        nstreams = sim.between(1, 4, "streams")
        nupd = sim.between(1, 5, "updates per stream")
        alt = sim.between(1, 4, "other batch size")
        data = [sut.series(sim, nupd * max(sut.batch, alt)) for _ in range(nstreams)]
        sim.log(str(sut.c), sut.batch, alt, nstreams, nupd)
        inst = {0: sut.build(), 1: sut.build(alt)}
        batch = {0: sut.batch, 1: alt}
        mem = [None] * nstreams          # states held in memory
        durable = [(0, 0, None)] * nstreams   # (update no., position, bytes)
        pos = [(0, 0)] * nstreams        # (update no., position) of the state held
        hist = [[(0, None)] for _ in range(nstreams)]   # committed (position, state) per update, for redelivery
        outs_alive = []
        buf = {}

        def call(s, st, n, b, which, what):
            X = data[s]
            upd = sut.update(X, n, b)
            if sim.flip(0.3, "reused buffer"):
                key = tuple(upd.shape)
                if key in buf:
                    buf[key].copy_(upd)
                else:
                    buf[key] = upd
                upd = buf[key]
                sim.count("fault:buffer-reused")
            mine = None
            if st is None and sim.flip(0.5, "explicit initial state"):
                st = mine = inst[which].get_initial_state()
            before = None if st is None else st.clone()
            if sim.flip(0.25, "alloc fault?"):
                with faults.draw(sim, [14]) as f:
                    try:
                        r = inst[which](upd, st)
                    except faults.ERRORS:
                        r = None
                if f.fired:
                    sim.fault(f.kind, f"{f.fired} #{f.k}")
                    sim.check(r is None, "S03:fault-swallowed", "a failed allocation or an interrupt was swallowed")
                    if st is not None:
                        sim.check(stream.same(st, before), "S03:state-damaged",
                                  "a failing call changed the state it was given")
                    r = inst[which](upd, st)
            else:
                r = inst[which](upd, st)
            *outs, new = r
            want, wst = sut.expect(X, n, b)
            for o, w in zip(outs, want, strict=True):
                sim.check(sut.same(o, w), "S03:output",
                          lambda: f"{what} of stream {s} at window {n} (batch {b}): output differs from an undisturbed run; {sut.c}")
            sim.check(sut.same(new, wst), "S03:state",
                      lambda: f"{what} of stream {s} at window {n} (batch {b}): state differs from an undisturbed run; {sut.c}")
            if st is not None:
                sim.check(stream.same(st, before), "S03:given-state-changed",
                          lambda: f"{what} of stream {s}: the call changed the state it was given")
            if mine is not None and sim.flip(0.5, "initial state overwritten"):
                mine.fill_(float(5555))
                sim.count("fault:initial-state-overwritten")
            if sim.flip(0.5, "consumer overwrites"):
                for o in outs:
                    try:
                        o.fill_(float(7777))
                    except RuntimeError:
                        pass     # a view that torch refuses to write through
                sim.count("fault:output-overwritten")
            else:
                outs_alive.append([(o, o.clone()) for o in outs])
                if len(outs_alive) > 4:
                    outs_alive.pop(0)
            if upd is not buf.get(tuple(upd.shape)) and sim.flip(0.5, "producer overwrites"):
                upd.fill_(float(-8888))
                sim.count("fault:update-overwritten")
            elif buf and sim.flip(0.3, "buffer overwritten"):
                for v in buf.values():
                    v.fill_(float(-9999))
                sim.count("fault:update-overwritten")
            sim.check(sut.same(new, wst), "S03:state-aliased",
                      lambda: f"stream {s}: overwriting returned outputs or the given update changed the returned state; {sut.c}")
            for group in outs_alive:
                for o, copy_ in group:
                    sim.check(stream.same(o, copy_), "S03:output-changed",
                              "an output returned earlier was changed by later activity")
            return new

        budget = 6 * nstreams * nupd + 20
        while True:
            todo = [s for s in range(nstreams) if pos[s][0] < nupd]
            if not todo or budget == 0:
                break
            budget -= 1
            s = todo[sim.choose(len(todo), "stream")]
            act = sim.choose(10, "action")
            u, n = pos[s]
            sim.steps += 1
            if act <= 5:
                which = sim.choose(2, "instance")
                b = batch[which]
                new = call(s, mem[s], n, b, which, "update")
                mem[s] = new
                how = sim.choose(3, "keep")
                if how == 1:
                    mem[s] = stream.roundtrip(new)
                elif how == 2:
                    mem[s] = new.clone()
                pos[s] = (u + 1, n + b)
                hist[s].append((n + b, mem[s]))
                sim.log("update", s, n, b)
                if sim.flip(0.5, "commit"):
                    durable[s] = (u + 1, n + b, stream.roundtrip(mem[s]))
                    sim.log("commit", s)
            elif act == 6 and len(hist[s]) > 1:
                # redelivery of an update already processed, from the state it was first given
                j = sim.choose(len(hist[s]) - 1, "which")
                p0, st0 = hist[s][j]
                which = sim.choose(2, "instance")
                if p0 + batch[which] <= sut.room(data[s]):
                    sim.fault("redelivery", f"{s} {p0}")
                    call(s, st0, p0, batch[which], which, "redelivery")
            elif act == 7:
                sim.fault("crash-restart")
                inst = {0: sut.build(), 1: sut.build(alt)}
                for i in range(nstreams):
                    du, dp, st = durable[i]
                    mem[i] = None if st is None else stream.roundtrip(st)
                    pos[i] = (du, dp)
                    hist[i] = [(dp, mem[i])]
            elif act == 8:
                sim.fault("instance-moved")
                k = sim.choose(2, "which")
                inst[k] = copy.deepcopy(inst[k]) if sim.flip(0.5, "copy") else stream_pickle(inst[k])
            else:
                # a bad update is refused or fails; whatever happens, saved states stay
                sim.fault("bad-update")
                bad = torch.zeros(sut.c.channels + 1, 3) if isinstance(sut, SnapSUT) else torch.zeros(1, sut.c.channels + 1, 2)
                try:
                    inst[sim.choose(2, "which")](bad, mem[s])
                except (ValueError, RuntimeError):
                    pass
                if mem[s] is not None:
                    wst = sut.expect(data[s], n, 0)[1] if isinstance(sut, AvgSUT) else \
                        sut.c.prefixed(data[s])[:, n * sut.c.stride: n * sut.c.stride + sut.c.state_size]
                    sim.check(sut.same(mem[s], wst), "S03:state-damaged", "a bad update changed the saved state")
    return run


def stream_pickle(m):
    import io

    b = io.BytesIO()
    torch.save(m, b)
    return torch.load(io.BytesIO(b.getvalue()), weights_only=False)


SCENARIOS = {"snapshots": (deploy(SnapSUT), 1), "averages": (deploy(AvgSUT), 1)}
