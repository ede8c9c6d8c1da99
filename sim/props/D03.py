"""D03: storage faults become errors, never samples; handles are closed; retry works."""
import os
import shutil

from .. import dl, rngseam, storage

PROPERTY = "D03"
RULE = "one evaluation = one simulated run (file set, fault schedule, random outcomes); distinct = different history digest"
REAL = ["ml4gw.dataloading.Hdf5TimeSeriesDataset", "h5py/HDF5 on real scratch files that are deleted, truncated and replaced"]
STUB = ["h5py.File/Dataset subclassed to inject open/read errors, failed allocations and interrupts", "random source outcomes may be replaced by legal extremes"]
FAILURES = (Exception, KeyboardInterrupt)
QUICK, THOROUGH = 2600, 40000


def config(sim):
    kernel = sim.between(1, 8, "kernel")
    files = dl.Files(sim, kernel, max_files=4, max_extra=25)
    chans = files.pick_channels()
    batch = sim.between(1, 6, "batch")
    mode = sim.pick(dl.MODES, "coincident")
    nfpb = sim.pick([None] + list(range(1, len(files) + 1)), "files per batch")
    rngseam.seed_all(sim.data_seed())
    sim.log("config", kernel, files.lengths, chans, batch, mode, nfpb)
    return kernel, files, chans, batch, mode, nfpb


def full_epoch(sim, ds, files, chans, batch, kernel, bpe, why):
    try:
        got = 0
        for x in ds:
            files.check_batch(x, chans, batch, kernel, "D03:" + why)
            got += 1
    except FAILURES as e:  # noqa: BLE001
        from ..core import Violation
        if isinstance(e, Violation):
            raise
        sim.check(False, "D03:no-recovery", f"{why}: {type(e).__name__}: {e}")
    sim.check(got == bpe, "D03:no-recovery", f"{why}: {got} batches, expected {bpe}")


def construct(sim):
    """A fault while the loader is created."""
    kernel, files, chans, batch, mode, nfpb = config(sim)
    bpe = 2
    with storage.Disk(sim) as disk:
        kind = sim.choose(3, "construct fault")
        if kind == 0:
            disk.plan[sim.choose(len(files), "at file")] = sim.pick(disk.FAULTS, "errno")
        else:
            i = sim.choose(len(files), "file")
            if kind == 1:
                files.delete(i)
                sim.fault("file-deleted", i)
            else:
                files.write(i, chans=[c for c in range(files.nchan_all) if c != chans[0]])
                sim.fault("channel-lost", i)
        failed = None
        try:
            ds = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, nfpb)
        except FAILURES as e:  # noqa: BLE001
            failed = e
            sim.log("raised", type(e).__name__)
        sim.check(failed is not None, "D03:construct-swallowed", "loader created although a file could not be scanned")
        failed = None
        sim.check(not disk.open_handles(), "D03:leak", lambda: f"handles left open: {disk.open_handles()}")
        for i in range(len(files)):
            files.write(i)
        ds = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, nfpb)
        full_epoch(sim, ds, files, chans, batch, kernel, bpe, "after construct fault")
        sim.check(not disk.open_handles(), "D03:leak", lambda: f"handles left open: {disk.open_handles()}")


def iterate(sim):
    """Faults while batches are being read."""
    kernel, files, chans, batch, mode, nfpb = config(sim)
    bpe = sim.between(1, 4, "batches per epoch")
    with storage.Disk(sim) as disk, rngseam.Extremes(sim, p=0.25):
        ds = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, nfpb)
        sim.check(not disk.open_handles(), "D03:leak", lambda: f"handles left open: {disk.open_handles()}")
        for rnd in range(sim.between(1, 3, "rounds")):
            it = iter(ds)
            damaged = {}
            for b in range(bpe + 1):
                # schedule faults for the coming batch
                if sim.flip(0.6, "fault?"):
                    kind = sim.choose(6, "fault kind")
                    if kind <= 2:
                        at = disk.n + sim.choose(1 + 2 * len(files) + batch * len(chans), "fault op")
                        disk.plan[at] = sim.pick(disk.FAULTS, "errno")
                    else:
                        i = sim.choose(len(files), "file")
                        if kind == 3:
                            if i not in damaged or damaged[i] != "gone":
                                files.delete(i)
                            damaged[i] = "gone"
                            sim.fault("file-deleted", i)
                        elif kind == 4:
                            c = chans[sim.choose(len(chans), "channel")]
                            files.write(i, chans=[q for q in range(files.nchan_all) if q != c])
                            damaged[i] = ("lost", c)
                            sim.fault("channel-lost", i)
                        else:
                            n = sim.choose(files.lengths[i], "truncated length")
                            which = sim.pick([None] + chans, "truncate which")
                            if which is None:
                                files.write(i, n=n)
                            else:
                                files.write(i, chan_len={which: n})
                            damaged[i] = "short"
                            sim.fault("file-truncated", f"{i} to {n}")
                before = len(disk.fired)
                m = disk.mark()
                x, err = None, None
                try:
                    x = next(it)
                except StopIteration:
                    sim.check(b == bpe, "D03:ended-early", lambda: f"epoch ended after {b} of {bpe} batches under faults")
                except FAILURES as e:  # noqa: BLE001
                    err = type(e).__name__
                    del e
                fired = disk.fired[before:]
                if x is not None:
                    sim.check(b < bpe, "D03:too-many", "more batches than configured")
                    sim.check(not fired, "D03:swallowed", lambda: f"batch delivered although {fired} failed during it")
                    touched = set(disk.opens_since(m))
                    gone = [i for i, d in damaged.items() if d == "gone" and disk.label(files.paths[i]) in touched]
                    sim.check(not gone, "D03:swallowed", lambda: f"batch delivered although file {gone} is gone")
                    files.check_batch(x, chans, batch, kernel, "D03")
                    sim.tags.add("batch-under-damage" if damaged else "batch-clean")
                if err:
                    sim.log("raised", err)
                    sim.tags.add("raised")
                    sim.check(fired or damaged, "D03:spurious", lambda: f"raised {err} without any fault")
                    sim.check(not disk.open_handles(), "D03:leak", lambda: f"handles left open after {err}: {disk.open_handles()}")
                    break
                if x is None:
                    break
            disk.plan.clear()
            if hasattr(it, "close"):
                it.close()
            sim.check(not disk.open_handles(), "D03:leak", lambda: f"handles left open: {disk.open_handles()}")
            if rnd or sim.flip(0.7, "heal"):
                for i in damaged:
                    files.write(i)
                    sim.log("heal", i)
                damaged = {}
                full_epoch(sim, ds, files, chans, batch, kernel, bpe, "after faults cleared")
            else:
                for i in damaged:
                    files.write(i)


def twin(sim):
    """A loader under faults next to a healthy one with the same draws: same batches or an error."""
    kernel, files, chans, batch, mode, nfpb = config(sim)
    bpe = sim.between(1, 4, "batches per epoch")
    root = os.path.join(sim.scratch, "twin")
    healthy = [os.path.join(root, os.path.relpath(p, sim.scratch)) for p in files.paths]
    for p, q in zip(files.paths, healthy, strict=True):
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copy(p, q)
    seed = sim.data_seed()
    with storage.Disk(sim) as disk:
        ds = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, nfpb)
        mine = list(files.paths)
        files.paths = healthy
        other = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, nfpb)
        files.paths = mine
        for rnd in range(sim.between(1, 3, "rounds")):
            rngseam.seed_all(seed + rnd)
            states = [rngseam.get_state()] * 2
            its = [iter(ds), iter(other)]

            def step(k, its=its, states=states):
                rngseam.set_state(states[k])
                try:
                    return next(its[k], None)
                finally:
                    states[k] = rngseam.get_state()

            damaged = []
            for b in range(bpe + 1):
                with disk.paused():
                    want = step(1)
                if sim.flip(0.4, "fault?"):
                    kind = sim.choose(3, "fault kind")
                    i = sim.choose(len(files), "file")
                    if kind == 0:
                        disk.plan[disk.n + sim.choose(2 + batch * len(chans), "fault op")] = sim.pick(disk.FAULTS, "errno")
                    elif kind == 1:
                        n = sim.choose(files.lengths[i], "truncated length")
                        which = sim.pick([None] + chans, "truncate which")
                        files.write(i, n=n if which is None else None, chan_len=None if which is None else {which: n})
                        sim.fault("file-truncated", f"{i} {which} to {n}")
                        damaged.append(i)
                    else:
                        c = chans[sim.choose(len(chans), "channel")]
                        files.write(i, chans=[q for q in range(files.nchan_all) if q != c])
                        sim.fault("channel-lost", i)
                        damaged.append(i)
                fired = len(disk.fired)
                try:
                    x = step(0)
                except FAILURES as e:  # noqa: BLE001
                    sim.log("raised", type(e).__name__)
                    sim.check(damaged or len(disk.fired) > fired, "D03:spurious", lambda e=e: f"raised {e!r} without any fault")
                    break
                sim.check((x is None) == (want is None), "D03:count", lambda b=b: f"at batch {b}: {'ended' if x is None else 'goes on'} under faults")
                if x is None:
                    break
                sim.check(x.shape == want.shape and bool((x == want).all()), "D03:other-window",
                          lambda b=b: f"batch {b} was delivered under faults {damaged} but is not the one requested")
                sim.steps += 1
            disk.plan.clear()
            for i in damaged:
                files.write(i)
        rngseam.seed_all(seed)
        full_epoch(sim, ds, files, chans, batch, kernel, bpe, "after faults cleared")


SCENARIOS = {"iterate": (iterate, 4), "twin": (twin, 2), "construct": (construct, 1)}
