"""D09: the composed out-of-core pipeline preserves provenance, counts and faults."""
from .. import dl, rngseam, storage
from ..core import Violation

PROPERTY = "D09"
RULE = "one evaluation = one simulated run (pipeline configuration, random outcomes, faults, restarts); distinct = different history digest"
REAL = ["ml4gw.dataloading.Hdf5TimeSeriesDataset", "ml4gw.dataloading.ChunkedTimeSeriesDataset", "h5py/HDF5 on real scratch files"]
STUB = ["h5py.File/Dataset subclassed to inject open/read errors", "random source outcomes may be replaced by legal extremes"]
QUICK, THOROUGH = 2500, 40000


def run(sim):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    kernel = sim.between(1, 5, "kernel")
    chunk = kernel + sim.between(1, 12, "chunk extra")
    files = dl.Files(sim, chunk, max_files=3, max_extra=30)
    chans = files.pick_channels()
    rows, nch = sim.between(1, 4, "rows"), sim.between(1, 3, "chunks per epoch")
    mode = sim.pick(dl.MODES, "chunk coincidence")
    batch, bpc = sim.between(1, 5, "batch"), sim.between(1, 3, "batches per chunk")
    co = not sim.flip(0.5, "non-coincident")
    nfpb = sim.pick([None] + list(range(1, len(files) + 1)), "files per batch")
    rngseam.seed_all(sim.data_seed())
    sim.log("config", kernel, chunk, files.lengths, chans, rows, nch, mode, batch, bpc, co, nfpb)
    with storage.Disk(sim) as disk, rngseam.Extremes(sim, p=0.3):
        src = dl.make_hdf5(sim, files, chunk, rows, nch, chans, mode, nfpb)
        ds = ChunkedTimeSeriesDataset(src, kernel, batch, bpc, co)
        sim.check(len(ds) == nch * bpc, "D09:len", lambda: f"length {len(ds)}, expected {nch * bpc}")
        for p in range(sim.between(1, 3, "passes")):
            armed = []
            if sim.flip(0.5, "fault?"):
                if sim.flip(0.6, "kind"):
                    disk.plan[disk.n + sim.choose(rows * len(chans) * nch + 3, "op")] = sim.pick(disk.FAULTS, "errno")
                else:
                    i = sim.choose(len(files), "file")
                    files.write(i, n=sim.choose(files.lengths[i], "length"))
                    sim.fault("file-truncated", i)
                    armed.append(i)
            fired0 = len(disk.fired)
            n, err = 0, None
            try:
                for x in ds:
                    sim.check(n < nch * bpc, "D09:too-many", "more batches than configured")
                    got = files.check_batch(x, chans, batch, kernel, "D09")
                    if co and mode is True:
                        for r in got:
                            sim.check(len(set(r)) == 1, "D09:not-coincident", lambda: f"{r}")
                    if co and mode == "files":
                        for r in got:
                            sim.check(len({f for f, _ in r}) == 1, "D09:files-differ", lambda: f"{r}")
                    n += 1
            except Violation:
                raise
            except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                err = type(e).__name__
            fired = disk.fired[fired0:]
            sim.log("pass", p, "batches", n, "error", err, "fired", len(fired))
            if err:
                sim.check(fired or armed, "D09:spurious", lambda: f"{err} without a fault")
            else:
                sim.check(not fired, "D09:swallowed", lambda: f"pass completed although {fired} failed")
                sim.check(n == nch * bpc, "D09:count", lambda: f"{n} batches, expected {nch * bpc}")
            sim.check(not disk.open_handles(), "D09:leak", lambda: f"handles left open: {disk.open_handles()}")
            disk.plan.clear()
            for i in armed:
                files.write(i)
        n = 0
        for x in ds:
            files.check_batch(x, chans, batch, kernel, "D09")
            n += 1
        sim.check(n == nch * bpc, "D09:no-recovery", lambda: f"{n} batches after recovery, expected {nch * bpc}")


SCENARIOS = {"pipeline": (run, 1)}
