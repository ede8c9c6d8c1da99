"""D04: any number of workers jointly deliver exactly one epoch."""
import torch

from .. import dl, rngseam

PROPERTY = "D04"
RULE = "one evaluation = one simulated run (worker count, schedule, crashes, epochs); distinct = different history digest"
REAL = ["ml4gw.dataloading.Hdf5TimeSeriesDataset", "torch WorkerInfo record", "torch DataLoader in its in-process mode", "h5py/HDF5 on real scratch files"]
STUB = ["worker processes: simulated in one process, each with its own dataset copy, generator states and worker-info record, stepped by the seeded scheduler"]
QUICK, THOROUGH = 2600, 40000


def workers(sim):
    kernel = sim.between(1, 3, "kernel")
    files = dl.Files(sim, kernel, max_files=2, max_extra=10)
    chans = files.pick_channels()
    batch = sim.between(1, 2, "batch")
    bpe = sim.between(1, 14, "batches per epoch")
    W = sim.between(1, 9, "workers")
    if sim.flip(0.04, "large"):
        bpe, W = sim.between(30, 70, "batches per epoch"), sim.pick([16, 17, 32], "workers")
    mode = sim.pick(dl.MODES, "coincident")
    rngseam.seed_all(sim.data_seed())
    ds = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, None)
    sim.check(len(ds) == bpe, "D04:len", lambda: f"reported length {len(ds)}, configured {bpe}")
    sim.log("config", bpe, W, mode)
    how = sim.choose(3, "dataset copy")
    seed = sim.data_seed("base seed")
    ws = [dl.SimWorker(i, W, ds, seed, how) for i in range(W)]
    shares = None
    for ep in range(sim.between(1, 3, "epochs")):
        got = [0] * W
        for w in ws:
            w.start_epoch()
        live = list(range(W))
        crashes = 0
        while live:
            i = live[sim.choose(len(live), "worker")]
            sim.sched_sig.update(b"%d," % i)
            if crashes < 2 and sim.flip(0.03, "crash?"):
                crashes += 1
                sim.fault("worker-crash", f"{i} after {got[i]}")
                ws[i] = dl.SimWorker(i, W, ds, seed, how)
                ws[i].start_epoch()
                got[i] = 0
                continue
            if sim.flip(0.02, "abandon?"):
                sim.fault("iteration-abandoned", i)
                ws[i].start_epoch()
                got[i] = 0
                continue
            x = ws[i].step()
            sim.steps += 1
            if x is None:
                live.remove(i)
                continue
            files.check_batch(x, chans, batch, kernel, "D04")
            got[i] += 1
            sim.check(got[i] <= bpe, "D04:unbounded", lambda: f"worker {i} delivered more than a whole epoch")
        sim.count("sched:worker-steps", sum(got))
        sim.check(sum(got) == bpe, "D04:epoch-size",
                  lambda: f"{W} workers delivered {got} = {sum(got)} batches in epoch {ep}, configured {bpe}")
        if shares is not None:
            sim.check(got == shares, "D04:share-drift", lambda: f"worker shares changed from {shares} to {got}")
        shares = got


def alone(sim):
    """No workers: plain iteration and the in-process DataLoader."""
    kernel = sim.between(1, 3, "kernel")
    files = dl.Files(sim, kernel, max_files=2, max_extra=10)
    chans = files.pick_channels()
    bpe = sim.between(1, 10, "batches per epoch")
    rngseam.seed_all(sim.data_seed())
    ds = dl.make_hdf5(sim, files, kernel, 2, bpe, chans, sim.pick(dl.MODES, "coincident"), None)
    sim.check(len(ds) == bpe, "D04:len", lambda: f"reported length {len(ds)}, configured {bpe}")
    for _ in range(sim.between(1, 3, "epochs")):
        if sim.flip(0.4, "abandon?"):
            it = iter(ds)
            for _ in range(sim.between(0, bpe, "steps")):
                next(it)
            sim.fault("iteration-abandoned")
        src = ds if sim.flip(0.5, "plain") else torch.utils.data.DataLoader(ds, batch_size=None, num_workers=0)
        n = 0
        for x in src:
            files.check_batch(x, chans, 2, kernel, "D04")
            n += 1
            sim.check(n <= bpe, "D04:unbounded", "iteration delivers more than an epoch")
        sim.check(n == bpe, "D04:epoch-size", lambda: f"iteration delivered {n} batches, configured {bpe}")


SCENARIOS = {"workers": (workers, 5), "alone": (alone, 1)}
