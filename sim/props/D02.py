"""D02: coincidence modes and files-per-batch budget."""
from .. import dl, rngseam, storage

PROPERTY = "D02"
RULE = "one evaluation = one simulated run (file set, configuration, random outcomes); distinct = different history digest"
REAL = ["ml4gw.dataloading.Hdf5TimeSeriesDataset", "h5py/HDF5 on real scratch files"]
STUB = ["random source outcomes may be replaced by legal extremes", "h5py.File/Dataset subclassed to log operations"]
QUICK, THOROUGH = 2000, 30000


def setup(sim, **kw):
    kernel = sim.between(1, 8, "kernel")
    files = dl.Files(sim, kernel, many=True, **kw)
    chans = files.pick_channels()
    return kernel, files, chans


def budget(sim):
    kernel, files, chans = setup(sim)
    batch = sim.between(1, 12, "batch")
    mode = sim.pick(dl.MODES, "coincident")
    nfpb = sim.pick(list(range(1, len(files) + 1)) + [None], "files per batch")
    limit = len(files) if nfpb is None else nfpb
    bpe = sim.between(1, 4, "batches per epoch")
    sim.log("config", kernel, files.lengths, chans, batch, mode, nfpb)
    rngseam.seed_all(sim.data_seed())
    ds = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, nfpb)
    with storage.Disk(sim) as disk, rngseam.Extremes(sim, p=0.4):
        it = iter(ds)
        for _ in range(bpe):
            m = disk.mark()
            x = next(it)
            got = files.check_batch(x, chans, batch, kernel, "D02")
            used = {f for row in got for f, _ in row}
            sim.check(len(used) <= limit, "D02:file-budget", lambda: f"batch draws from files {sorted(used)}, limit {limit}")
            opens = disk.opens_since(m)
            sim.check(len(opens) == len(set(opens)), "D02:reopened", lambda: f"files opened in one batch: {opens}")
            sim.check(len(opens) <= limit, "D02:open-budget", lambda: f"{len(opens)} files opened, limit {limit}")
            for b, row in enumerate(got):
                if mode is True:
                    sim.check(len(set(row)) == 1, "D02:not-coincident", lambda: f"element {b}: (file, time) per channel {row}")
                elif mode == "files":
                    sim.check(len({f for f, _ in row}) == 1, "D02:files-differ", lambda: f"element {b}: files {row}")


def independence(sim):
    """With ordinary draws the unconstrained coordinates must actually vary."""
    kernel = sim.between(1, 8, "kernel")
    files = dl.Files(sim, kernel, equal=True, max_extra=20)
    files.lengths = [kernel + 40 + e for e in [sim.choose(20, "len")] * len(files)]
    for i in range(len(files)):
        files.write(i)
    chans = files.pick_channels()
    batch = 24
    mode = sim.pick([False, "files", True], "coincident")
    rngseam.seed_all(sim.data_seed())
    ds = dl.make_hdf5(sim, files, kernel, batch, 3, chans, mode, None)
    rows = [r for x in ds for r in files.check_batch(x, chans, batch, kernel, "D02")]
    # 72 elements, >= 40 start times: each coincidence below has probability < 1e-20
    sim.check(len({r[0] for r in rows}) > 1, "D02:constant", "every batch element is the same window")
    if len(chans) > 1 and mode is not True:
        for j in range(1, len(chans)):
            sim.check(any(r[0][1] != r[j][1] for r in rows), "D02:times-tied",
                      lambda: f"channels 0 and {j} always share times in mode {mode}")
    if len(chans) > 1 and mode is False and len(files) > 1:
        for j in range(1, len(chans)):
            sim.check(any(r[0][0] != r[j][0] for r in rows), "D02:files-tied",
                      lambda: f"channels 0 and {j} always share files in mode {mode}")
    if len(files) > 1:
        # equal-length files: all must be used over 72 elements (miss < 5*(0.8**72) ~ 5e-7 -> use 2 files rule)
        sim.check(len({f for r in rows for f, _ in r}) > 1, "D02:one-file", "only one of several equal files is ever used")


SCENARIOS = {"budget": (budget, 4), "independence": (independence, 1)}
