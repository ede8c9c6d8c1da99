"""D01: windows of the file-backed loader are true contiguous stretches."""
from .. import dl, rngseam

PROPERTY = "D01"
RULE = "one evaluation = one simulated run (file set, configuration, random outcomes); distinct = different history digest"
REAL = ["ml4gw.dataloading.Hdf5TimeSeriesDataset", "h5py/HDF5 on real scratch files"]
STUB = ["random source outcomes may be replaced by legal extremes"]
QUICK, THOROUGH = 2400, 40000


def run(sim):
    kernel = sim.between(1, 12, "kernel")
    files = dl.Files(sim, kernel, many=True)
    chans = files.pick_channels()
    batch = sim.pick([24, 33, 50], "large batch") if sim.flip(0.05, "large") else sim.between(1, 10, "batch")
    mode = sim.pick(dl.MODES, "coincident")
    nfpb = sim.pick([None] + list(range(1, len(files) + 1)), "files per batch")
    bpe = sim.between(1, 4, "batches per epoch")
    if sim.flip(0.3, "later channels longer"):
        for i in range(len(files)):
            files.write(i, chan_len={c: files.lengths[i] + sim.choose(20, "extra") for c in chans[1:]})
    sim.log("config", kernel, files.lengths, chans, batch, mode, nfpb, bpe)
    rngseam.seed_all(sim.data_seed())
    ds = dl.make_hdf5(sim, files, kernel, batch, bpe, chans, mode, nfpb)
    n = 0
    with rngseam.Extremes(sim, p=0.4):
        for ep in range(sim.between(1, 2, "epochs")):
            for x in ds:
                files.check_batch(x, chans, batch, kernel, "D01")
                n += 1
    sim.check(n > 0, "D01:nothing", "loader delivered nothing")


SCENARIOS = {"sample": (run, 1)}
