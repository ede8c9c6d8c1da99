"""D05: chunk-sampled windows are true contiguous stretches of the current chunk."""
import torch

from .. import dl, rngseam

PROPERTY = "D05"
RULE = "one evaluation = one simulated run (chunk sequence, configuration, random outcomes); distinct = different history digest"
REAL = ["ml4gw.dataloading.ChunkedTimeSeriesDataset"]
STUB = ["chunk source", "random source outcomes may be replaced by legal extremes"]
QUICK, THOROUGH = 6000, 120000


def shapes(sim, kernel, maxk=6):
    """Mostly constant shapes, sometimes changing any dimension between chunks."""
    N, C = sim.between(1, 5, "rows"), sim.between(1, 4, "channels")
    T = kernel + sim.between(1, 30, "extra")
    vary = [sim.flip(0.35, v) for v in ("vary rows", "vary channels", "vary length")]
    out = []
    for _ in range(sim.between(1, maxk, "chunks")):
        if vary[0]:
            N = sim.between(1, 5, "rows")
        if vary[1]:
            C = sim.between(1, 4, "channels")
        if vary[2]:
            T = kernel + sim.between(1, 30, "extra")
        out.append((N, C, T))
    return out


def run(sim):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    kernel = sim.between(1, 10, "kernel")
    sh = shapes(sim, kernel)
    batch, bpc = sim.between(1, 7, "batch"), sim.between(1, 4, "batches per chunk")
    coincident = not sim.flip(0.5, "non-coincident")
    dtype = sim.pick([torch.float32, torch.float64], "dtype")
    src = dl.ChunkSource(sim, sh, dtype, [sim.choose(3, "layout") for _ in sh], reuse=sim.flip(0.2, "buffer reuse"))
    sim.log("config", kernel, sh, batch, bpc, coincident)
    sim.tags.add("shapes-vary" if len(set(sh)) > 1 else "shapes-constant")
    rngseam.seed_all(sim.data_seed())
    ds = ChunkedTimeSeriesDataset(src, kernel, batch, bpc, coincident)
    n = 0
    with rngseam.Extremes(sim, p=0.5):
        for x in ds:
            k = n // bpc
            sim.check(k < len(sh), "D05:too-many", "more batches than the chunks provide")
            got = dl.check_chunk_batch(sim, x, k, sh[k], batch, kernel, coincident, "D05")
            sim.log("batch", n, got[:2])
            n += 1


def independence(sim):
    """Ordinary draws: rows and times vary, and per channel when not coincident."""
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    kernel = sim.between(1, 6, "kernel")
    sh = [(sim.between(1, 5, "rows"), sim.between(1, 4, "channels"), kernel + 40 + sim.choose(2, "longer") * 20)]
    for _ in range(sim.choose(3, "more chunks")):
        last = sh[-1]
        sh.append(tuple(v if sim.flip(0.5, "same") else n for v, n in
                        zip(last, (sim.between(1, 5, "rows"), sim.between(1, 4, "channels"), kernel + 40 + sim.choose(2, "longer") * 20))))
    coincident = not sim.flip(0.6, "non-coincident")
    rngseam.seed_all(sim.data_seed())
    src = dl.ChunkSource(sim, sh)
    ds = ChunkedTimeSeriesDataset(src, kernel, 24, 3, coincident)
    rows = [[] for _ in sh]
    for i, x in enumerate(ds):
        sim.check(i < 3 * len(sh), "D05:too-many", "more batches than the chunks provide")
        rows[i // 3].append(dl.check_chunk_batch(sim, x, i // 3, sh[i // 3], 24, kernel, coincident, "D05"))
    sim.log(sh, coincident)
    # 24 draws among 40 or more start times, 72 among two or more rows
    for k, ((N, C, T), batches) in enumerate(zip(sh, rows)):
        every = [r for b in batches for r in b]
        what = f"chunk {k} of {sh}"
        sim.check(len(every) == 72, "D05:count", lambda: f"{what}: {len(every)} windows")
        for b in batches:
            sim.check(len({r[0][1] for r in b}) > 1, "D05:constant", lambda: f"{what}: every window of a batch starts at the same time")
        if N > 1:
            sim.check(len({r[0][0] for r in every}) > 1, "D05:one-row", lambda: f"{what}: only one row of the chunk is ever sampled")
        if coincident:
            continue
        for i in range(C):
            for j in range(i):
                for b in batches:
                    sim.check(any(r[i][1] != r[j][1] for r in b), "D05:times-tied", lambda: f"{what}: channels {j} and {i} always share times")
                if N > 1:
                    sim.check(any(r[i][0] != r[j][0] for r in every), "D05:rows-tied", lambda: f"{what}: channels {j} and {i} always share rows")


SCENARIOS = {"sample": (run, 5), "independence": (independence, 1)}
