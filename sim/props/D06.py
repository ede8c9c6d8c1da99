"""D06: chunk streaming is exact, ordered, lazy and error-propagating."""
import torch

from .. import dl, rngseam

PROPERTY = "D06"
RULE = "one evaluation = one simulated run (source behaviour, consumer behaviour); distinct = different history digest"
REAL = ["ml4gw.dataloading.ChunkedTimeSeriesDataset"]
STUB = ["chunk source with scheduled errors, end of stream, short chunks and buffer reuse"]
QUICK, THOROUGH = 6000, 120000


def run(sim):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    kernel = sim.between(2, 6, "kernel")
    nk = sim.choose(6, "chunks")          # may be zero
    C = sim.between(1, 3, "channels")
    T0, vary = kernel + sim.between(1, 10, "extra"), sim.flip(0.3, "vary length")
    sh = [(sim.between(1, 3, "rows"), C, kernel + sim.between(1, 10, "extra") if vary else T0) for _ in range(nk)]
    short = None
    if nk and sim.flip(0.2, "short chunk?"):
        short = sim.choose(nk, "short at")
        N, c, _ = sh[short]
        sh[short] = (N, c, sim.between(1, kernel - 1, "short length"))
        sim.fault("short-chunk", short)
    batch, bpc = sim.between(1, 4, "batch"), sim.between(1, 5, "batches per chunk")
    coincident = not sim.flip(0.5, "non-coincident")
    fail_at = None
    passes = sim.between(1, 3, "passes")
    if sim.flip(0.35, "source error?"):
        fail_at = (sim.choose(passes, "fail pass"), sim.choose(nk + 1, "fail pull"))
    src = dl.ChunkSource(sim, sh, fail_at=fail_at, reuse=sim.flip(0.25, "buffer reuse"),
                         error=sim.pick(dl.SOURCE_ERRORS, "error type") if fail_at else dl.SourceError,
                         resumable=bool(fail_at) and sim.flip(0.5, "resumable source"))
    sim.log("config", kernel, sh, batch, bpc, coincident, "fail", fail_at, "short", short)
    rngseam.seed_all(sim.data_seed())
    ds = ChunkedTimeSeriesDataset(src, kernel, batch, bpc, coincident)
    sim.check(src.passes == 0, "D06:eager", "source iterated at construction")
    sim.check(len(ds) == nk * bpc, "D06:len", lambda: f"reported length {len(ds)}, {nk} chunks x {bpc}")
    for p in range(passes):
        abandon_after = None
        if sim.flip(0.25, "abandon?"):
            abandon_after = sim.choose(nk * bpc + 1, "abandon after")
        it = iter(ds)
        delivered = []
        snap = []
        outcome = None
        while True:
            if abandon_after is not None and len(delivered) == abandon_after:
                outcome = "abandoned"
                sim.fault("iteration-abandoned", f"after {abandon_after}")
                break
            n = len(delivered)
            try:
                x = next(it)
            except StopIteration:
                outcome = "end"
                break
            except dl.SourceError:
                outcome = "source-error"
                break
            except Exception as e:  # noqa: BLE001
                outcome = "error:" + type(e).__name__
                chained = e
                while chained is not None and not isinstance(chained, dl.SourceError):
                    chained = chained.__cause__
                if chained is not None:
                    outcome = "source-error"
                detail = f"{type(e).__name__}: {e}"
                break
            k = n // bpc
            sim.check(k < nk, "D06:too-many", lambda: f"batch {n} delivered from {nk} chunks of {bpc}")
            sim.check(src.passes == p + 1, "D06:passes", lambda: f"source iterated {src.passes} times during pass {p}")
            sim.check(src.pulls[p] == k + 1, "D06:not-lazy",
                      lambda: f"batch {n} delivered with {src.pulls[p]} chunks pulled, expected {k + 1}")
            sim.check(k != short, "D06:short-chunk-served", "batch served from a chunk shorter than the window")
            dl.check_chunk_batch(sim, x, k, sh[k], batch, kernel, coincident, "D06")
            delivered.append(x)
            snap.append(x.clone())
        sim.log("pass", p, "delivered", len(delivered), outcome)
        # what must have happened
        fail = fail_at[1] if fail_at and fail_at[0] == p else None
        stops = [s for s in (fail, short) if s is not None]
        first = min(stops) if stops else None
        if outcome == "abandoned":
            want = abandon_after
        elif first is None or (first == nk and fail != nk):
            want, exp = nk * bpc, "end"
        elif fail is not None and fail == first:
            want, exp = fail * bpc, "source-error"
        else:
            want, exp = short * bpc, "error"
        if outcome != "abandoned":
            sim.check(outcome == exp or (exp == "error" and outcome.startswith("error")), "D06:ending",
                      lambda: f"pass {p} ended with {outcome}, expected {exp}" + (f" ({detail})" if outcome.startswith('error') else ""))
        sim.check(len(delivered) == want, "D06:count", lambda: f"pass {p} delivered {len(delivered)} batches, expected {want}")
        sim.check(src.passes == (p + 1 if (delivered or outcome != 'abandoned') else src.passes), "D06:passes",
                  lambda: f"source iterated {src.passes} times after {p + 1} passes")
        for a, b in zip(delivered, snap):
            sim.check(torch.equal(a, b), "D06:overwritten", "a delivered batch changed after later pulls")
        if outcome == "abandoned" and not delivered and src.passes < p + 1:
            iter(src)       # keep pass numbering aligned
        del it


SCENARIOS = {"stream": (run, 1)}
