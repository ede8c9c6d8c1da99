"""Writes /verif/MANIFEST.json from the modules in sim/props and the reasons below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = ("a pure numerical function of its arguments: no schedule, clock, I/O, persistent state, fault or random source the "
        "result depends on, so deterministic simulation has nothing to decide; it would need differential or symbolic testing against ")
NA = {
    "N01": PURE + "a reference whitening (its history, thread, batch and restart behaviour is decided under M01-M07)",
    "N02": PURE + "scipy's Welch estimates",
    "N03": PURE + "LALSuite's detector response",
    "N04": PURE + "LALSimulation's approximants",
    "N05": PURE + "the closed forms",
    "N06": PURE + "GWpy's and SciPy's implementations",
    "N07": PURE + "SciPy-style reference formulae",
    "N08": PURE + "the reference architectures (their inference behaviour over histories, threads and batches is decided under M03-M07)",
    "N09": "a statement about the reported log-densities only, pure functions of a value: no schedule, fault, history or random source in it; "
           "what the samples do is decided by R01 and R06",
}
TECH = {
    "D01": "deterministic simulation: seeded file sets and adversarial random-source outcomes over simulated storage, provenance-decoding oracle",
    "D02": "deterministic simulation: adversarial random-source outcomes, provenance decoding plus storage operation log",
    "D03": "deterministic simulation with storage fault injection at every open/read, deletion, truncation, replacement; recovery and handle-leak oracles",
    "D04": "deterministic simulation of loader workers: seeded interleaving, crash/restart, abandoned epochs; conservation oracle",
    "D05": "deterministic simulation: seeded chunk sequences and adversarial random outcomes, provenance-decoding oracle",
    "D06": "deterministic simulation of the chunk source with scheduled errors, end of stream, short chunks, buffer reuse, abandonment; history oracle",
    "D07": "deterministic simulation: adversarial random-source outcomes over seeded configurations, exact-cover/ordering oracle",
    "D08": "deterministic simulation: seeded interleaving of consumers and preemptive thread schedules, per-iteration epoch oracle",
    "D09": "deterministic simulation of the composed pipeline with storage faults and restarts, provenance oracle",
    "S01": "deterministic simulation of streaming deployments: seeded re-batching, handover; offline reference model",
    "S02": "deterministic simulation of streaming deployments: seeded re-batching, handover; offline reference model",
    "S03": "deterministic simulation with fault injection: crash/restart from saved state, redelivery, allocation failures, multiplexed streams, mutating consumers; refinement against the undisturbed run",
    "S04": "deterministic simulation of the whole inference pipeline with crashes, redelivery, re-batching; refinement against offline inference",
    "M01": "deterministic simulation: life histories of fits, failing fits (allocation faults at every point), torn/foreign restores; state-machine oracle",
    "M02": "deterministic simulation: refits failing at seeded allocation points or through bad data; differential against the previous fit and a fresh process",
    "M03": "deterministic simulation: save/crash/restore in a fresh process at seeded life points, torn checkpoints; differential oracle",
    "M04": "deterministic simulation: seeded call histories incl. failing and faulted calls; differential against a pristine process",
    "M05": "deterministic simulation: seeded preemptive thread schedules inside ml4gw; differential against the call alone",
    "M06": "deterministic simulation of a request batcher: seeded coalescing with poisoned companions; differential against the request alone",
    "M07": "deterministic simulation: seeded call histories incl. allocation faults; snapshot-compare of inputs, parameters and earlier results",
    "M08": "deterministic simulation: seeded interleavings of forward and backward passes, poisoned companions, allocation faults; differential against the request alone and against finite differences of the served values",
    "M09": "deterministic simulation of training: seeded crashes at any point of a step, allocation faults, restarts from checkpoint bytes, interleaved validations and jobs; exact refinement of the uninterrupted run",
    "M10": "deterministic simulation of long histories with faults: seeded routines repeated, invariants on what stays alive and on work per call",
    "M11": "deterministic simulation of an accelerator with device-memory faults: seeded histories of moves, conversions, calls, refits and restores; differential against an instance that never left the host",
    "R01": "deterministic simulation of the random source: extreme legal outcomes, bounds and support invariants",
    "R02": "deterministic simulation: crash/resume from saved generator states and fresh processes; exact-equality oracle",
    "R03": "deterministic simulation of the random source: extreme legal outcomes, provenance decoding and constraint oracle",
    "R04": "deterministic simulation of the random source: extreme legal outcomes, exact-transform oracle",
    "R05": "deterministic simulation of the random source: extreme legal outcomes, provenance and pairing oracle",
    "R06": "deterministic simulation of the random source: many seeds and evenly spread outcomes, outcome counts against the stated law",
}
NOTE = ("Seeded search: holds on every explored run; not exhaustive. Runs are exactly repeatable from seed or replay file. "
        "CPU only; kernels of torch, numpy and HDF5 run for real.")


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(HERE, "sim", "props", p + ".py")):
            checks.append({
                "property": p, "quick_cmd": f"./check.py {p} --tier quick", "thorough_cmd": f"./check.py {p} --tier thorough",
                "technique": TECH[p], "level": "exploration", "level_note": NOTE,
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "no check built yet")})
    doc = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py",
        "checks": checks, "not_applicable": na,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
