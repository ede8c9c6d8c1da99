"""Runs a property's scenarios over many seeds on all cores and reports."""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def known_open(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("open: property=" + prop + " "):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out[key.removeprefix("key=")] = what
    return out


def worker(idx, nworkers, plan, seed0, scratch, wfd, deadline):
    for j, (scn_name, fn, seed) in enumerate(plan):
        if j % nworkers != idx:
            continue
        if time.monotonic() > deadline:
            break
        r = core.isolated(fn, seed, None, scratch)
        r["scn"] = scn_name
        slim = dict(r)
        if r["status"] == "ok":
            slim["labels"] = len(r["labels"])
            slim["choices"] = []
            slim["events"] = r["events"][-6:] if j < 3 * nworkers else []
        core._send(wfd, slim)
    core._send(wfd, None)


def run_property(mod, tier, seed0, nworkers=None, wall=None, runs=None, only=None):
    """mod: SCENARIOS = {name: (fn, weight)}, QUICK, THOROUGH (run counts), ..."""
    from . import env

    t0 = time.monotonic()
    env.load()
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    total = runs or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    wall = wall or (float(os.environ.get("VERIF_WALL", 0)) or (240 if tier == "quick" else 3000))
    scn = {k: v for k, v in mod.SCENARIOS.items() if not only or k in only}
    wsum = sum(w for _, w in scn.values())
    plan = []
    for name, (fn, w) in scn.items():
        n = max(1, round(total * w / wsum))
        plan += [(name, fn, f"{mod.PROPERTY}/{name}/{seed0}/{i}", i) for i in range(n)]
    plan.sort(key=lambda x: (x[3], x[0]))
    plan = [p[:3] for p in plan]
    scratch = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
    deadline = t0 + wall
    procs = []
    sys.stdout.flush()
    try:
        for i in range(nworkers):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    worker(i, nworkers, plan, seed0, scratch, w, deadline)
                except BrokenPipeError:
                    code = 4
                except BaseException:  # noqa: BLE001
                    import traceback
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            os.close(w)
            procs.append((pid, r))
        agg = Agg(mod)
        import select
        fds = {r: pid for pid, r in procs}
        dead = 0
        stop_at = None
        while fds:
            ready, _, _ = select.select(list(fds), [], [], 5)
            for fd in ready:
                try:
                    res = core._recv(fd)
                except EOFError:
                    dead += 1
                    res = None
                if res is None:
                    os.close(fd)
                    os.waitpid(fds.pop(fd), 0)
                    continue
                agg.add(res)
            if agg.nviol() >= 12 and stop_at is None:
                stop_at = time.monotonic()
                import signal
                for fd, pid in list(fds.items()):
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
        agg.wall = time.monotonic() - t0
        agg.dead = dead if stop_at is None else 0
        return report(mod, tier, seed0, agg, scratch, len(plan), scn)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Agg:
    def __init__(self, mod):
        self.known = known_open(mod.PROPERTY)
        self.runs = 0
        self.ok = 0
        self.viol = []
        self.harness = []
        self.counters = {}
        self.digests = set()
        self.scheds = set()
        self.steps = 0
        self.checks = 0
        self.samples = []
        self.tags = {}
        self.per = {}
        self.cpu = 0.0
        self.wall = 0.0
        self.dead = 0

    def nviol(self):
        return sum(r["key"] not in self.known for r in self.viol)

    def add(self, r):
        self.runs += 1
        self.cpu += r["wall"]
        self.per[r["scn"]] = self.per.get(r["scn"], 0) + 1
        for k, v in r["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.digests.add(r["digest"])
        if any(k.startswith("sched:") for k in r["counters"]):
            self.scheds.add(r["sched"])
        self.steps += r["steps"]
        self.checks += r["checks"]
        for t in r["tags"]:
            self.tags[t] = self.tags.get(t, 0) + 1
        if r["status"] == "ok":
            self.ok += 1
            if r["events"] and len(self.samples) < 6:
                self.samples.append({"seed": r["seed"], "scenario": r["scn"], "events": [e[:160] for e in r["events"]]})
        elif r["status"] == "violation":
            if r["key"] not in self.known or not any(v["key"] == r["key"] for v in self.viol):
                self.viol.append(r)
        else:
            self.harness.append(r)


def report(mod, tier, seed0, agg, scratch, planned, scn):
    prop = mod.PROPERTY
    known = known_open(prop)
    exit_code = 0
    lines = []
    fresh = [r for r in agg.viol if r["key"] not in known]
    seen_known = {r["key"] for r in agg.viol if r["key"] in known}
    for k, what in known.items():
        lines.append(f"KNOWN-FINDING: property={prop} {what}")
        if k not in seen_known:
            lines.append(f"note: known finding {k} was not reached in this run")
    vrecs = []
    done = set()
    for r in fresh:
        if r["key"] in done or len(done) >= 2:
            continue
        done.add(r["key"])
        fn = scn[r["scn"]][0]
        m = core.minimise(fn, r, scratch) if r["key"] not in ("hang",) else r
        a = core.isolated(fn, r["seed"], m["choices"], scratch) if r["key"] != "hang" else m
        stable = a["status"] == "violation" and a["key"] == m["key"] and a["digest"] == m["digest"]
        os.makedirs(REPLAYS, exist_ok=True)
        h = hashlib.sha256((prop + r["scn"] + json.dumps(m["choices"]) + r["key"]).encode()).hexdigest()[:12]
        path = os.path.join(REPLAYS, f"{prop}-{h}.json")
        doc = {
            "property": prop, "scenario": r["scn"], "seed": r["seed"], "key": r["key"],
            "message": a["msg"] if a["status"] == "violation" else r["msg"],
            "choices": m["choices"], "labels": [f"{lab}:{v}/{n}" for (lab, n), v in zip(m["labels"], m["choices"])],
            "original_choices": r["choices"], "events": a["events"] or r["events"],
            "digest": a["digest"], "replays_exactly": bool(stable),
            "schedule_and_faults": [e for e in (a["events"] or []) if "FAULT" in e or "sched" in e],
        }
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        lines.append(f"  scenario={r['scn']} seed={r['seed']} key={r['key']}")
        lines.append("  " + doc["message"].replace("\n", "\n  ")[:1500])
        vrecs.append({"key": r["key"], "seed": r["seed"], "scenario": r["scn"], "replay": path, "message": doc["message"][:500]})
        exit_code = 1
    agg_fail = None
    if hasattr(mod, "aggregate") and exit_code == 0:
        agg_fail = mod.aggregate(agg)
        if agg_fail:
            lines.append("warning: coverage expectation not met: " + agg_fail)
    if exit_code == 0 and (agg.harness or agg.dead):
        exit_code = 2
        for r in agg.harness[:3]:
            lines.append(f"HARNESS-ERROR scenario={r['scn']} seed={r['seed']} {r['msg']}")
        if agg.dead:
            lines.append(f"HARNESS-ERROR {agg.dead} worker processes died")
    faults = {k[6:]: v for k, v in agg.counters.items() if k.startswith("fault:")}
    rng = {k[12:]: v for k, v in agg.counters.items() if k.startswith("rng-extreme:")}
    wall = agg.wall
    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": len(agg.digests),
            "rule": mod.RULE,
            "samples": agg.samples or [{"note": "no passing sample recorded"}],
            "planned_runs": planned,
            "runs_per_scenario": agg.per,
            "oracle_checks": agg.checks,
            "runs_per_hour": round(agg.runs / max(wall, 1e-9) * 3600),
            "seeds_per_hour": round(agg.runs / max(wall, 1e-9) * 3600),
            "simulated_time": f"{agg.steps} logical steps (ml4gw has no clock; a step is one storage operation, one delivered item or one traced statement/operator)",
            "logical_steps": agg.steps,
            "faults_injected": faults,
            "extreme_random_outcomes": rng,
            "distinct_interleavings": len(agg.scheds),
            "distinct_run_histories": len(agg.digests),
            "context_switches": agg.counters.get("sched:switches", 0),
            "reached": agg.tags,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "harness_errors": len(agg.harness),
        },
        "wall_s": round(wall, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(fresh),
        "violation_records": vrecs,
        "known_findings_seen": sorted(seen_known),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}] seed={seed0}: {agg.runs}/{planned} runs, {agg.checks} checks, {len(agg.digests)} distinct histories, "
          f"{len(agg.scheds)} interleavings, {sum(faults.values())} faults, {len(fresh)} violating runs, {len(agg.harness)} harness errors, {wall:.1f}s")
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return exit_code


def replay(mod, path):
    from . import env

    env.load()
    doc = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        fn = mod.SCENARIOS[doc["scenario"]][0]
        r = core.isolated(fn, doc["seed"], doc["choices"], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for e in r["events"]:
        print("  ", e)
    if r["status"] == "violation":
        same = r["digest"] == doc["digest"]
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        print(f"  key={r['key']} {'identical' if same else 'DIFFERENT'} digest {r['digest'][:16]}")
        print("  " + r["msg"][:2000])
        return 1
    print(f"replay finished with status {r['status']}: {r.get('msg', '')}")
    return 0 if r["status"] == "ok" else 2
