"""Builds the simulator from /repo's working tree, runs a batch of simulated runs on all cores,
reports violations as minimised replay files, and writes the evidence."""
import json
import mmap
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
WORKERS = max(1, min(16, os.cpu_count() or 1))

# The builds of the library that the native stages run.
BUILDS = {
    "std": dict(args=["--release"], sub="release"),
    "chk": dict(args=["--profile", "checked"], sub="checked"),
    "nostd": dict(args=["--release", "--no-default-features"], sub="release"),
    "kern": dict(args=["--release", "--features", "kernels"], sub="release"),
}


class Machinery(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def start_build(name, bins):
    b = BUILDS[name]
    which = [x for n in bins for x in ("--bin", n)]
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"] + which + ["--target-dir", os.path.join(TARGET, name)] + b["args"]
    out = tempfile.TemporaryFile()
    return subprocess.Popen(cmd, cwd=SIM, env=env(), stdout=out, stderr=out), out


def build(names, bins=("sim",)):
    """All builds at once; cargo decides what is stale."""
    procs = [(n, start_build(n, bins)) for n in names]
    for n, (p, out) in procs:
        if p.wait() != 0:
            out.seek(0)
            raise Machinery("the %s build failed:\n%s" % (n, out.read().decode(errors="replace")[-6000:]))


def binary(name, exe="sim"):
    return os.path.join(TARGET, name, BUILDS[name]["sub"], exe)


class Totals:
    """What a whole check covered."""

    def __init__(self):
        self.runs = self.steps = self.calls = self.bytes = self.sim_ms = 0
        self.faults = {}
        self.probes = {}
        self.distinct = set()
        self.sigs = set()
        self.samples = []
        self.stages = []
        self.search_s = 0.0
        self.notes = []
        self.lock = threading.Lock()

    def add(self, d, label):
        self.runs += d["runs"]
        self.steps += d["steps"]
        self.calls += d["lib_calls"]
        self.bytes += d["bytes"]
        self.sim_ms += d["sim_ms"]
        for k, v in d["faults"].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in d["probes"].items():
            self.probes[k] = self.probes.get(k, 0) + v
        if d["sample"] and len(self.samples) < 3:
            self.samples.append({"build": label, "events": d["sample"]})


def read_bin(path, tot, tag):
    with open(path, "rb") as f:
        raw = f.read()
    v = struct.unpack("<%dQ" % (len(raw) // 8), raw)
    n = v[0]
    t = zlib.crc32(tag.encode()) * 0x9E3779B1
    tot.distinct.update(h ^ t for h in v[1:1 + n])
    tot.sigs.update(v[1 + n:])


def batch(prop, scenario, bname, seed, count, secs, tot, workers=None, tier="quick", first=0, share=1.0):
    """`count` runs of `scenario` on build `bname`. Returns None or a violation record."""
    workers = workers or WORKERS
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="sim-")
    try:
        procs = []
        for w in range(min(workers, count)):
            out = os.path.join(tmp, "o%d" % w)
            prog = os.path.join(tmp, "p%d" % w)
            cmd = [binary(bname), "run", "--prop", scenario, "--seed", str(seed), "--start", str(first + w), "--step", str(workers),
                   "--count", str(first + count), "--secs", str(int(secs)), "--out", out, "--progress", prog]
            err = open(os.path.join(tmp, "e%d" % w), "w+b")
            procs.append((subprocess.Popen(cmd, stdout=err, stderr=err, env=env()), out, prog, err))
        found = []
        runs = 0
        for p, out, prog, err in procs:
            rc = p.wait()
            if rc < 0:
                # The library took the process down: the progress cell says in which run.
                with open(prog, "rb") as f:
                    run = struct.unpack("<Q", f.read(8))[0] - 1
                if rc == -9:
                    raise Machinery("a worker was killed (out of memory?) in run %d of %s" % (run, scenario))
                found.append(dict(run=run, cls="signal %d" % -rc, msg=""))
                continue
            if rc != 0:
                err.seek(0)
                raise Machinery("worker exit %d: %s" % (rc, err.read().decode(errors="replace")[-3000:]))
            with open(out) as f:
                d = json.load(f)
            if d["error"]:
                raise Machinery("%s on %s: %s" % (scenario, bname, d["error"]))
            with tot.lock:
                tot.add(d, bname)
                read_bin(out + ".bin", tot, bname + scenario)
            runs += d["runs"]
            if d["violation"]:
                v = d["violation"]
                found.append(dict(run=v["run"], cls=v["class"], msg=v["msg"]))
        dt = time.time() - t0
        tot.search_s += dt * share
        tot.stages.append(dict(stage=scenario, build=bname, runs=runs, planned=count, wall_s=round(dt, 2)))
        log("  %s on %s: %d runs in %.1f s%s" % (scenario, bname, runs, dt, "" if not found else ", violations found"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not found:
        return None
    v = min(found, key=lambda v: v["run"])
    return minimise(prop, scenario, bname, seed, v, 60 if tier == "quick" else 300)


def minimise(prop, scenario, bname, seed, v, secs):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-seed%d-run%d.json" % (scenario, bname, seed, v["run"]))
    log("  minimising run %d (%s: %s)" % (v["run"], v["cls"], v["msg"]))
    cmd = [binary(bname), "min", "--prop", scenario, "--seed", str(seed), "--index", str(v["run"]), "--secs", str(secs), "--out", path, "--build", bname]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    if p.returncode != 0:
        raise Machinery("minimising failed (%d): %s" % (p.returncode, p.stdout.decode(errors="replace")[-2000:]))
    # A fresh process must fail the same way.
    p = subprocess.run([binary(bname), "replay", "--file", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    text = p.stdout.decode(errors="replace")
    if p.returncode != 1:
        raise Machinery("the replay file %s does not reproduce (%d): %s" % (path, p.returncode, text[-2000:]))
    with open(path) as f:
        d = json.load(f)
    log("  %d choices, %d after minimising; events:" % (d["original_tape_length"], len(d["tape"])))
    for e in d["events"][:30]:
        log("    " + e)
    log("    -> %s: %s" % (d["class"], d["msg"]))
    return dict(replay=path, cls=d["class"], msg=d["msg"])


def write_evidence(prop, tier, seed, tot, t0, violations, plan):
    os.makedirs(EVIDENCE, exist_ok=True)
    hours = max(tot.search_s, 1e-6) / 3600.0
    cov = dict(
        evaluations=tot.runs,
        distinct_nontrivial=len(tot.distinct),
        rule="One evaluation is one simulated run: a pure function of a choice tape drawn from a PRNG seeded with (VERIF_SEED, scenario, run "
             "index). Non-trivial: at least one scheduler step and one call into the library. Distinct: different hash of (tape, everything "
             "the library returned), counted per build and over at most the first 150000 runs of each worker and stage.",
        samples=tot.samples or [{"note": "no sample recorded"}],
        runs_per_hour=int(tot.runs / hours),
        seeds_per_hour=int(tot.runs / hours),
        scheduler_steps=tot.steps,
        library_calls=tot.calls,
        bytes_hashed=tot.bytes,
        simulated_time_s=round(tot.sim_ms / 1000.0, 3),
        simulated_time_note=plan.get("time", "the library has no clock or timer; progress is counted in scheduler steps"),
        faults_fired=dict(sorted(tot.faults.items())),
        probes=dict(sorted(tot.probes.items())),
        distinct_states=len(tot.sigs),
        distinct_states_measure=plan.get("measure", "distinct (operation, position within block/buffer, size class, flags) signatures at a step"),
        stages=tot.stages,
        real_components=plan.get("real", "all of blake2s_simd as built from /repo (dispatch, portable, SSE4.1, AVX2, BLAKE2sp)"),
        stub_components=plan.get("stub", "callers, input sources and their faults are simulated; nothing inside the library is replaced"),
        notes=tot.notes,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % prop))


def main(argv):
    import plans

    if not argv or argv[0] not in plans.PLANS:
        print("usage: check <property> [quick|thorough]; properties: %s" % " ".join(sorted(plans.PLANS)), file=sys.stderr)
        sys.exit(2)
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = plans.PLANS[prop]
    t0 = time.time()
    log("%s %s: VERIF_SEED=%d, %d workers" % (prop, tier, seed, WORKERS))
    tot = Totals()
    code = 0
    try:
        try:
            build(plan["builds"], plan.get("bins", ("sim",)))
            log("  built %s in %.1f s" % (", ".join(plan["builds"]), time.time() - t0))
            v = None
            for stage in plan[tier]:
                v = stage(prop, tier, seed, tot)
                if v:
                    break
        except Machinery as e:
            print("ERROR (machinery): %s" % e, file=sys.stderr, flush=True)
            sys.exit(2)
        write_evidence(prop, tier, seed, tot, t0, 1 if v else 0, plan)
        if v:
            log("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
            code = 1
        else:
            log("%s held on %d runs (%d distinct), %.1f s" % (prop, tot.runs, len(tot.distinct), time.time() - t0))
    finally:
        sys.stdout.flush()
    sys.exit(code)


def replay_main(argv):
    with open(argv[0]) as f:
        d = json.load(f)
    if d.get("kind"):
        import plans

        sys.exit(plans.REPLAYERS[d["kind"]](d, argv[0]))
    build([d["build"]])
    sys.exit(subprocess.run([binary(d["build"]), "replay", "--file", argv[0]], env=env()).returncode)
