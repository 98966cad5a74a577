"""What each check runs, per tier."""
import subprocess
import threading
import time

import driver
import hosts


def sim(scenario, build, count, secs, **kw):
    def stage(prop, tier, seed, tot):
        return driver.batch(prop, scenario, build, seed, count, secs, tot, tier=tier, **kw)

    return stage


def group(*stages):
    """Stages side by side, each with its own few workers."""
    def stage(prop, tier, seed, tot):
        found, errors = [], []

        def one(f):
            try:
                v = f(prop, tier, seed, tot)
                if v:
                    found.append(v)
            except driver.Machinery as e:
                errors.append(e)

        t0 = time.time()
        ts = [threading.Thread(target=one, args=(f,)) for f in stages]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        tot.search_s += time.time() - t0
        if errors:
            raise errors[0]
        return min(found, key=lambda v: v["replay"]) if found else None

    return stage


def seq(*stages):
    def stage(prop, tier, seed, tot):
        for f in stages:
            v = f(prop, tier, seed, tot)
            if v:
                return v
        return None

    return stage


def deepfix(prop, tier, seed, tot):
    """The stored chaining values are recomputed by the reference model (all but the deepest)."""
    t0 = time.time()
    p = subprocess.run([driver.binary("std"), "deepfix", "--check", "1", "--depths", "3", "--sp", "3"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise driver.Machinery("deepfix: %s" % p.stdout.decode(errors="replace"))
    driver.log("  reference model recomputed its deep states in %.0f s" % (time.time() - t0))
    tot.notes.append("the model's stored deep chaining values were recomputed and confirmed")
    return None


def kernels(count, secs):
    """The compression functions on their own, as long as the crate exposes them as it does today."""
    run = sim("C15kernel", "kern", count, secs, workers=8, share=0.0)

    def stage(prop, tier, seed, tot):
        try:
            driver.build(["kern"])
        except driver.Machinery as e:
            driver.log("  compression functions not checked on their own: %s" % str(e)[-300:])
            tot.notes.append("the compression functions are not exposed in the known form; they were checked through the hashers only")
            return None
        return run(prop, tier, seed, tot)

    return stage


def deep(scenario, build, count, workers, secs):
    return sim(scenario, build, count, secs, workers=workers, share=0.0)


def usual(scenario, n, builds=("std", "chk", "nostd"), share=(1.0, 0.35, 0.35), far=(), **kw):
    """The usual plan: `n` runs on the shipped build, a share on the other builds."""
    quick = [sim(scenario, b, int(n * s), 60) for b, s in zip(builds, share)]
    thorough = [sim(scenario, b, int(400 * n * s), int(360 * s)) for b, s in zip(builds, share)]
    for name in far:
        # A few runs that each hash more than 4 GiB.
        quick.append(sim(name, "std", 7, 120, workers=7))
        thorough.append(sim(name, "std", 2000, 300, workers=7))
        if builds[1] == "chk":
            thorough.append(sim(name, "chk", 2000, 150, workers=7))
    return dict(builds=list(builds), quick=quick, thorough=thorough, **kw)


PLANS = {
    "C01": usual("C01", 300000, far=["C15one"]),
    "C02": usual("C02", 300000, far=["C15one_sp"]),
    "C03": usual("C03", far=["C03far"], n=600000),
    "C04": usual("C04", far=["C04far"], n=600000),
    "C05": usual("C05", far=["C05far"], n=400000, builds=("std", "chk"), share=(1.0, 0.5)),
    "C06": usual("C06", far=["C06far"], n=500000),
    "C07": usual("C07", far=["C07far"], n=450000),
    "C08": usual("C08", far=["C08far"], n=700000),
    "C11": usual("C11", 700000),
    "C12": usual("C12", 200000, bins=("sim", "hosts")),
    "C13": usual("C13", 450000),
    "C14": usual("C14", 700000),
    "C16": usual("C16", 400000),
    "C19": usual("C19", 800000),
    "C17": usual("C17", 300000, time="simulated milliseconds of the cluster's discrete-event clock, summed over runs",
                 measure="distinct (workers up, nodes finished, messages in flight, faults on) signatures",
                 stub="coordinator, workers, network, clock and durable store are simulated; every hash operation is the library's own"),
}

ONE = ["C15one", "C15one_sp", "C15one_hash4_exact", "C15one_hash8_exact", "C15one_hash8", "C15one_update8"]
PLANS["C15"] = dict(
    builds=["std", "chk", "nostd"],
    quick=[
        kernels(60000, 20),
        group(
            deep("C15sp", "nostd", 1, 1, 90),
            deep("C15one_hash8", "nostd", 1, 1, 90),
            deep("C15deeper", "std", 3000, 1, 200),
            seq(
                group(deep("C15", "std", 3000, 2, 90), deep("C15", "chk", 2000, 2, 90), deep("C15", "nostd", 2000, 2, 90)),
                group(*([deep("C15sp", "std", 1, 1, 90)] + [deep(s, "std", 1, 1, 90) for s in ONE])),
            ),
        ),
    ],
    thorough=[
        deepfix,
        kernels(20000000, 200),
        group(
            deep("C15sp", "nostd", 2, 1, 600),
            deep("C15one", "nostd", 6, 1, 600),
            deep("C15one_hash8", "nostd", 3, 1, 600),
            deep("C15one_update8", "nostd", 2, 1, 600),
            seq(
                group(deep("C15", "std", 40000, 2, 200), deep("C15", "chk", 40000, 2, 200), deep("C15", "nostd", 40000, 2, 200)),
                group(*([deep("C15sp", b, 4, 2, 200) for b in ("std", "chk")] + [deep(s, "std", 4, 1, 200) for s in ONE[1:4]])),
                group(*([deep("C15sp", b, 4, 1, 200) for b in ("std", "chk")] + [deep(s, "chk", 3, 1, 200) for s in ONE[1:4]])),
                group(*[deep(s, b, 4, 1, 200) for s in ONE[4:] for b in ("std", "chk")]),
            ),
        ),
        group(deep("C15deeper", "std", 60000, 4, 400), deep("C15deeper", "chk", 60000, 2, 400), deep("C15deeper", "nostd", 60000, 2, 400)),
    ],
    real="all of blake2s_simd as built from /repo; every byte of the long streams is really hashed",
    stub="input is a 1 MiB pattern repeated for ever; the reference model starts from stored chaining values shortly before each boundary",
    measure="distinct (2 GiB epoch, position in block, distance to the boundary, keyed) signatures",
)

MACHINES = [("x86_64", 1), ("x86_64+ssse3", 1), ("x86_64+sse4.1", 1), ("x86_64+avx", 1), ("x86_64+avx2", 2), ("i686", 1), ("i686+avx2", 1), ("s390x", 1)]
PLANS["C09"] = dict(
    builds=["std", "chk", "nostd"],
    bins=("sim", "hosts"),
    quick=[hosts.builds("C09wide", 120000), sim("C09forced", "std", 60000, 30), sim("C09forced", "nostd", 20000, 20), hosts.machines(MACHINES, 14, 240)],
    thorough=[
        hosts.builds("C09wide", 3000000),
        sim("C09forced", "std", 10000000, 200), sim("C09forced", "chk", 5000000, 100), sim("C09forced", "nostd", 5000000, 100),
        hosts.builds("C09", 3000000),
        hosts.machines([(h, 1) for h in hosts.HOSTS], 150, 1200),
    ],
    real="all of blake2s_simd, compiled for each host; natively on this processor, interpreted elsewhere",
    stub="Miri stands in for the processors: which features they report, which instructions they accept, pointer width and byte order",
    measure="not counted in this check (the programs' records are compared instead)",
    time="no clock",
)
PLANS["C10"] = dict(
    builds=["std", "chk", "nostd"],
    bins=("sim", "races"),
    quick=[sim("C10", "std", 36000, 160), sim("C10", "nostd", 8000, 60), sim("C10", "chk", 4000, 40),
           hosts.races("x86_64+avx2", 8, 5, 150), hosts.races("x86_64", 8, 5, 150, 40)],
    thorough=[sim("C10", "std", 400000, 900), sim("C10", "nostd", 100000, 250), sim("C10", "chk", 100000, 250),
              hosts.races("x86_64+avx2", 8, 150, 400), hosts.races("x86_64", 8, 150, 400, 1200), hosts.races("i686", 8, 40, 200, 2400)],
    real="all of blake2s_simd, the threads, and the processor (natively) or Miri's model of it",
    stub="the thread scheduler: a token scheduler with single-step preemption natively, Miri's seeded scheduler when interpreted",
    measure="distinct (kind of call preempted, kind of call it meets, threads) signatures",
)

PLANS["C12"]["quick"].append(hosts.bounds([("x86_64", 3), ("x86_64+avx2", 5)], 9, 150))
PLANS["C12"]["thorough"].append(hosts.bounds([("x86_64", 2), ("x86_64+avx2", 4), ("i686", 1), ("i686+avx2", 1), ("s390x", 1)], 250, 1500))

PLANS["C18"] = usual("C18", 5000, share=(1.0, 0.3, 0.3), bins=("sim", "hosts"),
                    time="simulated ticks of one comparison: instructions under the single-step flag, or the interpreter's basic blocks; not summed",
                    measure="distinct (operation, digest length, length of the common prefix) signatures",
                    stub="the attacker, and the clock: it counts the instructions of one comparison and nothing else (no caches, no other load)")
TIMED = [("x86_64", 2), ("x86_64+avx2", 2), ("i686", 2), ("s390x", 2)]
PLANS["C18"]["quick"].append(hosts.judged("C18small", "time depends", TIMED, 40, 120))
PLANS["C18"]["thorough"].append(hosts.judged("C18small", "time depends", TIMED, 1500, 900))

REPLAYERS = {"judged": hosts.replay_judged, "hosts": hosts.replay_hosts, "races": hosts.replay_races, "bounds": hosts.replay_bounds}
