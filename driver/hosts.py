"""C09 and the interpreted half of C10: the same programs on several builds and several machines,
some of them simulated by Miri (which stands in for the processor: it refuses instructions the
machine does not have, and any undefined operation, and schedules threads by a seed)."""
import json
import os
import subprocess
import threading
import time

import driver
from driver import Machinery, TARGET, SIM, env, log

SYSROOT = os.path.join(driver.VERIF, "sysroot")
# name: (target, target features). The x86_64 sysroot is part of the toolchain's cache.
HOSTS = {
    "x86_64": (None, ""),
    "x86_64+sse4.1": (None, "+sse4.1"),
    "x86_64+ssse3": (None, "+ssse3,+sse4a,+popcnt,+lzcnt,+bmi1,+bmi2,+aes,+pclmulqdq,+sha,+fxsr,+movbe,+adx"),
    "x86_64+avx": (None, "+avx,+fma,+f16c,+popcnt,+lzcnt,+bmi1,+bmi2,+aes,+pclmulqdq,+sha,+movbe,+adx"),
    "x86_64+avx2": (None, "+avx2"),
    "i686": ("i686-unknown-linux-gnu", ""),
    "i686+avx2": ("i686-unknown-linux-gnu", "+avx2"),
    "s390x": ("s390x-unknown-linux-gnu", ""),
    "aarch64": ("aarch64-unknown-linux-gnu", ""),
    "powerpc": ("powerpc-unknown-linux-gnu", ""),
}
FLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance"
sysroot_lock = threading.Lock()
sysroot_ok = {}
sysroot_locks = {}


def miri_env(host, flags):
    target, feat = HOSTS[host]
    e = {"MIRIFLAGS": FLAGS + " " + flags}
    if feat:
        e["RUSTFLAGS"] = "-Ctarget-feature=" + feat
    if target:
        e["MIRI_SYSROOT"] = os.path.join(SYSROOT, target)
    return env(e)


def sysroot(host):
    """Whether Miri can run this machine here."""
    target, _ = HOSTS[host]
    if not target:
        return True
    with sysroot_lock:
        lock = sysroot_locks.setdefault(target, threading.Lock())
    with lock:
        if target not in sysroot_ok:
            e = env({"MIRI_SYSROOT": os.path.join(SYSROOT, target), "CARGO_TARGET_DIR": os.path.join(TARGET, "sysroot-" + target)})
            os.makedirs(SYSROOT, exist_ok=True)
            p = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", target], cwd=SIM, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            sysroot_ok[target] = p.returncode == 0
    return sysroot_ok[target]


def miri(host, exe, args, flags="", timeout=600, nostd=False):
    """Returns (exit code, text). The code is None if it did not finish in time."""
    target, feat = HOSTS[host]
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", exe, "--target-dir",
           os.path.join(TARGET, "miri-" + host.replace("+", "-") + ("-nostd" if nostd else ""))]
    if target:
        cmd += ["--target", target]
    if nostd:
        cmd += ["--no-default-features"]
    try:
        p = subprocess.run(cmd + ["--"] + args, cwd=SIM, env=miri_env(host, flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace")
    return p.returncode, p.stdout.decode(errors="replace")


def native(build, exe, args, timeout=300):
    try:
        p = subprocess.run([driver.binary(build, exe)] + args, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace")
    return p.returncode, p.stdout.decode(errors="replace")


def on(host, args, timeout=600):
    if host in driver.BUILDS:
        return native(host, "hosts", args)
    return miri(host, "hosts", args, timeout=timeout, nostd=False)


def complaint(text):
    """What Miri objects to, if it is the program's doing; None if it is Miri's own limit."""
    for line in text.splitlines():
        for sign in ("Undefined Behavior", "deadlock"):
            if sign in line:
                return line[line.index(sign):].strip()
    return None


def lines(text):
    """{run: record} of complete runs, and the run that was begun but not finished."""
    done, begun = {}, None
    for line in text.splitlines():
        w = line.split(" ", 2)
        if len(w) >= 2 and w[0] == "run" and w[1].isdigit():
            if len(w) == 3 and len(w[2].split(" ")[0]) == 16:
                done[int(w[1])] = w[2]
                begun = None
            else:
                begun = int(w[1])
        elif begun is not None and len(line) > 17 and line[16] == " " and all(c in "0123456789abcdef" for c in line[:16]):
            done[begun] = line
            begun = None
    return done, begun


def shrink(tape, fails, seconds):
    """Deletes spans and lowers values while `fails(tape)`. Returns the tape and how many were tried."""
    end = time.time() + seconds
    tried = 0

    def ok(t):
        nonlocal tried
        if time.time() > end:
            return False
        tried += 1
        return fails(t)

    changed = True
    while changed and time.time() < end:
        changed = False
        size = max(1, len(tape) // 2)
        while size >= 1:
            i = 0
            while i < len(tape):
                t = tape[:i] + tape[i + size:]
                if len(t) < len(tape) and ok(t):
                    tape, changed = t, True
                else:
                    i += size
            size //= 2
        for i in range(len(tape)):
            for v in (0, 1, tape[i] // 2):
                if v < tape[i] and ok(tape[:i] + [v] + tape[i + 1:]):
                    tape, changed = tape[:i] + [v] + tape[i + 1:], True
                    break
    return tape, tried


def outcome(host, scenario, tape, verbose=False):
    """What a host does with one tape: ("ok", hash...), ("refused", why) or ("crash", signal)."""
    rc, text = on(host, ["tape", scenario, "1" if verbose else "0", ",".join(map(str, tape)) or "0"])
    if rc is None:
        return "hang", text
    if rc == 0:
        done, _ = lines(text) if not verbose else ({}, None)
        return ("ok " + done.get(0, "?"), text)
    why = complaint(text)
    if why:
        return "machine: " + why, text
    if rc < 0:
        return "crash: signal %d" % -rc, text
    return "unsupported", text


def report(prop, scenario, seed, run, ref, host, tape, seconds, kind):
    """Shrinks a disagreement and writes its replay file."""
    def disagree(t):
        a, b = outcome(ref, scenario, t)[0], outcome(host, scenario, t)[0]
        return a != b and b != "unsupported" and a != "unsupported"

    if not disagree(tape):
        raise Machinery("run %d of %s differed between %s and %s, but does not when repeated" % (run, scenario, ref, host))
    small, tried = shrink(tape, disagree, seconds)
    a, b = outcome(ref, scenario, small)[0], outcome(host, scenario, small)[0]
    events = {}
    for h in (ref, host):
        events[h] = [l.strip()[:400] for l in outcome(h, scenario, small, True)[1].splitlines() if l.strip()][-40:]
    os.makedirs(driver.REPLAYS, exist_ok=True)
    path = os.path.join(driver.REPLAYS, "%s-%s-seed%d-run%d.json" % (scenario, host, seed, run))
    with open(path, "w") as f:
        json.dump(dict(property=prop, kind=kind, scenario=scenario, seed=seed, run=run, reference=ref, host=host, outcomes=[a, b], tape=small,
                       original_tape_length=len(tape), candidates_tried=tried, events=events), f, indent=1)
    log("  run %d: %s on %s, %s on %s" % (run, a, ref, b, host))
    for h in (ref, host):
        log("    on %s:" % h)
        for e in events[h][-12:]:
            log("      " + e)
    return dict(replay=path, cls="hosts differ", msg="%s on %s, %s on %s" % (a, ref, b, host))


def replay_hosts(d, path):
    driver.build([h for h in (d["reference"], d["host"]) if h in driver.BUILDS], ["hosts"])
    for h in (d["reference"], d["host"]):
        if h not in driver.BUILDS and not sysroot(h):
            print("this machine cannot be simulated here")
            return 3
    got = []
    for h in (d["reference"], d["host"]):
        print("on %s:" % h)
        print(outcome(h, d["scenario"], d["tape"], True)[1])
        got.append(outcome(h, d["scenario"], d["tape"])[0])
    print("%s on %s, %s on %s" % (got[0], d["reference"], got[1], d["host"]))
    return 1 if got[0] != got[1] else 0


def parallel(jobs):
    """Runs callables side by side; returns their results in order."""
    out = [None] * len(jobs)
    err = []

    def one(i):
        try:
            out[i] = jobs[i]()
        except Exception as e:  # noqa: BLE001 - handed on below
            err.append(e)

    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return out


def get_tape(scenario, seed, run):
    rc, text = native("std", "hosts", ["gettape", scenario, str(seed), str(run)])
    return [int(x) for x in text.strip().split(",") if x.isdigit()] if rc == 0 else None


def builds(scenario, count):
    """The same `count` programs on the three native builds."""
    def stage(prop, tier, seed, tot):
        t0 = time.time()
        names = ["std", "chk", "nostd"]
        w = driver.WORKERS
        jobs = [(b, i) for b in names for i in range(w)]
        sem = threading.Semaphore(w)

        def job(b, i):
            with sem:
                return native(b, "hosts", ["draw", scenario, str(seed), str(i), str(count // w), str(w)])

        res = parallel([lambda b=b, i=i: job(b, i) for b, i in jobs])
        got = {b: {} for b in names}
        broken = None
        for (b, i), (rc, text) in zip(jobs, res):
            done, begun = lines(text)
            got[b].update(done)
            if rc != 0:
                run = begun if begun is not None else i
                broken = min(broken or (run, b), (run, b))
        tot.runs += sum(len(g) for g in got.values())
        tot.steps += sum(len(g) for g in got.values())
        tot.search_s += time.time() - t0
        for b in names:
            tot.distinct.update(hash((scenario, b, r, v)) for r, v in got[b].items())
        tot.stages.append(dict(stage=scenario, build="std, chk, nostd compared", runs=sum(len(g) for g in got.values()), planned=3 * count, wall_s=round(time.time() - t0, 2)))
        log("  %s: %d runs on each of %s in %.1f s" % (scenario, len(got["std"]), ", ".join(names), time.time() - t0))
        for run in sorted(set(got["std"]) | set(got["chk"]) | set(got["nostd"])):
            v = [got[b].get(run) for b in names]
            for k in (1, 2):
                if v[0] != v[k]:
                    tape = get_tape_any(scenario, seed, run)
                    return report(prop, scenario, seed, run, "std", names[k], tape, 60 if tier == "quick" else 300, "hosts")
        if broken:
            # All of them die alike: the other properties' checks say how.
            tot.notes.append("run %d ends the process on every build" % broken[0])
        return None

    return stage


def get_tape_any(scenario, seed, run):
    # Drawing the tape runs the program: use whichever build survives it.
    for b in ("std", "nostd", "chk"):
        rc, text = native(b, "hosts", ["gettape", scenario, str(seed), str(run)])
        if rc == 0:
            return [int(x) for x in text.strip().split(",") if x]
    raise Machinery("run %d of %s ends every process that tries it" % (run, scenario))


def machines(plan, count, timeout):
    """`plan`: [(host, processes)]; each process interprets `count` programs of C09."""
    def stage(prop, tier, seed, tot):
        t0 = time.time()
        jobs = []
        first = 0
        for host, n in plan:
            for _ in range(n):
                jobs.append((host, first))
                first += count

        def job(host, first):
            if not sysroot(host):
                return host, first, "no sysroot", ""
            rc, text = miri(host, "hosts", ["draw", "C09", str(seed), str(first), str(count), "1"], timeout=timeout)
            return host, first, rc, text

        # One process per host first, so that no two build the same target directory at once.
        warm = {}

        def chain(host):
            out = []
            mine = [f for h, f in jobs if h == host]
            out.append(job(host, mine[0]))
            out.extend(parallel([lambda f=f: job(host, f) for f in mine[1:]]))
            return out

        res = [r for rs in parallel([lambda h=h: chain(h) for h in dict.fromkeys(h for h, _ in plan)]) for r in rs]
        del warm
        bad = None
        for host, first, rc, text in res:
            if rc == "no sysroot":
                tot.notes.append("%s could not be simulated here (no sysroot)" % host)
                continue
            done, begun = lines(text)
            ref_rc, ref_text = native("std", "hosts", ["draw", "C09", str(seed), str(first), str(count), "1"])
            ref, _ = lines(ref_text)
            tot.runs += len(done)
            tot.steps += len(done)
            tot.distinct.update(hash((host, r, v)) for r, v in done.items())
            tot.probes["interpreted on " + host] = tot.probes.get("interpreted on " + host, 0) + len(done)
            tot.stages.append(dict(stage="C09", build="Miri as " + host, runs=len(done), planned=count))
            for r in sorted(done):
                if r in ref and ref[r] != done[r]:
                    bad = min(bad or (r, host), (r, host))
            if rc not in (0, None):
                why = complaint(text)
                if why is None:
                    tot.notes.append("Miri stopped on %s without blaming the program: %s" % (host, text.strip()[-300:]))
                    log("  note: Miri stopped on %s: %s" % (host, text.strip()[-300:]))
                elif begun is not None:
                    bad = min(bad or (begun, host), (begun, host))
            elif rc is None:
                tot.notes.append("%s: stopped after %d s with %d of %d programs" % (host, timeout, len(done), count))
        tot.search_s += time.time() - t0
        log("  C09 on simulated machines (%s): %d programs in %.1f s" % (", ".join(h for h, _ in plan), sum(len(lines(t)[0]) for _, _, _, t in res), time.time() - t0))
        for n in tot.notes:
            log("  note: " + n[:200])
        if bad:
            run, host = bad
            tape = get_tape_any("C09", seed, run)
            return report(prop, "C09", seed, run, "std", host, tape, 60 if tier == "quick" else 300, "hosts")
        return None

    return stage


def race_fault(text):
    """Only what this property is about."""
    for line in text.splitlines():
        s = line.strip()
        if "Data race detected" in s or "DIFFERS" in s or "deadlock" in s:
            return s
    return None


def race_run(host, tape, mseed):
    rc, text = miri(host, "races", ["tape", ",".join(map(str, tape)) or "0"], "-Zmiri-seed=%d" % mseed, timeout=120)
    return (race_fault(text) if rc not in (0, None) else None), text


def races(host, procs, programs, timeout, first=0):
    """C10's programs on interpreted threads: `procs` processes with `programs` programs each."""
    def stage(prop, tier, seed, tot):
        t0 = time.time()

        def job(k):
            return miri(host, "races", ["draw", str(seed), str(first + k * programs), str(programs)], "-Zmiri-seed=%d" % k, timeout=timeout)

        # One process first, so that no two build the same target directory at once.
        res = [job(0)] + parallel([lambda k=k: job(k) for k in range(1, procs)])
        runs = 0
        bad = None
        for k, (rc, text) in enumerate(res):
            done = [int(l.split()[1]) for l in text.splitlines() if l.startswith("program ") and l.split()[1].isdigit()]
            whole = len(done) if rc == 0 else max(0, len(done) - 1)
            runs += whole
            tot.distinct.update(hash((host, i)) for i in done[:whole])
            if rc in (0, None):
                continue
            if race_fault(text) is None:
                tot.notes.append("Miri stopped on %s without a data race: %s" % (host, (complaint(text) or text.strip()[-200:])))
            elif bad is None and done:
                bad = k, done[-1], text
        tot.runs += runs
        tot.steps += runs
        tot.search_s += time.time() - t0
        tot.faults["thread schedules drawn by Miri"] = tot.faults.get("thread schedules drawn by Miri", 0) + runs
        tot.stages.append(dict(stage="races", build="Miri as " + host, runs=runs, planned=procs * programs, wall_s=round(time.time() - t0, 2)))
        log("  races on Miri as %s: %d programs in %.1f s" % (host, runs, time.time() - t0))
        if not bad:
            return None
        k, i, text = bad
        rc, t = native("std", "races", ["gettape", str(seed), str(i)])
        tape = [int(x) for x in t.strip().split(",") if x]
        d = dict(property=prop, kind="races", host=host, seed=seed, run=i)
        found = [s for s, r in enumerate(parallel([lambda s=s: race_run(host, tape, s) for s in range(8)])) if r[0]]
        if found:
            # The one program is enough.
            small, tried = shrink(tape, lambda t: race_run(host, t, found[0])[0] is not None, 45)
            why, text = race_run(host, small, found[0])
            d.update(schedule_seed=found[0], tape=small, original_tape_length=len(tape), candidates_tried=tried)
        else:
            why = race_fault(text)
            d.update(schedule_seed=k, draw=[seed, first + k * programs, i + 1 - first - k * programs])
        d.update(fault=why, events=[l[:300] for l in text.splitlines()][:80])
        os.makedirs(driver.REPLAYS, exist_ok=True)
        path = os.path.join(driver.REPLAYS, "races-%s-seed%d-run%d.json" % (host, seed, i))
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        log("  program %d, schedule %d: %s" % (i, d["schedule_seed"], why))
        return dict(replay=path, cls="race", msg=why)

    return stage


def replay_races(d, path):
    if "tape" in d:
        why, text = race_run(d["host"], d["tape"], d["schedule_seed"])
    else:
        rc, text = miri(d["host"], "races", ["draw"] + [str(x) for x in d["draw"]], "-Zmiri-seed=%d" % d["schedule_seed"], timeout=900)
        why = race_fault(text) if rc not in (0, None) else None
    print(text)
    print("violation of %s: %s" % (d["property"], why) if why else "no violation")
    return 1 if why else 0


def stray(text):
    """Only what C12 is about: an access outside the bytes it was given."""
    for line in text.splitlines():
        if "Undefined Behavior" in line and "memory access failed" in line:
            return line[line.index("Undefined Behavior"):].strip()
    return None


def bounds_run(host, tape, verbose=False):
    rc, text = miri(host, "hosts", ["tape", "C12small", "1" if verbose else "0", ",".join(map(str, tape)) or "0"], timeout=200)
    return (stray(text) if rc not in (0, None) else None), text


def bounds(plan, count, timeout):
    """C12's programs with every input and object an interpreted allocation of its own, exactly as
    long as it is: `plan` is [(host, processes)], each process running `count` programs."""
    def stage(prop, tier, seed, tot):
        t0 = time.time()
        jobs, first = {}, 0
        for host, n in plan:
            for _ in range(n):
                jobs.setdefault(host, []).append(first)
                first += count

        def job(host, first):
            return host, first, miri(host, "hosts", ["draw", "C12small", str(seed), str(first), str(count), "1"], timeout=timeout)

        def chain(host):
            # One process first, so that no two build the same target directory at once.
            if not sysroot(host):
                return [(host, jobs[host][0], ("no sysroot", ""))]
            miri(host, "hosts", ["tape", "C12small", "0", "0"], timeout=timeout)
            return parallel([lambda f=f: job(host, f) for f in jobs[host]])

        bad, runs = None, 0
        for host, first, (rc, text) in [r for rs in parallel([lambda h=h: chain(h) for h in jobs]) for r in rs]:
            if rc == "no sysroot":
                tot.notes.append("%s could not be simulated here (no sysroot)" % host)
                continue
            done, begun = lines(text)
            runs += len(done)
            tot.distinct.update(hash((host, r, v)) for r, v in done.items())
            tot.stages.append(dict(stage="C12small", build="Miri as " + host, runs=len(done), planned=count))
            if rc is None:
                tot.notes.append("%s: stopped after %d s with %d of %d programs" % (host, timeout, len(done), count))
            elif rc != 0 and stray(text) and begun is not None:
                bad = min(bad or (begun, host), (begun, host))
            elif rc != 0:
                tot.notes.append("Miri stopped on %s without a stray access: %s" % (host, complaint(text) or text.strip()[-300:]))
        tot.runs += runs
        tot.steps += runs
        tot.faults["exact interpreted allocations"] = tot.faults.get("exact interpreted allocations", 0) + runs
        tot.search_s += time.time() - t0
        log("  C12small on Miri (%s): %d programs in %.1f s" % (", ".join(jobs), runs, time.time() - t0))
        for n in tot.notes:
            log("  note: " + n[:200])
        if not bad:
            return None
        run, host = bad
        tape = get_tape_any("C12small", seed, run)
        if bounds_run(host, tape)[0] is None:
            raise Machinery("the stray access of run %d on %s does not repeat" % (run, host))
        small, tried = shrink(tape, lambda t: bounds_run(host, t)[0] is not None, 45 if tier == "quick" else 300)
        why, text = bounds_run(host, small, True)
        os.makedirs(driver.REPLAYS, exist_ok=True)
        path = os.path.join(driver.REPLAYS, "C12small-%s-seed%d-run%d.json" % (host, seed, run))
        with open(path, "w") as f:
            json.dump(dict(property=prop, kind="bounds", host=host, seed=seed, run=run, tape=small, original_tape_length=len(tape),
                           candidates_tried=tried, fault=why, events=[l[:300] for l in text.splitlines()][:80]), f, indent=1)
        log("  program %d: %s" % (run, why))
        return dict(replay=path, cls="stray access", msg=why)

    return stage


def replay_bounds(d, path):
    driver.build(["std"], ["hosts"])
    why, text = bounds_run(d["host"], d["tape"], True)
    print(text)
    print("violation of %s: %s" % (d["property"], why) if why else "no violation")
    return 1 if why else 0


def failed(text, sign):
    """The class of the run that failed, if it failed in the way meant."""
    for r in lines(text)[0].values():
        if r[17:].startswith(sign):
            return r[17:]
    return None


def judged_run(host, scenario, sign, tape, verbose=False):
    rc, text = miri(host, "hosts", ["tape", scenario, "1" if verbose else "0", ",".join(map(str, tape)) or "0"], timeout=200)
    return failed(text, sign) if not verbose else None, text


def judged(scenario, sign, plan, count, timeout):
    """`count` programs of a scenario per process on interpreted machines, with the scenario's own
    oracle: only failures whose class begins with `sign` count."""
    def stage(prop, tier, seed, tot):
        t0 = time.time()
        jobs, first = {}, 0
        for host, n in plan:
            for _ in range(n):
                jobs.setdefault(host, []).append(first)
                first += count

        def job(host, first):
            return host, first, miri(host, "hosts", ["draw", scenario, str(seed), str(first), str(count), "1"], timeout=timeout)

        def chain(host):
            # One process first, so that no two build the same target directory at once.
            if not sysroot(host):
                return [(host, jobs[host][0], ("no sysroot", ""))]
            if len(jobs[host]) > 1:
                miri(host, "hosts", ["tape", scenario, "0", "0"], timeout=timeout)
            return parallel([lambda f=f: job(host, f) for f in jobs[host]])

        bad, runs = None, 0
        for host, first, (rc, text) in [r for rs in parallel([lambda h=h: chain(h) for h in jobs]) for r in rs]:
            if rc == "no sysroot":
                tot.notes.append("%s could not be simulated here (no sysroot)" % host)
                continue
            done, begun = lines(text)
            runs += len(done)
            tot.distinct.update(hash((host, r, v)) for r, v in done.items())
            tot.stages.append(dict(stage=scenario, build="Miri as " + host, runs=len(done), planned=count))
            for r, v in done.items():
                if v[17:].startswith(sign):
                    bad = min(bad or (r, host), (r, host))
            if rc is None:
                tot.notes.append("%s: stopped after %d s with %d of %d programs" % (host, timeout, len(done), count))
            elif rc != 0:
                tot.notes.append("Miri stopped on %s: %s" % (host, complaint(text) or text.strip()[-300:]))
        tot.runs += runs
        tot.steps += runs
        tot.search_s += time.time() - t0
        log("  %s on Miri (%s): %d programs in %.1f s" % (scenario, ", ".join(jobs), runs, time.time() - t0))
        for n in tot.notes:
            log("  note: " + n[:200])
        if not bad:
            return None
        run, host = bad
        tape = get_tape_any(scenario, seed, run)
        # The interpreter's clock is not this machine's: the run may have ended elsewhere here.
        if judged_run(host, scenario, sign, tape)[0] is None:
            rc, text = miri(host, "hosts", ["gettape", scenario, str(seed), str(run)], timeout=200)
            tape = [int(x) for x in text.strip().split(",") if x.isdigit()]
            if judged_run(host, scenario, sign, tape)[0] is None:
                raise Machinery("the failure of run %d of %s on %s does not repeat" % (run, scenario, host))
        small, tried = shrink(tape, lambda t: judged_run(host, scenario, sign, t)[0] is not None, 45 if tier == "quick" else 300)
        why = judged_run(host, scenario, sign, small)[0]
        text = judged_run(host, scenario, sign, small, True)[1]
        os.makedirs(driver.REPLAYS, exist_ok=True)
        path = os.path.join(driver.REPLAYS, "%s-%s-seed%d-run%d.json" % (scenario, host, seed, run))
        with open(path, "w") as f:
            json.dump(dict(property=prop, kind="judged", scenario=scenario, sign=sign, host=host, seed=seed, run=run, tape=small,
                           original_tape_length=len(tape), candidates_tried=tried, fault=why, events=[l[:300] for l in text.splitlines()][:80]), f, indent=1)
        log("  program %d on %s: %s" % (run, host, why))
        return dict(replay=path, cls=why, msg=why)

    return stage


def replay_judged(d, path):
    why = judged_run(d["host"], d["scenario"], d["sign"], d["tape"])[0]
    print(judged_run(d["host"], d["scenario"], d["sign"], d["tape"], True)[1])
    print("violation of %s: %s" % (d["property"], why) if why else "no violation")
    return 1 if why else 0
