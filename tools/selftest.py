#!/usr/bin/env python3
"""selftest.py: one seed is one execution. Every scenario's runs are hashed twice, in different
processes, on different numbers of workers and in a different order; the hashes must agree."""
import concurrent.futures
import os
import subprocess
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import driver

driver.build(list(driver.BUILDS))
names = {"C%02d" % i: 4000 for i in list(range(1, 9)) + [11, 12, 13, 14, 16, 17, 19]}
names["C10"] = 200
names["C09wide"] = 4000
names["C15"] = 200
names["C12small"] = 1000
names["C09forced"] = 4000
names["C18"] = 300
names["C15kernel"] = 4000
bad = 0


def part(build, name, start, step, count, seed):
    p = subprocess.run([driver.binary(build), "hash", "--prop", name, "--seed", str(seed), "--start", str(start), "--step", str(step), "--count", str(count)],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if p.returncode != 0:
        raise SystemExit("%s on %s: exit %d" % (name, build, p.returncode))
    return p.stdout.decode().splitlines()


with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for name, n in names.items():
        for build in (("kern",) if name == "C15kernel" else ("std",) if name in ("C05", "C15") else ("std", "chk", "nostd")):
            if name == "C05" and build == "nostd":
                continue
            a = [l for f in [ex.submit(part, build, name, i, 8, n, 7) for i in range(8)] for l in f.result()]
            b = [l for f in [ex.submit(part, build, name, 2 - i, 3, n, 7) for i in range(3)] for l in f.result()]
            same = sorted(a) == sorted(b)
            kinds = len({l.split()[1] for l in a})
            print("%-8s %-6s %5d runs, %5d different, %s" % (name, build, len(a), kinds, "identical" if same else "NOT REPEATABLE"), flush=True)
            if not same:
                bad += 1
                for x, y in [(x, y) for x, y in zip(sorted(a), sorted(b)) if x != y][:3]:
                    print("   ", x[:200], "\n   ", y[:200])
sys.exit(1 if bad else 0)
