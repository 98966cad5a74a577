#!/usr/bin/env python3
"""catch.py [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it."""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tier = "quick"
ids = args or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    try:
        p = subprocess.run(["./check", prop, tier], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED="1"))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    out = p.stdout.decode(errors="replace")
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    what = [l.strip() for l in out.splitlines() if "violat" in l.lower() or "class" in l.lower()]
    print("%-22s %s rc=%d %3.0fs %s" % (i, prop, p.returncode, time.time() - t, "CAUGHT" if v and p.returncode == 1 else "MISSED"), (what or out.splitlines()[-3:])[:2], flush=True)
