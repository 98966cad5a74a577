#!/usr/bin/env python3
"""quiet.py NAME...: applies refactorings (refactors/NAME.diff, which change no behaviour) to a copy of
/repo, and runs every quick check against that copy, from a copy of /verif. All must hold."""
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/quiet"
bad = 0
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", W + "/repo"])
    subprocess.check_call(["git", "clone", "-q", V, W + "/verif"])
    for x in ("target", "sysroot"):
        if os.path.isdir(os.path.join(V, x)):
            subprocess.check_call(["cp", "-a", os.path.join(V, x), W + "/verif/" + x])
    toml = W + "/verif/sim/Cargo.toml"
    text = open(toml).read()
    assert 'path = "/repo"' in text
    open(toml, "w").write(text.replace('path = "/repo"', 'path = "%s/repo"' % W))
    ids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for name in sys.argv[1:] or [f[:-5] for f in sorted(os.listdir(V + "/refactors"))]:
        subprocess.check_call(["git", "-C", W + "/repo", "checkout", "-q", "--", "."])
        subprocess.check_call(["git", "-C", W + "/repo", "apply", "%s/refactors/%s.diff" % (V, name)])
        for i in ids:
            t = time.time()
            p = subprocess.run(["./check", i, "quick"], cwd=W + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED="1"))
            quiet = p.returncode == 0
            print("%-4s %s rc=%d %3.0fs %s" % (name, i, p.returncode, time.time() - t, "quiet" if quiet else "NOT QUIET"), flush=True)
            if not quiet:
                bad += 1
                print(p.stdout.decode(errors="replace")[-3000:])
finally:
    shutil.rmtree(W, ignore_errors=True)
sys.exit(1 if bad else 0)
