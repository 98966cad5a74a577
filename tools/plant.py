#!/usr/bin/env python3
"""plant.py FILE... : validates planted bugs described in Python files and files them under seeded/.

Each file defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)...],
demo (Rust source of a program that exits 0 when all is well), optionally sh (replaces the usual
demo.sh), features. A bug is kept only if, in a scratch copy, it applies and builds, the
repository's own tests pass with it, and the demonstration passes without and fails with it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
SH = """#!/bin/bash
# Run in the repository's directory. Exit 0: the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
blake2s_simd = { path = "$repo", default-features = false@FEATURES@ }
[profile.release]
debug-assertions = false
overflow-checks = false
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
@RUN@
"""
RUN = 'cd "$d" && timeout 250 cargo run --release --offline --quiet'


def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never", **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode(errors="replace")


def plant(b):
    r = W + "/repo"
    sh("git checkout -q -- . && git clean -qfd -e target", r)
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
        open(p, "w").write(s.replace(old, new))
    _, diff = sh("git diff", r)
    d = W + "/demo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if b.get("demo"):
        open(d + "/demo.rs", "w").write(b["demo"])
    feats = "" if b.get("features") == [] else ', features = ["std"]'
    open(d + "/demo.sh", "w").write(SH.replace("@FEATURES@", feats).replace("@RUN@", b.get("run", RUN)))
    os.chmod(d + "/demo.sh", 0o755)
    for feat in ("--all-features", "--no-default-features"):
        rc, out = sh("cargo test --workspace %s --offline -q" % feat, r, env=dict(CARGO_TARGET_DIR=W + "/target"))
        if rc != 0:
            return "existing tests fail or it does not build:\n" + out[-1500:]
    rc, out = sh("bash %s/demo.sh" % d, r)
    if rc == 0:
        return "the demonstration passes with the bug\n" + out[-500:]
    bad = out
    sh("git checkout -q -- .", r)
    rc, out = sh("bash %s/demo.sh" % d, r)
    if rc != 0:
        return "the demonstration fails without the bug:\n" + out[-1500:]
    t = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    open(t + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(t + "/meta.json", "w"), indent=1)
    return "kept; with the bug the demonstration says: " + bad.strip()[-160:].replace("\n", " | ")


def main():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(["git", "clone", "-q", "/repo", W + "/repo"])
    only = [a[2:] for a in sys.argv[1:] if a.startswith("+:")]
    for f in [a for a in sys.argv[1:] if not a.startswith("+:")]:
        spec = importlib.util.spec_from_file_location("bugs", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            if only and b["id"] not in only:
                continue
            print(b["id"], "-", plant(b), flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
