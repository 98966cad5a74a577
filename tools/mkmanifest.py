#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the notes below."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import plans

COMMON = "Sampled, not exhaustive: a clean batch is evidence, not proof. Trusts the Rust toolchain and the simulator."
NOTES = {
    "C01": "Seeded search over delivery schedules and digest instants of interleaved BLAKE2s sessions against an independent executable model, on std, checked and no_std builds.",
    "C02": "Seeded search over delivery schedules and digest instants of interleaved BLAKE2sp sessions against an independent executable model, on std, checked and no_std builds.",
    "C03": "Seeded search over histories with twins: one observed at scheduler-chosen instants, one not; both must end alike.",
    "C04": "The count is compared with the bytes fed after every step of random histories; interrupted transfers resumed at count() must give the whole file's digest.",
    "C05": "Simulated pipes, copies, buffering adapters and tees over faulty sources and disks; a twin is fed exactly the acknowledged bytes (std and checked builds; the writer interface needs std).",
    "C06": "Random forks, crashes and restores of hashers and parameter sets; every object is compared with a twin rebuilt from its own recorded history.",
    "C07": "Pools of hashers driven by mixed batched and single calls with crashes and refusals in between, against twins driven singly.",
    "C08": "Random batches with repeated, shared and overlapping inputs, jobs retried in other batches and lanes, against the same job hashed alone.",
    "C11": "Histories salted with refused calls; the refusal must come in every build, and a twin that never made the refused calls must stay equal.",
    "C12": "Every input, hasher and parameter set is placed at scheduler-chosen offsets against unmapped or read-only pages; any fault in a call ends the run and is minimised.",
    "C13": "Every accepted operation runs under an allocator that refuses (or counts) every request, and must agree with its twin.",
    "C14": "Pairs of histories that differ only in secrets must print alike; sinks fail at every kind of point and must have received only a prefix.",
    "C09": "The same seeded histories run on a family of hosts (native std/checked/no_std, CPU families simulated with Miri's target features and targets, forced switches part-way); event logs must agree, and Miri reports undefined operations and unreported instructions.",
    "C10": "Token scheduler over real threads, preempting at seeded instructions inside calls by single-stepping; every thread's results must equal the same program run alone. Miri's seeded scheduler searches for data races.",
    "C15": "Hashers are advanced to and past 2^31 and 2^32 bytes by feeding real bytes; histories straddling the boundaries are seeded and compared with the model, resumed from chaining values the model computed once.",
    "C17": "Discrete-event cluster with loss, duplication, reordering, crashes, late last-node knowledge; the assembled root must equal the whole-input digest, and be produced within a bounded number of steps after faults stop.",
    "C19": "Digests made by every route in seeded histories are kept, copied, printed into failing sinks, corrupted where they are kept and on the way to a verifier; what they show and equal is checked at each step and again at the end.",
    "C18": "A simulated attacker's wrong tags are compared with a secret digest under a simulated clock that counts the instructions (single-step flag) or basic blocks (Miri) of the one comparison; all wrong tags of one length must take the same time.",
    "C16": "Random histories of setters, refused values, clones and hashers made in between, against a model of last accepted values.",
}
REASONS = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append(dict(
            property=i,
            quick_cmd="./check %s quick" % i,
            thorough_cmd="./check %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: " + plans.PLANS[i].get("technique", "seeded search over histories"),
            level="exploration",
            level_note=NOTES[i] + " " + COMMON,
        ))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, "no check yet")))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam is part of the public API. See DESIGN.md; repaired defects are in known_findings.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
