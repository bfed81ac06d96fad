#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without an entry in CLAIMED are listed as not applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "S01": "seeded chunkings, interruptions and failures of a simulated reader under generated documents",
 "E01": "edit histories over every node kind, interrupted by failing sinks, reloads and snapshots, against a model that knows the exact text",
 "E02": "operation histories over every container, with user iterators, conversions and loop bodies that end early, lie or panic, against a sequential reference",
 "E03": "histories of read-only and mutable traversals whose hooks prune, edit, cancel or panic at a chosen invocation, against an independent walk over the model",
 "V01": "scripted user functions failing or panicking at a chosen invocation over repeated evaluations, against a reference evaluator and its call log",
 "V02": "rounds of in-place evaluation with functions failing at chosen call sites or panicking at a chosen invocation, until faults stop, against a refinement judge over the model",
 "S03": "histories of modify, store, write-back, crash and load steps on a simulated disk with torn, short, failed and lost writes",
 "S04": "seeded damage (truncation, lost/duplicated/moved blocks, flipped bits, torn overwrites, mixed documents) of stored documents between write and read",
 "S02": "seeded short writes, interruptions and failures at every position of a simulated writer",
 "X01": "baton-scheduled real threads switched at callbacks and chosen allocations, jobs nested in callbacks of others, failing and panicking jobs, each compared with the same job alone in a process of its own",
 "X02": "user data types failing, panicking or calling back into the crate at a chosen point of a serialization or deserialization, sequences of operations on one thread against oracles that know the data, and against the same operations alone",
 "C01": "the real converter binary under a simulated operating system: reads and writes of its streams and files split, interrupted and failing at chosen positions, against the document the model expects",
 "C02": "the real converter binary under a simulated operating system: seeded thread schedules switched at futexes, system calls and allocations, thread counts, listing orders and read splits, against a model of the invocation",
 "C03": "the real converter binary under a simulated operating system: listing, metadata, open, read and content faults of chosen files combined with seeded thread schedules, against a model of which files fail",
}
NOTE = "seeded search in a deterministic simulator; real library code, simulated environment; not exhaustive"
PURE = {
 "N01": "a pure function of the input text: nothing for a scheduler or fault injector to decide; grammar conformance needs an independent grammar, not a simulation (the generator of the other checks only samples it)",
 "N02": "a pure function of two numbers without state, time, I/O or concurrency",
 "N03": "a pure function of a document; simulation adds nothing over example-based comparison (its result is compared along the way in S01, C01 and C02)",
 "N04": "a pure predicate on strings",
 "N05": "a pure function of the input text",
 "N06": "decided at compile time of the user's crate; no run-time environment is involved",
 "N07": "a pure function of the template text",
}
checks = [{
    "property": p,
    "quick_cmd": f"./check.sh {p} quick",
    "thorough_cmd": f"./check.sh {p} thorough",
    "technique": "deterministic simulation with fault injection: " + t,
    "level": "exploration",
    "level_note": NOTE,
} for p, t in CLAIMED.items()]
na = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in CLAIMED:
        na.append({"property": p, "reason": PURE.get(p, "the simulation of this property is not built yet")})
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "checks": checks,
 "not_applicable": na,
 "notes": "No hooks in /repo: the code has seams for all nondeterminism the properties depend on (Read/Write, serde, user callbacks, threads created by the harness); the converter binary is driven through interposed system calls (LD_PRELOAD shim in sim/shim). Findings: known-findings.txt.",
}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
