#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: "
NOTE = (" Seeded search, not a proof: it shows the property on the executions explored (counts in the evidence file). "
        "Trusted: the reference model (sim/src/model.rs), the simulator, rustc.")
checks = {
 "C01": (T + "seeded interleaving of consumers sharing one iterator, against an interval model", "Every call's result and the whole delivery history are compared with the model, for the simulated and 13 built-in element types, in builds with and without overflow checks."),
 "C02": (T + "seeded interleaving of consumers sharing one endless iterator, against an interval model", "As C01 for ranges and sets without an upper bound; goes up to the last value but one of the domain (stepping past the last is left undefined by the crate)."),
 "C03": (T + "checkpoints and crashes between and inside calls, resumed copies compared with the model", "Crashes inside a call are panics of the simulated element type; built-in types crash between calls only."),
 "C04": (T + "element operations that panic at chosen points inside iterator calls", "After each failure copies of the iterator show what was consumed, which is compared with what the property allows."),
 "C05": (T + "element comparisons that panic at chosen points inside set operations", "All 15 range and set types and all pairs of them; every held value is re-checked after each failure."),
 "C06": (T + "seeded preemptive scheduler over threads, tasks and re-entrant callers", "One thread runs at a time; the traced build preempts at any basic block, load or store of the library. Data races proper, which safe Rust excludes, are not observable."),
 "C07": (T + "saving and loading through a simulated disk with faults and crashes", "Real serde, serde_json, ciborium and bincode; seven format variants, all serialisable types."),
 "C08": (T + "damaged stored data loaded and used, against its own membership over the whole domain", "Tree and byte damage in JSON, CBOR and bincode; membership is asked of every element of a small domain."),
 "C09": (T + "stepping types that panic, wrap or saturate at the ends of the domain, two builds", "The C01 workload at the ends of the domain, with checked and unchecked arithmetic."),
 "C10": (T + "budgets of element operations per call, a function of the number of pieces only", "Budgets are several times what the code uses; also a CPU limit per run, which catches loops that touch no element; in the traced build a budget of branches and memory accesses for iterator calls over built-in types; and threads with 128 to 256 KiB of stack working on up to 4000 pieces."),
 "C18": (T + "an accounting allocator under histories with injected element and storage failures", "Peak per call, holding per iterator and balance after everything is dropped; allocations are never refused (the process would abort), only bounded."),
 "C19": (T + "replicas and a transfer over a lossy network with crashes, partitions and virtual time", "Every set computed is compared with the model; convergence and completion are checked within a bounded number of rounds once faults stop. The protocols are the harness's own, written the way the crate's users would; the sets, their merging, differences, overlap tests, iteration and encoding are the crate's."),
 "C20": (T + "a cluster of nodes of two releases under upgrades, rollbacks, crashes and a lossy network", "The other release is a frozen copy of 0.1.4 (sim/released); it only saves, loads, merges and tests membership. Data is never required to be byte-identical, only to load as the same value."),
 "C21": (T + "replicas applying one log on scheduled threads with failures, crashes and recovery, compared with each other", "Replicas are compared with each other at every position (==, Hash, JSON and bincode bytes, answers), not with a model; that the values are right is C05's and C06's business."),
}
na = {
 "C11": "A pure function of its two operands: no schedule, time, I/O or fault is involved. (The simulated set operations of C05, C06 and C08 do compare every result with the model.)",
 "C12": "A pure function of a value and an element; nothing nondeterministic to simulate.",
 "C13": "A pure comparison of two bounds; nothing nondeterministic to simulate.",
 "C14": "Pure conversions; nothing nondeterministic to simulate.",
 "C15": "A pure forwarding to the standard library's indexing; nothing nondeterministic to simulate.",
 "C16": "Pure arithmetic on built-in types; nothing nondeterministic to simulate.",
 "C17": "Decided by the compiler, before anything runs.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "checks": [{
   "property": p, "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
   "technique": t, "level": "exploration", "level_note": n + NOTE} for p, (t, n) in checks.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
 "notes": "No hooks in /repo: the seams are the element type parameter, iterators handed to consumers, the serde interfaces, and compiler-inserted coverage callbacks. Replay a violation with: python3 check.py replay <file>.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
