#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYS = "sampled histories and schedules within the bounds of DESIGN.md; the network, clock and scheduling are simulated, OpenSSL is real"
MOD = "random operation histories of bounded length against a reference model"
TECH = {
 "C01": ("property-based testing of relayed streams on a simulated kernel", SYS),
 "C02": ("property-based testing of connection histories against a containment reference", SYS),
 "C03": ("property-based testing of SOCKS conversations with drawn connect outcomes", SYS),
 "C04": ("grammar-based fuzzing of DNS replies against an independent reader", SYS),
 "C05": ("model-based testing of a cache under a virtual clock", SYS),
 "C06": ("coverage-guided fuzzing of all input surfaces with sanitizers", SYS),
 "C07": ("property-based testing with fault injection, usage compared with idle", SYS),
 "C08": ("property-based testing of paced and stalling sessions under a virtual clock", SYS),
 "C09": ("property-based testing of judged connections among misbehaving ones", SYS),
 "C10": ("grammar-based testing of single requests under drawn segmentation", SYS),
 "C11": ("grammar-based fuzzing of request targets with opened paths observed", SYS),
 "C12": ("model-based testing of pipelined request sequences", SYS),
 "C13": ("property-based testing of transfers under drawn flow control", SYS),
 "C14": ("property-based and differential testing of the shared port", SYS),
 "C15": ("property-based testing with a record-level observer of the wire", SYS),
 "C16": ("model-based testing of allocation histories", MOD),
 "C17": ("model-based testing of timer histories under a virtual clock", MOD),
 "C18": ("model-based testing with allocation failures", MOD),
 "C19": ("property-based testing against a naive search", "random key sets and texts of bounded size"),
 "C20": ("model-based testing of queue histories", MOD),
 "C21": ("model-based testing of tree histories with invariant checks", MOD),
 "C22": ("model-based testing of container histories", MOD),
 "C23": ("round-trip and differential testing, random tampering", "random messages of bounded length"),
 "C24": ("coverage-guided round-trip testing of generated and mutated documents", "documents of bounded depth and size"),
 "C25": ("grammar-based testing of configuration files, parsed and booted", "random files within the stated bounds"),
 "C26": ("property-based testing of log records around the limit", "random calls of bounded length"),
 "C27": ("schedule exploration of real processes with drawn deaths and signals", "random interleavings at system-call granularity, at most 4 workers and 8 events"),
 "C28": ("model-based testing of editing histories with allocation failures", MOD),
 "C30": ("schedule exploration of threads at memory-access granularity", "random schedules of 2..4 threads over short histories; one thread runs at a time (sequentially consistent)"),
 "C31": ("property-based testing of command lines, id files and failing starts with recorded process calls", "random inputs within the stated bounds, process calls replaced"),
 "C32": ("schedule exploration of stalled sessions with counted wake-ups", SYS),
 "C29": ("property-based testing of sessions and lookups under clock changes", SYS),
}
HOLD = set()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in HOLD and os.path.exists(os.path.join(V, "harness", "p_%s.cpp" % i)):
        t, n = TECH.get(i, ("property-based testing", "sampled inputs within the stated bounds"))
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check --build-all",
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds /repo's sources (content-addressed object cache in .build) and links them with a simulated kernel; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "without")
