#!/usr/bin/env python3
"""writes MANIFEST.json from the table of properties in sim/table.cpp"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
table = open(V + "/sim/table.cpp").read()
built = set(re.findall(r"[({]\"(C\d\d)\"", open(V + "/sim/table.cpp").read()))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "deterministic simulation with fault injection: "
HOW = {
 "C01": "seeded slices, steps, rounds, halts and nested calls against a reference interpreter and an undisturbed run",
 "C02": "seeded collections at every kind of point against a reference interpreter with ideal memory",
 "C03": "seeded thread switches at external calls over shared data, refinement against a reference interpreter",
 "C04": "seeded rounds, waits, spawns, errors and halts against a reference scheduler; bounded progress once faults stop",
 "C05": "invalid operations and host-raised errors at seeded points against a reference interpreter",
 "C06": "seeded histories of host calls, resets and re-entrant calls on several machines against a reference interpreter",
 "C07": "seeded memory pressure and exhaustion of the script heap with closed-form results",
 "C08": "seeded breakpoint edits and stops against the recorded line trace of the same threads",
 "C09": "save, then load through a simulated disk with seeded short reads and writes; both programs run in lockstep",
 "C10": "seeded disk faults (open, full, torn, transient, flush, close) while saving; bytes on the simulated device are the oracle",
 "C11": "seeded cuts, bit errors, read errors and short reads while loading, with guard pages and a memory budget",
 "C12": "seeded import graphs on a simulated disk with missing, unreadable and failing files and retries, against a reference loader",
 "C13": "the same build repeated under seeded allocator layouts and histories of other builds; outputs must be identical",
 "C14": "seeded torn and corrupted sources under guard pages; every build has to end in a verdict",
 "C15": "seeded failing allocations, one or all from a point on, with leak accounting and retries",
 "C16": "optimised and plain build of one program in lockstep under the same seeded schedule",
 "C17": "the real console runner on simulated standard streams with seeded chunking, end and error positions",
 "C18": "seeded accept and decline patterns of handlers and external functions against a reference interpreter",
 "C22": "the real graphics runner on a simulated clock, display, keyboard and event queue with seeded stalls, refusals and events",
 "C23": "the real command line compiler on a simulated disk with seeded faults",
 "C19": "seeded stops at line boundaries, frames and variables compared with the reference interpreter",
}
NOTE = ("Search over seeded schedules, inputs and faults, not exhaustive: every run is one choice sequence that "
        "replays exactly. The real code runs in one process under a simulated host, allocator and disk. Trusted: the "
        "reference interpreter and the harness in /verif/sim, the C++ compiler, and that the flags of the check's build "
        "(-O1 -fwrapv, asserts on) behave as the shipped build.")
NA = {
 "C20": "pure functions of the expression text and operand values: no schedule, time, I/O, fault or history takes part, so simulated schedules and faults decide nothing that a plain enumeration of inputs would not",
 "C21": "pure functions of the source text (diagnostic position, listing text): nothing for a scheduler or fault injector to control",
}
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are operator new/delete, the C library's stream functions (linker --wrap), the external function and handler tables, and the scheduling entry points of vm_t and thread_t."}
for p in props:
    i = p["id"]
    if i in built:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH + HOW[i],
                            "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "the check is not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
