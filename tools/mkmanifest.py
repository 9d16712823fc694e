#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Seeded search over edit histories with injected conversion failures, against an executable model; a quiet batch is evidence, not proof. Trusts the model, the scheduler and std.",
 "C02": "Seeded search over failing and aborted calls, alone and behind a shared lock under a simulated scheduler; document compared with the model before and after every call.",
 "C03": "Seeded search over allocation failures (the k-th allocation of a call, memory caps, absurd sizes) with the document compared along the addressed path. Built without overflow checks, as a release build is.",
 "C04": "Seeded search over hash seeds, construction routes, insertion orders and detours; bytes compared across simulated processes.",
 "C05": "Seeded search over hash seeds, texts and 34 target types; results and errors compared across simulated processes.",
 "C06": "Seeded search over documents, edit histories and crash points of a simulated file store; the reloaded document is compared with the model.",
 "C07": "Seeded search over storage damage (torn, stale, zeroed, lost, repeated, swapped, misdirected blocks, bit flips) applied to saved texts.",
 "C08": "Seeded search over interleavings at single-branch granularity of real threads under a baton scheduler; results compared with the same calls alone in a forked process. Sequential consistency only: one task runs at a time.",
 "C09": "Seeded search over histories of failing calls followed by probe calls, compared with the same probes in a fresh forked process.",
 "C10": "Seeded search over sessions with failures, repeated; live bytes and decoded user values are counted. One-time caches are tolerated; growth at every repetition is not.",
 "C11": "Seeded search over documents, target types and failing callbacks; results compared with a model decoder.",
 "C19": "Seeded search over histories of copying, editing, failing and comparing, in one task or several; every copy is compared with its own model after each step, == with the models' equality.",
 "C20": "Seeded search over calls made from within conversions at chosen callbacks, with faults in both, alone and under a simulated scheduler; outcomes compared with the same calls alone in a forked process; deadlock is detected.",
 "C21": "Seeded search over values of 43 types, routes, hash seeds, chains of crash and restart on a simulated disk, failures of the first attempt, and schedules; values compared field by field without the crate's help.",
 "C22": "Seeded search over histories of calls (up to thousands, renamed each round, with failures) and of edits made and undone; executed branches and bytes of probe calls are compared with fresh forked processes, those of a document with itself early on. A growth smaller than half the fresh cost within the explored history is not seen.",
 "C12": "Seeded search over edit logs, network faults and restarts of several simulated replicas running the real crate; bytes compared at quiescence, convergence within a step bound.",
}
BUILT = os.environ.get("BUILT", "").split() or sorted(NOTE)
NA = {
 "C13": "Acceptance of a text is a pure function of the text: no schedule, clock, fault or history enters, so simulation would only dress up input generation. (The part that storage faults reach is C07, the part that saved documents need is C06.)",
 "C14": "Numeric conversion is a pure function of one number and a type; there is nothing for a simulator to control. (That values a double holds exactly survive being saved is part of C21.)",
 "C15": "Path parsing is a pure function of the path text; there is nothing for a simulator to control.",
 "C16": "Quantifies over struct definitions at compile time; no execution, schedule or fault is involved. (Derived types with fixed definitions take part in C04, C05, C11, C12 and C21.)",
 "C17": "Quantifies over token sequences at compile time; no execution, schedule or fault is involved.",
 "C18": "A cost bound as a function of the input alone; it depends on no history, schedule or fault. (That cost does not grow with history is C22.)",
}
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "checks": [],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "All checks are one simulator (sim/), built against /repo's working tree. './check replay <file>' repeats a reported execution exactly; './check determinism <id> <runs>' repeats runs and compares their event logs. Genuine defects: known-findings.txt.",
}
for p in sorted(NOTE):
    if p in BUILT:
        m["checks"].append({
            "property": p,
            "quick_cmd": "./check %s quick" % p,
            "thorough_cmd": "./check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": NOTE[p],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": "The check is not built yet."})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
