#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; run by hand after changing either."""
import json
NA = {
 "C40": "pure functions of strings and integers: no schedule, clock, I/O, randomness or fault for a simulator to decide",
 "C41": "pure predicates on strings: nothing a simulator could schedule or make fail",
 "C42": "a joiner is a single-owner in-memory value: no concurrency, time or I/O in its contract",
 "C43": "pure arithmetic on two integers",
 "C44": "pure conversion of one value",
}
NOTE = ("Seeded search over schedules, inputs and injected faults of the real code inside a deterministic simulator "
        "(scheduler, channels, locks, atomics, clock, timers and randomness simulated; a second build with the race detector "
        "seeing only the program's own synchronisation). Every run is judged against a small reference model; a violation is "
        "replayed in a fresh process and minimised before it is reported. Trusted: the simulator's implementation of the Go "
        "primitives and the model. Not exhaustive: what was not drawn is not covered. ")
SPECIFIC = json.load(open("/verif/levelnotes.json"))
checks, na = [], []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                   "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
                   "level": "exploration", "level_note": NOTE + SPECIFIC.get(p, "")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks compile a rewritten copy of its working tree. See DESIGN.md."},
          open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
