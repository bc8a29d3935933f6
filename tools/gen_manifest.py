#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {
    "P19": "Serialising an introspection document is a pure, single-threaded function of the objects added to it: no schedule, clock, I/O, message or fault can influence it, so there is nothing for a simulator to decide; input testing (another technique) is what it needs.",
    "P20": "Address look-up and hex conversion are pure functions of the environment or of a byte string, without concurrency, time or I/O; fault injection and schedules have nothing to act on. (The hex encoder is exercised as part of P03: the uid in the AUTH line.)",
}
NOTE = {
    "P16": "Deterministic happens-before (vector clock) race detection over every access of the library in simulated schedules: a reported pair is a real unsynchronised conflict; absence is claimed only for the explored runs.",
    "P10": "Every byte is hostile or mutated by the seed; AddressSanitizer watches memory, a hook counter bounds computation and live bytes, a reference framer decides what may be dispatched.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py check {i}",
        "thorough_cmd": f"python3 check.py check {i} --thorough",
        "technique": "deterministic simulation with fault injection (seeded schedules, network and system-call faults; reference-model oracle)",
        "level": "exploration",
        "level_note": NOTE.get(i, "Seeded search over schedules and faults of the real library code against an independent reference model of the wire protocol and the bus; a violation comes with a minimised, exactly replayable trace; silence is evidence for the explored runs only.")
        + " Trusts the simulated threads, clock and AF_UNIX sockets to behave like Linux; memory is sequentially consistent.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the seam is the libc/pthread/syscall interface, replaced inside the simulator binary. All /repo commits are 'fix:' commits (known-findings.txt)."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
