#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "seeded deterministic simulation with fault injection"
SIM = ("Seeded search, not exhaustive: the property held on every simulated run explored. Trusts the in-memory "
       "transport, clock and server models in /verif/sim and the oracle for this property.")
MIRI = ("Seeded search over thread schedules, weak-memory choices and spurious wake-ups inside the Miri interpreter "
        "(one seed = one repeatable execution); not exhaustive. Trusts Miri's scheduler and memory model.")
sim = {f"C{i:02}" for i in range(1, 23)} - {"C09", "C10", "C11"}
miri = {"C09", "C10", "C11"}
ready = set(open(os.path.join(here, "tools/ready")).read().split())
NA = {
 "C90": "Pure predicate over one byte string: no scheduling, time, I/O or multi-party behaviour for a simulated fault or schedule to vary, so deterministic simulation adds nothing over ordinary testing.",
}
checks = []
na = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in ready:
        m = i in miri
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": DST + (" (threads under Miri's seeded scheduler)" if m else ""),
            "level": "exploration",
            "level_note": MIRI if m else SIM,
        })
    else:
        na.append({"property": i, "reason": "Check under construction; not claimed yet."})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
