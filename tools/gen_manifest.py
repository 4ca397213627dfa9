#!/usr/bin/env python3
"""Writes MANIFEST.json from families.py and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import families
ALL = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {
 "build": "Seeded search: random projects, histories, schedules and faults, run through the real program on a simulated kernel; no exhaustiveness. Trusts the simulated kernel (POSIX semantics of the calls used), the stand-in recipes and the reference model of the project (built from the generator, not from the code).",
 "unit": "Seeded search over schedules, spurious wake-ups and faults of the real scheduling, process and queue code driven directly by simulated client threads; histories compared with sequential reference models; no exhaustiveness. Trusts the simulated threads and kernel.",
 "py": "Seeded search: the real recipe scripts on a simulated file system with simulated tools, one or two faults at any operation; compared with the fault-free run and with runs from other starting points. Trusts the simulated tools and the patched Python I/O layer.",
}
NA = {
 "C30": "A pure function from text to a list: no schedule, clock, I/O or fault for a simulator to control (chunking of its input is covered by C15).",
 "C32": "A pure text conversion: no concurrency, time, I/O or fault.",
 "C33": "A pure function of the argument vector: nothing for a simulator to schedule or fail.",
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks were needed in /repo: the simulator replaces the C and C++ runtime beneath the program at link time (and Python's I/O layer beneath the recipes)."}
for p in ALL:
    i = p["id"]
    if i in NA: continue
    s = families.PROPERTIES[i]
    m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and faults", "level": "exploration", "level_note": " ".join(NOTE[f] for f in s["families"])})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
