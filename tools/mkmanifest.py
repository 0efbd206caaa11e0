#!/opt/venv/bin/python
"""Writes MANIFEST.json: one check per property that has a module under dst/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C17": "pure functions of one argument with no time, I/O, concurrency or history: nothing for a simulator to schedule or break (the seeded stochastic part, repair drawing from the variable's own generator, is decided under C01/C06)",
      "C18": "a pure enumeration of a cartesian product; no nondeterminism for a simulated environment to decide (its use by the tuner is decided under C12)",
      "C19": "a statistical statement about search quality, not about behaviour under schedules or faults; no simulated execution refutes it"}
FE = {"C09": "fault_enumeration", "C14": "fault_enumeration"}
NOTE = json.load(open(os.path.join(here, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l); pid = d["id"]
    if os.path.exists(os.path.join(here, "dst", "checks", pid.lower() + ".py")):
        cmd = f"/opt/venv/bin/python -B check.py {pid}"
        checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough",
                       "technique": "deterministic simulation with fault injection (seeded search over schedules, environments and faults)",
                       "level": FE.get(pid, "exploration"), "level_note": NOTE.get(pid, "seeded exploration, not a proof")})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/setup_check.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks], [n["property"] for n in na])
