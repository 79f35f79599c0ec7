"""Writes /verif/MANIFEST.json from the registry of simulated properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim.props import REGISTRY, meta  # noqa: E402
from tools.gen_properties import NOT_APPLICABLE, P  # noqa: E402

PY = "/opt/venv/bin/python -B sim/check.py"
TECH = {
    "proc": "deterministic simulation with fault injection: seeded search over schedules and faults of real processes under a "
            "libc-level simulator",
    "thread": "deterministic simulation with fault injection: seeded search over line-level thread schedules and aborts in one "
              "process",
}
NOTE = {
    "proc": "Seeded random search, not exhaustive: no violation in the runs counted in the evidence file. Real code under test, "
            "libraries and kernel file system; simulated peers, clock, entropy, scheduler and faults. Interleaving and crash "
            "granularity is one libc call; power loss is not modelled.",
    "thread": "Seeded random search, not exhaustive: no violation in the runs counted in the evidence file. Real code under test "
              "in real Python threads of which exactly one runs; switches only at line events of repository code and at locks, "
              "so races inside a library call are out of reach.",
}
checks = []
for p in P:
    if p["id"] in REGISTRY:
        m = meta(p["id"])
        c = {"property": p["id"],
             "quick_cmd": f"{PY} --property {p['id']} --tier quick",
             "thorough_cmd": f"{PY} --property {p['id']} --tier thorough",
             "technique": m.get("technique") or TECH[m.get("world", "proc")],
             "level": m["level"],
             "level_note": m.get("level_note", NOTE[m.get("world", "proc")])}
        checks.append(c)
na = []
for p in P:
    if p["id"] not in REGISTRY:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")})
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam (libc, sockets, clock, subprocess, thread scheduling) is interposed from outside. "
             "See DESIGN.md; findings in KNOWN_FINDINGS.json.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
