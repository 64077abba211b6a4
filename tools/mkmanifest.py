"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import CHECKS, NOTES, NOT_APPLICABLE

m = {"version": 1,
     "setup_cmd": "python3 lib/selfcheck.py",
     "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
     "notes": "TLA+ specification in spec/, judged by TLC. check.py ID builds /repo's working "
              "tree in a scratch directory, runs scripts through harness/driver.cpp and has TLC "
              "decide whether every recorded trace is a behaviour of the specification."}
for pid, c in CHECKS.items():
    m["checks"].append({
        "property": pid,
        "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": NOTES[pid][0] if pid in NOTES else "TLA+ trace validation (TLC)",
        "level": c["level"],
        "level_note": NOTES[pid][1] if pid in NOTES else
            "Every recorded call of the explored scripts is a behaviour of the TLA+ "
            "specification. Inputs are generated (seeded), not exhausted; trusts the driver's "
            "recording, TLC and the specification."})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
