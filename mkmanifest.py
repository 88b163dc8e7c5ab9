#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE, LEVEL_NOTE
V = os.path.dirname(os.path.abspath(__file__))
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": d.get("technique", "deterministic simulation with fault injection"),
                 "level": "exploration", "level_note": d.get("note", "") + LEVEL_NOTE} for p, d in PROPS.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
     "notes": "No hooks in /repo: every seam is the public API, the platform (pthread, malloc, libnuma, ioctl, OpenCL, files) or compiler instrumentation. Defects found: known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
