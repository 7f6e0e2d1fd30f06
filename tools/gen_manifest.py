#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:") or "lcms2_vp" in l]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "lcms2_vp",
        "enable": "RUSTFLAGS='--cfg lcms2_vp=\"probe\"' (or \"search\", \"errors\", \"convert\"), set by check.py for the build variants that need it; without it nothing of the hooks is compiled",
        "source_commits": hooks or sys.argv[1:],
    },
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 check.py " + p,
            "thorough_cmd": "python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["note"],
        }
        for p, c in sorted(CHECKS.items())
    ],
    "not_applicable": [],
    "notes": "One harness crate (harness/) holds all monitors; check.py builds the variants a check needs from /repo's working tree and judges the reports. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
