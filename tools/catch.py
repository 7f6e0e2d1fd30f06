#!/usr/bin/env python3
"""Runs the check of each planted bug's property against it. usage: catch.py [--all-checks] [id ...]"""
import json, os, subprocess, sys, time
S = "/verif/seeded"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
for i in sorted(os.listdir(S)):
    if args and not any(i.startswith(a) for a in args):
        continue
    prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
    props = [prop]
    if "--all-checks" in sys.argv:
        props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip() == ""
    subprocess.check_call(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"])
    try:
        for p in props:
            t = time.time()
            r = subprocess.run(["timeout", "890", "python3", "check.py", p], cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, p, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else f"NO ANSWER rc {r.returncode}", f"{time.time() - t:.0f} s", flush=True)
            if r.returncode not in (0, 1):
                print((r.stdout + r.stderr)[-800:])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
