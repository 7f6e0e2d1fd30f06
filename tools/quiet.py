#!/usr/bin/env python3
"""quiet.py [--only C05,C06] DIFF... : applies the diffs (all of them together) to /repo, runs the checks, restores /repo.
Says which checks did not end with 0."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
only = None
if args[:1] == ["--only"]:
    only = args[1].split(",")
    args = args[2:]
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
try:
    for d in args:
        subprocess.run(["git", "-C", "/repo", "apply", os.path.abspath(d)], check=True)
    for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
        p = c["property"] if "property" in c else c["id"]
        if only and p not in only:
            continue
        t = time.time()
        r = subprocess.run(["python3", "check.py", p], cwd=HERE, capture_output=True, text=True)
        print(p, r.returncode, "%.0f s" % (time.time() - t), "" if r.returncode == 0 else r.stdout + r.stderr[-3000:], flush=True)
        if "without accessors" in r.stderr:
            print("   (fallback)")
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
