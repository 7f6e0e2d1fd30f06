#!/usr/bin/env python3
"""Builds and validates planted bugs.

usage: seed.py SPECFILE [id ...]
A spec file is Python that defines SEEDS: a list of dicts with id, property, edits [(path, old, new)],
demo (Rust source of a main function file, or {"sh": text}), needs, breaks and optionally cargo_features.
For each: the change is made in a scratch copy of /repo, built, tested (stable tests), the demo is run on
the clean and the changed copy, and if all is as it should be the result is written to /verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, runpy
SCR = "/tmp/seedwork"
REPO = SCR + "/repo"
OUT = "/verif/seeded"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("CARGO_TARGET_DIR", None); ENV.pop("RUSTFLAGS", None)

DEMO_SH = """#!/bin/bash
# Run in the repository after the build: exit 0 if the property's demonstration holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'find "$work" -delete' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTFLAGS="%CFG%"
mkdir "$work/src" "$work/scratch"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lcms2 = { path = "$repo"%FEAT% }
chrono = "0.4"
T
cd "$work/scratch"
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q --manifest-path "$work/Cargo.toml" > "$work/build.log" 2>&1 || { cat "$work/build.log"; exit 98; }
timeout 100 "$work/target/debug/demo"
rc=$?
echo "demo exit code $rc"
exit $rc
"""

def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout

def fresh():
    if os.path.exists(SCR):
        shutil.rmtree(SCR)
    os.makedirs(SCR)
    subprocess.check_call(["cp", "-a", "/repo", REPO])

def tests():
    log = SCR + "/log"
    rc, a = run("cargo test --workspace --locked --offline --no-fail-fast --lib --bins -- --test-threads 8", REPO)
    e = "CARGO_PROFILE_TEST_DEBUG_ASSERTIONS=false CARGO_PROFILE_TEST_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true "
    rc, b = run(e + "cargo test --workspace --locked --offline --test '*' --no-fail-fast -- --test-threads 8", REPO)
    rc, c = run("cargo test --workspace --locked --offline --no-fail-fast --doc -- --test-threads 8", REPO)
    for n, t in (("unit", a), ("integration", b), ("doc", c)):
        open(f"{log}.{n}.log", "w").write(t)
    out = SCR + "/res.json"
    rc, t = run(["python3", "/opt/vp/results.py", out, f"cargo:{log}.*.log"], REPO)
    try:
        return json.load(open(out)), a
    except Exception:
        return None, a + t

def passed(res):
    return set(res.get("passed", res if isinstance(res, list) else []))

def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    fresh()
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"])
    clean = passed(tests()[0])
    print("stable", len(stable), "clean pass", len(clean))
    for s in spec:
        if want and s["id"] not in want:
            continue
        run("git checkout -- .", REPO)
        bad = None
        for path, old, new in s["edits"]:
            t = open(f"{REPO}/{path}").read()
            if t.count(old) != 1:
                bad = f"{path}: {t.count(old)} matches of {old!r}"
                break
            open(f"{REPO}/{path}", "w").write(t.replace(old, new))
        if bad:
            print(s["id"], "BAD EDIT", bad)
            continue
        rc, diff = run("git diff", REPO)
        # do changed lines belong to the base commit?
        mine = []
        rc, names = run("git diff -U0", REPO)
        f = None
        for l in names.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if n:
                    rc, bl = run(["git", "blame", "-s", "-L", f"{st},+{n}", "HEAD", "--", f], REPO)
                    mine += [b for b in bl.splitlines() if not b.startswith("^")]
        rc, o = run("cargo test --workspace --locked --offline --lib --bins --no-run", REPO)
        if rc:
            print(s["id"], "DOES NOT BUILD\n", o[-1500:])
            continue
        res, o = tests()
        lost = (stable or clean) - passed(res) if res else {"?"}
        if lost:
            print(s["id"], "TESTS FAIL", sorted(lost)[:5])
            continue
        d = f"{SCR}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        feat = s.get("features")
        if isinstance(s["demo"], str):
            open(d + "/main.rs", "w").write(s["demo"].lstrip())
            open(d + "/demo.sh", "w").write(DEMO_SH.replace("%FEAT%", f', features = ["{feat}"]' if feat else "").replace("%CFG%", "--cfg lcms2_vp=\\\"" + s["cfg"] + "\\\"" if s.get("cfg") else ""))
        else:
            open(d + "/demo.sh", "w").write(s["demo"]["sh"])
            for name, text in s["demo"].get("files", {}).items():
                open(d + "/" + name, "w").write(text)
        os.chmod(d + "/demo.sh", 0o755)
        rc1, o1 = run(["bash", d + "/demo.sh"], REPO)
        run("git checkout -- .", REPO)
        rc0, o0 = run(["bash", d + "/demo.sh"], REPO)
        if rc0 != 0 or rc1 in (0, 98, 99):
            print(s["id"], f"DEMO clean {rc0} changed {rc1}\n--- clean\n{o0[-1200:]}\n--- changed\n{o1[-1200:]}")
            continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dst = f"{OUT}/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(OUT, exist_ok=True)
        shutil.copytree(d, dst)
        print(s["id"], s["property"], "OK", ("TOUCHES MY LINES: " + "; ".join(mine)) if mine else "", "| demo:", o1.strip().splitlines()[-2:][0][:160] if o1.strip() else "")
    shutil.rmtree(SCR)

main()
