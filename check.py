#!/usr/bin/env python3
"""Runs the monitors of one property (or prebuilds everything with --setup).

check.py C05            run the check of C05 at the tier and seed of VERIF_TIER / VERIF_SEED
check.py --setup        build all variants
check.py C05 --keep     keep the scratch directory (and say where it is)

Exit status: 0 the property held on everything observed, 1 with a VIOLATION line, 2 the check could not answer.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
TIER = os.environ.get("VERIF_TIER") or "quick"
SEED = int(os.environ.get("VERIF_SEED") or "1")
HOST = "x86_64-unknown-linux-gnu"

# ------------------------------------------------------------------ variants
def cfg(area):
    return '--cfg lcms2_vp="%s"' % area

# name -> (toolchain, RUSTFLAGS, features, extra cargo arguments)
VARIANTS = {
    "plain": ("stable", "", "", []),
    "probe": ("stable", cfg("probe"), "", []),
    "search": ("stable", cfg("search"), "", []),
    "errors": ("stable", cfg("errors"), "", []),
    "errglob": ("stable", cfg("errors") + " " + cfg("global"), "", []),
    "convert": ("stable", cfg("convert"), "", []),
    "le": ("stable", "", "le", []),
    "leconvert": ("stable", cfg("convert"), "le", []),
    "sys": ("stable", "", "sys", []),
    "consts": ("stable", "", "consts", []),
    "asan": ("nightly", "-Zsanitizer=address", "", ["--target", HOST]),
    "asanconv": ("nightly", "-Zsanitizer=address " + cfg("convert"), "", ["--target", HOST]),
    "tsan": ("nightly", "-Zsanitizer=thread", "", ["-Zbuild-std", "--target", HOST]),
    "msan": ("nightly", "-Zsanitizer=memory -Zsanitizer-memory-track-origins", "", ["-Zbuild-std", "--target", HOST]),
    "msanconv": ("nightly", "-Zsanitizer=memory -Zsanitizer-memory-track-origins " + cfg("convert"), "", ["-Zbuild-std", "--target", HOST]),
    "miri": ("nightly", "", "", []),
    "miriconv": ("nightly", cfg("convert"), "", []),
}
SAN = {"asan", "asanconv", "tsan", "msan", "msanconv"}

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402  (property -> runs, level, rule, assumptions)


class Trouble(Exception):
    pass


class NoBuild(Trouble):
    """The harness and the library do not build together in this variant."""


# When the guarded accessors do not build (a change of private names, say) but the library does: the variant without them, and
# the workload whose public observations come closest. What could not be observed is recorded in the evidence.
PLAIN = {"probe": "plain", "search": "plain", "errors": "plain", "convert": "plain", "leconvert": "le", "asanconv": "asan", "msanconv": "msan", "miriconv": "miri"}
NEAREST = {"C05": "C06", "C10": "C24", "C28": "C02"}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def tree_key():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "build.rs")]
    files += [os.path.join(HARNESS, f) for f in ("Cargo.toml", "Cargo.lock", "real_head.bin")]
    for f in sorted(files):
        h.update(f.encode())
        h.update(b"\0")
        if os.path.exists(f):
            with open(f, "rb") as fh:
                h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def profile_args(p):
    return ["--release"] if p == "release" else ["--profile", p]


def binary(variant, profile):
    tc, _, _, extra = VARIANTS[variant]
    sub = [HOST] if "--target" in extra else []
    return os.path.join(BUILD, variant, *sub, profile, "vph")


def env_for(variant):
    tc, flags, feats, extra = VARIANTS[variant]
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    env["RUSTUP_TOOLCHAIN"] = tc
    # (cargo-miri cannot learn about the target when warnings are silenced altogether)
    env["RUSTFLAGS"] = ("--cap-lints=%s %s" % ("warn" if variant.startswith("miri") else "allow", flags)).strip()
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    if variant.startswith("miri"):
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    return env


def build(variant, profile, key):
    """Builds one variant from the working tree; raises Trouble when it does not compile."""
    tc, flags, feats, extra = VARIANTS[variant]
    target = os.path.join(BUILD, variant)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mark = os.path.join(target, ".key-" + profile)
        if os.path.exists(mark) and open(mark).read() == key and (variant.startswith("miri") or os.path.exists(binary(variant, profile))):
            return
        # modification times do not decide: the two crates are always rebuilt for another content
        for pat in (".fingerprint/lcms2-*", ".fingerprint/vph-*"):
            for d in glob.glob(os.path.join(target, "**", pat), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(mark):
            os.unlink(mark)
        if variant.startswith("miri"):
            # a run for a property that does not exist: builds the program and says so with status 3
            cmd = ["cargo", "miri", "run", "-q", "--offline", "--target-dir", target] + (["--features", feats] if feats else []) + ["--", "none"]
        else:
            cmd = ["cargo", "build", "--offline", "--target-dir", target] + profile_args(profile) + extra
            if feats:
                cmd += ["--features", feats]
        t = time.time()
        r = subprocess.run(cmd, cwd=HARNESS, env=env_for(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=850)
        if r.returncode != (3 if variant.startswith("miri") else 0):
            out = r.stdout.decode(errors="replace")
            raise NoBuild("building %s/%s failed:\n%s" % (variant, profile, out[-4000:]))
        with open(mark, "w") as f:
            f.write(key)
        log("built %s/%s in %.1f s" % (variant, profile, time.time() - t))


def build_all(pairs, jobs):
    key = tree_key()
    by_variant = {}
    for v, p in pairs:
        by_variant.setdefault(v, [])
        if p not in by_variant[v]:
            by_variant[v].append(p)

    def one(v):
        for p in by_variant[v]:
            build(v, p, key)

    failed = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for v, f in [(v, ex.submit(one, v)) for v in by_variant]:
            try:
                f.result()
            except NoBuild as e:
                failed[v] = e
    return failed


# ------------------------------------------------------------------ literals of the library
def write_dict(path):
    """The numbers and texts that occur as literals in the library: inputs are drawn from them, so that a comparison with
    any constant of the code is reached, whatever it is."""
    ints, floats, texts = set(), set(), set()
    num = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO][0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][-+]?\d+)?)(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?")
    strs = re.compile(r"\"((?:[^\"\\]|\\.)*)\"|'((?:[^'\\]|\\.))'")
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            t = re.sub(r"//[^\n]*", "", t)
            for m in strs.finditer(t):
                s = m.group(1) or m.group(2) or ""
                try:
                    b = s.encode().decode("unicode_escape").encode("latin1")
                except (UnicodeError, ValueError):
                    b = s.encode()
                if 0 < len(b) <= 64:
                    texts.add(b.hex())
            for m in num.finditer(t):
                x = m.group(1).replace("_", "")
                try:
                    if x[:2].lower() == "0x":
                        ints.add(int(x, 16))
                    elif x[:2].lower() == "0b":
                        ints.add(int(x, 2))
                    elif x[:2].lower() == "0o":
                        ints.add(int(x, 8))
                    elif "." in x or "e" in x.lower():
                        floats.add(float(x))
                    else:
                        ints.add(int(x))
                except ValueError:
                    pass
    with open(path, "w") as f:
        for i in sorted(ints):
            if i < 1 << 64:
                f.write("i %d\n" % i)
        for x in sorted(floats | {float(i) for i in ints if i < 1 << 53}):
            f.write("f %r\n" % x)
        for s in sorted(texts):
            f.write("s %s\n" % s)
    return len(ints), len(floats), len(texts)


# ------------------------------------------------------------------ running
def inflight(scratch):
    """What the workers were doing when the process died."""
    res = []
    try:
        b = open(os.path.join(scratch, "inflight"), "rb").read()
    except OSError:
        return res
    for w in range(len(b) // 8192):
        s = b[w * 8192:(w + 1) * 8192]
        seq = int.from_bytes(s[0:8], "little")
        tid = int.from_bytes(s[8:16], "little")
        n = min(int.from_bytes(s[16:24], "little"), 8192 - 64)
        if tid and seq & 1:
            label = s[24:64].split(b"\0")[0].decode(errors="replace")
            res.append("worker %d in: %s; data: %s" % (w, label, s[64:64 + n].hex()))
    return res


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:color=never",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:color=never:report_signal_unsafe=0:second_deadlock_stack=1",
    "MSAN_OPTIONS": "exitcode=77:color=never",
}


def run_one(prop, run, scratch, dictf, seed):
    """Returns (report or None, crash text or None)."""
    scratch = tempfile.mkdtemp(prefix="run-", dir=scratch)
    os.chmod(scratch, 0o755)
    out = os.path.join(scratch, "report.json")
    work = os.path.join(scratch, "w")
    os.makedirs(work)
    env = env_for(run.variant)
    env.update(SAN_ENV)
    env.update(run.env)
    env["TMPDIR"] = work
    if not run.variant.startswith("miri"):
        for k in ("HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"):
            env[k] = work
    args = [run.props or prop, "--tier", run.tier or TIER, "--seed", str(seed), "--scratch", scratch, "--out", out, "--dict", dictf]
    if TIER == "thorough" and "--budget" not in run.args:
        args += ["--budget", "900"]
    args += run.args
    boost = CHECKS[prop].get("boost", 1)
    if TIER == "quick" and boost != 1 and run.tier is None and not run.sanitizer_only:
        # the last --scale counts
        scale = int(args[args.index("--scale") + 1]) if "--scale" in args else 100
        args += ["--scale", str(scale * boost)]
    if run.threads:
        args += ["--threads", str(run.threads)]
    if run.variant.startswith("miri"):
        tc, flags, feats, extra = VARIANTS[run.variant]
        cmd = ["cargo", "miri", "run", "-q", "--offline", "--target-dir", os.path.join(BUILD, run.variant)]
        if feats:
            cmd += ["--features", feats]
        cmd += ["--"] + args
        cwd = HARNESS
    else:
        cmd = [binary(run.variant, run.profile)] + args
        cwd = work
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        timeout = run.timeout or (400 if TIER == "quick" else 3000)
        txt, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise Trouble("%s: no answer after %d s" % (run.name(), timeout))
    txt = txt.decode(errors="replace")
    wall = time.time() - t
    report = None
    if os.path.exists(out):
        try:
            report = json.load(open(out))
        except ValueError as e:
            raise Trouble("%s: unreadable report: %s" % (run.name(), e))
        report["run"] = run.name()
        report["process_s"] = round(wall, 2)
    rc = p.returncode
    if rc in (0, 1) and report is not None:
        return report, None, txt
    if rc == 77 and run.variant in SAN:
        return report, ("sanitizer", txt), txt
    if run.variant.startswith("miri"):
        if re.search(r"error: Undefined Behavior|error: deadlock|memory leaked", txt):
            return report, ("miri", txt), txt
        raise Trouble("%s: ended with %s\n%s" % (run.name(), rc, txt[-3000:]))
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        return report, ("signal %s" % signal.Signals(-rc).name, txt + "\n" + "\n".join(inflight(scratch))), txt
    raise Trouble("%s: ended with %s\n%s" % (run.name(), rc, txt[-3000:]))


# ------------------------------------------------------------------ known findings
def known_findings():
    res = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l)
            if m:
                res.append(m.groups())
    except OSError:
        pass
    return res


def main():
    if sys.argv[1:2] == ["--setup"]:
        pairs = []
        for c in CHECKS.values():
            pairs += [(r.variant, r.profile) for r in c["runs"]]
        for e in build_all(list(dict.fromkeys(pairs)), 6).values():
            log(e)
        return 0
    prop = sys.argv[1]
    keep = "--keep" in sys.argv
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    t0 = time.time()
    check = CHECKS[prop]
    runs = [r for r in check["runs"] if TIER in r.tiers and (not only or r.name() in only)]
    failed = build_all([(r.variant, r.profile) for r in runs], 4)
    unseen = []
    for r in [r for r in runs if r.variant in failed]:
        if r.variant not in PLAIN:
            raise failed[r.variant]
        log("without accessors, because they do not build:", failed[r.variant])
        unseen.append(r.name())
        if r.variant == "errglob":
            r.variant = "errors"
            if not build_all([("errors", r.profile)], 4):
                continue
        r.props = r.props or prop
        r.props = NEAREST.get(r.props, r.props)
        r.variant = PLAIN[r.variant]
        if r.sanitizer_only and r.props == "C02":
            r.props = "C04"
    # files hold big-endian numbers: without accessors the little-endian build has nothing to show
    runs = [r for r in runs if not (r.variant == "le" and prop == "C28")]
    if unseen:
        again = build_all([(r.variant, r.profile) for r in runs], 4)
        for e in again.values():
            raise e
    t_build = time.time() - t0
    base = os.environ.get("VPH_SCRATCH_BASE")
    if not base:
        base = "/tmp"
        if os.access("/dev/shm", os.W_OK) and check.get("shm", True):
            fs = os.statvfs("/dev/shm")
            if fs.f_bavail * fs.f_frsize > 3 << 30:
                base = "/dev/shm"
    scratch = tempfile.mkdtemp(prefix="vph-%s-" % prop, dir=base)
    os.chmod(scratch, 0o755)
    reports, found, sanit = [], [], []
    try:
        dictf = os.path.join(scratch, "dict.txt")
        nd = write_dict(dictf)
        def judge(r, rep, crash):
            if rep:
                reports.append(rep)
                log("%s: %d cases, %d distinct, %d violations, %.1f s" % (r.name(), rep["evaluations"], rep["distinct"], len(rep["violations"]), rep["process_s"]))
            if crash:
                what, text = crash
                m = re.search(r"(error: Undefined Behavior[^\n]*|error: deadlock[^\n]*|(?:ERROR|WARNING): \w+Sanitizer: [^\n]*)", text)
                found.append({"key": what.split()[0] + ":" + r.variant, "msg": m.group(1) if m else "the process died: " + what, "detail": text[:20000], "run": r.name()})
            if rep and not r.sanitizer_only:
                for v in rep["violations"]:
                    v["run"] = r.name()
                    found.append(v)

        done = 0
        while done < len(runs) and not found:
            group = [runs[done]]
            while group[0].parallel and done + len(group) < len(runs) and runs[done + len(group)].parallel:
                group.append(runs[done + len(group)])
            done += len(group)
            if len(group) == 1:
                rep, crash, _ = run_one(prop, group[0], scratch, dictf, SEED)
                judge(group[0], rep, crash)
                continue
            with open(dictf) as f:
                lines = f.readlines()
            small = dictf + ".small"
            with open(small, "w") as f:
                f.writelines(random.Random(SEED).sample(lines, min(40, len(lines))))
            with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                for r, (rep, crash, _) in zip(group, ex.map(lambda r: run_one(prop, r, scratch, small, SEED), group)):
                    judge(r, rep, crash)
    finally:
        if keep:
            log("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    evals = sum(r["evaluations"] for r in reports)
    distinct = sum(r["distinct"] for r in reports)
    samples = []
    for r in reports:
        samples += [("[%s] " % r["run"]) + s for s in r["samples"][:3]]
    observed = {}
    for r in reports:
        observed[r["run"]] = {"cases": r["evaluations"], "distinct": r["distinct"], "enumerated_completely": r["enumerated"], "seconds": r["process_s"], "observed": r["counters"]}
    open_ = [k for k in known_findings() if k[0] == prop]
    hidden = [v for v in found if any(k[1] == v["key"] for k in open_)]
    fresh = [v for v in found if v not in hidden]
    ev = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": check["level"],
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": check["rule"],
            "samples": samples[:12],
            "runs": observed,
            "literals_of_the_library_in_the_dictionary": {"integers": nd[0], "floats": nd[1], "texts": nd[2]},
            "build_s": round(t_build, 1),
            **({"runs_without_accessors_because_they_did_not_build": unseen} if unseen else {}),
        },
        "assumptions": check["assumes"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in open_:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d.txt" % (prop, TIER, SEED))
        with open(path, "w") as f:
            f.write("property %s, tier %s, seed %d\nrun again: VERIF_TIER=%s VERIF_SEED=%d python3 check.py %s --only=%s\n\n" % (prop, TIER, SEED, TIER, SEED, prop, fresh[0]["run"]))
            for v in fresh:
                f.write("== %s (%s)\n%s\n%s\n\n" % (v["msg"], v["run"], v["key"], v["detail"]))
        for v in fresh[:8]:
            log("%s: %s\n   %s" % (v["run"], v["msg"], v["detail"][:1500].replace("\n", "\n   ")))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        return 1
    need = check.get("min", 1)
    if evals < need or distinct < 1 or len(reports) < len(runs):
        log("too little was observed (%d cases, %d of %d runs)" % (evals, len(reports), len(runs)))
        return 2
    print("%s held on %d cases (%d distinct) in %d runs, %.1f s" % (prop, evals, distinct, len(runs), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    try:
        sys.exit(main())
    except Trouble as e:
        log("no answer:", e)
        sys.exit(2)
