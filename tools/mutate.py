#!/usr/bin/env python3
"""Systematic small changes of /repo/src, to find what the checks cannot see.

usage: mutate.py OUT.jsonl PART/PARTS [path prefix ...]     (run in private copies of /repo and /verif)
Each change that builds and passes the library's tests is given to the quick checks that could see it, until one reports it.
"""
import json, os, re, subprocess, sys, time
REPO = "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable")
PROPS = [
    ("src/io/file_null", "C12 C13"),
    ("src/io/file_mem", "C11 C13 C15"),
    ("src/io/file_file", "C11 C16 C17 C15"),
    ("src/io/io_handler", "C13 C14 C15 C11 C16"),
    ("src/io", "C18 C13"),
    ("src/types/profile.rs", "C04 C03 C02 C05 C06 C09 C10 C01 C08 C26 C07"),
    ("src/types/profile_id", "C06 C28 C02"),
    ("src/types/icc_header", "C28 C02"),
    ("src/types/tag_entry", "C28 C03"),
    ("src/types/date", "C20 C04 C09"),
    ("src/types/signature.rs", "C19 C02"),
    ("src/types/signatures", "C29 C04 C24"),
    ("src/types", "C29 C28"),
    ("src/plugins/para_curve", "C21 C22 C23"),
    ("src/plugins", "C24 C29"),
    ("src/state", "C24 C25 C10"),
    ("src/lib", "C29 C24 C21 C03"),
]
OPS = [
    (r"==", ["!="]), (r"!=", ["=="]), (r" < ", [" <= ", " > "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " < "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r"<< ", [">> "]), (r">> ", ["<< "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.'\"])(\d+)(?![\w.'\"]|\.\d)", None), (r"(?<![\w.])(\d+\.\d+)", None),
    (r"\bif (?!let)", ["if !"]), (r"\?;", [";"]), (r"\.abs\(\)", [""]), (r"-b\b", ["b"]),
    (r"be_bytes", ["le_bytes", "ne_bytes"]), (r"ne_bytes", ["be_bytes"]), (r"le_bytes", ["be_bytes"]),
    (r"\.max\(", [".min("]), (r"\.min\(", [".max("]), (r"Some\(([^()]*)\)", ["None"]), (r"\bas u32\b", ["as u16 as u32"]), (r"\bas usize\b", ["as u16 as usize"]),
    (r"\bas i32\b", ["as i16 as i32"]), (r"\bas f64\b", ["as f32 as f64"]), (r"offset", ["size"]), (r"size", ["offset"]), (r"minutes", ["seconds"]), (r"powf\(", ["powf(1.0 * ", "max("]),
    (r"\.ln\(\)", [".log10()"]), (r"log10", ["ln"]), (r"break", ["continue"]), (r"continue", ["break"]), (r"manufacturer", ["model"]), (r"color_space", ["pcs"]),
    (r"SeekFrom::Start", ["SeekFrom::Current"]), (r"SeekFrom::End", ["SeekFrom::Start"]), (r"SeekFrom::Current", ["SeekFrom::Start"]), (r"read_exact\(", ["read("]), (r"write_all\(", ["write("]),
    (r"ErrorKind::(\w+)", ["ErrorKind::Other"]), (r"ErrorCode::(\w+)", ["ErrorCode::Internal"]), (r"checked_add\((.*?)\)", [r"checked_sub(\1)"]),
    (r"\[(\d)\]", None), (r"gamma", ["params[1]"]), (r"\ba\b", ["b"]), (r"\bc\b", ["b"]), (r"\bd\b", ["c"]),
]

def lines_of(path):
    """(index, line) of what counts: no tests, no hooks, no comments."""
    out, skip, depth = [], False, 0
    pend = False
    for i, l in enumerate(open(path).read().split("\n")):
        s = l.strip()
        if s.startswith("#[cfg(test)]") or s.startswith("#[cfg(lcms2_vp"):
            pend = True
        if pend and "{" in l:
            skip, pend, depth = True, False, 0
        if skip:
            depth += l.count("{") - l.count("}")
            if depth <= 0:
                skip = False
            continue
        if pend or not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("///"):
            continue
        out.append((i, l))
    return out

def mutants(path):
    text = open(path).read().split("\n")
    for i, l in lines_of(path):
        code = l.split("//")[0]
        seen = set()
        for pat, subs in OPS:
            for m in re.finditer(pat, code):
                if subs is None:
                    v = m.group(1)
                    news = [m.group(0).replace(v, x) for x in ([str(int(v) + 1)] + ([str(int(v) - 1)] if int(v) > 0 else []) if "." not in v else [repr(float(v) + 0.5), repr(float(v) * 1.001)])]
                else:
                    news = [m.expand(s) for s in subs]
                for n in news:
                    new = code[: m.start()] + n + code[m.end() :]
                    if new != code and new not in seen:
                        seen.add(new)
                        yield i, new
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const ", "}")) and code.count("(") == code.count(")"):
            yield i, ""

def sh(cmd, timeout=300, cwd=REPO):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""

def main():
    out, part = sys.argv[1], sys.argv[2]
    k, n = map(int, part.split("/"))
    pre = sys.argv[3:]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    todo = []
    for d, _, fs in sorted(os.walk(REPO + "/src")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            if f.endswith(".rs") and (not pre or any(rel.startswith(x) for x in pre)):
                todo += [(rel, i, new) for i, new in mutants(p)]
    print(len(todo), "changes", flush=True)
    for j, (rel, i, new) in enumerate(todo):
        if j % n != k:
            continue
        mid = "%s:%d:%s" % (rel, i + 1, new.strip())
        if mid in done:
            continue
        path = os.path.join(REPO, rel)
        old = open(path).read()
        t = old.split("\n")
        was = t[i]
        t[i] = new
        open(path, "w").write("\n".join(t))
        res = dict(id=mid, was=was.strip())
        try:
            rc, o = sh("cargo test --offline --lib -q 2>&1 | tail -c 3000", 120)
            if "test result: ok" not in o:
                res["result"] = "tests" if "test result" in o or "panicked" in o else "build"
            else:
                res["result"] = "SURVIVED"
                props = next((v for q, v in PROPS if rel.startswith(q)), "C01 C29").split()
                for p in props:
                    t0 = time.time()
                    r = subprocess.run(["timeout", "600", "python3", "check.py", p], cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
                    if r.returncode == 1:
                        res["result"] = p
                        break
                    if r.returncode != 0:
                        res.setdefault("odd", []).append("%s rc %d" % (p, r.returncode))
                res["props"] = props
        finally:
            open(path, "w").write(old)
        with open(out, "a") as f:
            f.write(json.dumps(res) + "\n")

if __name__ == "__main__":
    main()
