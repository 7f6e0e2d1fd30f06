//! C01, C04, C06: opening profiles, through the public interface only.
use crate::bed::{check_tags, kind_of, Bed};
use crate::gen::{content, header, inside, real_profile, structured, Want};
use crate::model::{self, Content};
use crate::rt::*;
use lcms2::io::AccessMode;
use lcms2::state::Context;
use lcms2::types::{Profile, Signature};
use std::fmt::Write as _;
use std::io;
use std::path::{Path, PathBuf};

pub fn open_by<P: AsRef<Path>>(entry: u64, ctx: &mut Context, p: P) -> io::Result<Box<Profile>> {
    if entry == 0 {
        Profile::open_from_file(p, AccessMode::Read)
    } else {
        Profile::open_from_file_thr(ctx, p, AccessMode::Read)
    }
}

/// Every query a user can make on an opened profile.
pub fn queries(rec: &mut Rec, p: &Profile, rng: &mut Rng, det: &dyn Fn() -> String) {
    let Some(n) = rec.lib("get_tag_count", det, || p.get_tag_count()) else { return };
    if n > 100 {
        rec.violate("count", format!("tag count {n} is above 100"), det());
    }
    let mut idx: Vec<usize> = vec![0, n.wrapping_sub(1), n, n + 1, 99, 100, 101, 127, 255, 256, 65535, 65536, 1 << 31, 1 << 32, usize::MAX, usize::MAX - 1, usize::MAX / 2];
    idx.push(rng.u64() as usize);
    idx.push(rng.below(200) as usize);
    for i in idx {
        let Some(s) = rec.lib("get_tag_signature", || format!("index {i} of {n} tags; {}", det()), || p.get_tag_signature(i)) else { continue };
        if i >= n && s != Signature::default() {
            rec.violate("past", format!("tag signature at index {i} of {n} tags is {s:?}, not the default"), det());
        }
    }
    rec.lib("eq", det, || p == p).map(|e| {
        if !e {
            rec.violate("eq", "a profile does not equal itself", det());
        }
    });
    if rng.chance(1, 8) {
        rec.lib("debug", det, || {
            let mut s = String::new();
            let _ = write!(s, "{p:?}");
            s.len()
        });
        rec.count("debug outputs", 1);
    }
    rec.lib("get_io_handler", det, || p.get_io_handler().is_some());
    rec.count("profiles queried", 1);
}

pub fn c01(o: &Opts, rec: &mut Rec) {
    let real = real_profile();
    par(o, rec, 0x01, o.n(60, 1_200_000, 40_000_000), |rec, rng, first, n| {
        let bed = Bed::new(&o.scratch, &format!("c01-{}", rec.worker));
        let mut ctx = Context::new(None);
        let mut held: Option<Box<Profile>> = None;
        for k in 0..n {
            // full directories first
            let c = if first == 0 && k < 3 { inside(rng, &o.dict, 100 - (k as u32 & 1)) } else { content(rng, &o.dict, &real, Want::Any) };
            bed.put(&c);
            enter(rec.worker, "opening a profile", &c.head);
            rec.case(c.hash());
            let entry = rng.below(2);
            let det = || c.describe();
            let r = rec.lib(if entry == 0 { "open_from_file" } else { "open_from_file_thr" }, det, || open_by(entry, &mut ctx, &bed.path));
            match r {
                Some(Ok(p)) => {
                    rec.count("opened", 1);
                    queries(rec, &p, rng, &det);
                    if let Some(h) = &held {
                        rec.lib("eq", det, || (*h == p, p == *h));
                    }
                    held = Some(p);
                }
                Some(Err(e)) => {
                    rec.count(&format!("error {:?}", e.kind()), 1);
                    rec.lib("error text", det, || e.to_string());
                }
                None => {}
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
        rec.sample(|| "random workload of one worker: headers, hostile directories, truncations, mutations of the sRGB profile".into());
    });
    // every prefix of a few profiles
    let mut rng = Rng::new(o.seed, 0x0101);
    let bed = Bed::new(&o.scratch, "c01-prefix");
    let mut ctx = Context::new(None);
    for k in 0..o.n(1, 6, 60) {
        let mut c = if k == 0 { Content { head: real.head.clone(), len: real.head.len() as u64 } } else { structured(&mut rng, &o.dict, Want::Tags) };
        c.len = c.head.len() as u64;
        for n in 0..=c.head.len().min(1340) {
            if o.tier == Tier::Mini && n % 97 != 0 {
                continue;
            }
            let t = Content::new(c.head[..n].to_vec());
            bed.put(&t);
            enter(0, "opening a prefix", &t.head);
            rec.enumerate(1);
            rec.count("prefixes", 1);
            let det = || t.describe();
            if let Some(Ok(p)) = rec.lib("open_from_file_thr", det, || open_by((n as u64 + k) % 2, &mut ctx, &bed.path)) {
                queries(rec, &p, &mut rng, &det);
            }
        }
    }
    leave(0);
    // every kind of path
    let d = Path::new(&o.scratch);
    let _ = std::fs::create_dir(d.join("dir"));
    let mut paths: Vec<PathBuf> = vec!["".into(), d.join("missing"), d.join("dir"), d.join("dir/"), d.join("missing/deeper"), "/".into(), ".".into(), "a\0b".into(), d.join("x".repeat(300)), format!("/{}", "y/".repeat(3000)).into()];
    #[cfg(not(miri))]
    {
        use std::os::unix::ffi::OsStrExt;
        let _ = std::os::unix::fs::symlink("nowhere", d.join("dangling"));
        let _ = std::os::unix::fs::symlink("loop", d.join("loop"));
        let _ = std::os::unix::fs::symlink(&bed.path, d.join("link"));
        paths.extend(["dangling", "loop", "link"].map(|n| d.join(n)));
        paths.push(d.join(std::ffi::OsStr::from_bytes(b"\xff\xfe\x80")));
        paths.extend(["/dev/null", "/dev/zero", "/dev/full", "/dev/urandom", "/proc/self/status", "/proc/self/mem", "/proc/self/fd"].map(PathBuf::from));
        let _ = std::os::unix::net::UnixListener::bind(d.join("sock"));
        paths.push(d.join("sock"));
        // a good profile under all kinds of names, and the same names where nothing is
        let again = d.join("c01-good");
        bed.put(&real);
        if std::fs::copy(&bed.path, &again).is_ok() {
            for _ in 0..o.n(1, 12, 100) {
                let l = aliases(d, &again, 0, &mut rng, &o.dict);
                for p in &l[2..] {
                    if let Some(n) = p.file_name() {
                        paths.push(d.join("not here").join(n));
                        paths.push(d.join("dir").join(n));
                    }
                }
                paths.extend(l);
            }
        }
    }
    for p in &paths {
        for entry in 0..2 {
            enter(0, "opening a path", p.to_string_lossy().as_bytes());
            rec.enumerate(1);
            rec.count("paths", 1);
            let det = || format!("path {p:?}");
            if let Some(Ok(q)) = rec.lib("open", det, || open_by(entry, &mut ctx, p)) {
                queries(rec, &q, &mut rng, &det);
            }
        }
    }
    leave(0);
    rec.sample(|| format!("paths opened: {:?}", paths.iter().map(|p| p.to_string_lossy().chars().take(30).collect::<String>()).collect::<Vec<_>>()));
}

fn check_c04(rec: &mut Rec, c: &Content, r: &io::Result<Box<Profile>>) {
    let want = model::open(c);
    match (&want, r) {
        (Ok(m), Ok(p)) => {
            rec.count("accepted", 1);
            let t = rec.lib("queries", || c.describe(), || check_tags(p, m));
            if let Some(Err(e)) = t {
                rec.violate("partial", format!("the opened profile is not the file's: {e}"), c.describe());
            }
            if p.get_io_handler().is_none() {
                rec.violate("no handler", "the opened profile has no I/O handler", c.describe());
            }
        }
        (Ok(_), Err(e)) => rec.violate("rejected", format!("a well-formed profile is rejected with {e:?}"), c.describe()),
        (Err(d), Ok(_)) => rec.violate("accepted", format!("a malformed file is accepted (defects {d:#b})"), c.describe()),
        (Err(d), Err(e)) => {
            rec.count(&format!("rejected {:?}", e.kind()), 1);
            if !model::kinds(*d).contains(&e.kind()) {
                rec.violate("kind", format!("rejected with {e:?}, which does not fit the file's defects {d:#b}"), c.describe());
            }
        }
    }
}

pub fn c04(o: &Opts, rec: &mut Rec) {
    let real = real_profile();
    par(o, rec, 0x04, o.n(60, 1_200_000, 40_000_000), |rec, rng, _f, n| {
        let bed = Bed::new(&o.scratch, &format!("c04-{}", rec.worker));
        let mut ctx = Context::new(None);
        for _ in 0..n {
            let c = content(rng, &o.dict, &real, Want::Any);
            bed.put(&c);
            enter(rec.worker, "opening a profile", &c.head);
            rec.case(c.hash());
            let entry = rng.below(2);
            if let Some(r) = rec.lib("open", || c.describe(), || open_by(entry, &mut ctx, &bed.path)) {
                check_c04(rec, &c, &r);
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
        rec.sample(|| "random workload: accept/reject decision compared with the model of the format".into());
    });
    // Systematic one-dimensional sweeps around a well-formed profile with two tags.
    let base = |rng: &mut Rng| {
        let mut h = header(rng, &o.dict).to_vec();
        h.extend_from_slice(&2u32.to_be_bytes());
        for (s, of, sz) in [(b"desc", 156u32, 4u32), (b"wtpt", 156, 0)] {
            h.extend_from_slice(s);
            h.extend_from_slice(&of.to_be_bytes());
            h.extend_from_slice(&sz.to_be_bytes());
        }
        h.extend_from_slice(b"tail");
        let mut c = Content::new(h);
        c.put32(0, 160);
        c
    };
    #[derive(Clone)]
    enum Job {
        Dates(u16),
        Times(u16),
        Counts(u64),
        Prefix(u64),
        Magic(u64),
        Byte(u64),
    }
    let mut jobs: Vec<Job> = vec![];
    let years: Vec<u16> = match o.tier {
        Tier::Mini => vec![2000],
        Tier::Quick => (0..=420).chain((1890..=2110).step_by(1)).chain((0..=65535).step_by(997)).chain([9999, 10000, 65533, 65534, 65535]).collect(),
        Tier::Thorough => (0..=65535).collect(),
    };
    jobs.extend(years.into_iter().map(Job::Dates));
    jobs.extend((0..if o.tier == Tier::Mini { 1 } else { 26 }).map(Job::Times));
    jobs.extend((0..o.n(1, 40, 400)).map(Job::Counts));
    jobs.extend((0..o.n(1, 40, 400)).map(Job::Prefix));
    jobs.extend((0..o.n(1, 20, 200)).map(Job::Magic));
    jobs.extend((0..o.n(0, 10, 200)).map(Job::Byte));
    par(o, rec, 0x0404, jobs.len() as u64, |rec, rng, first, n| {
        let bed = Bed::new(&o.scratch, &format!("c04s-{}", rec.worker));
        let mut ctx = Context::new(None);
        let mut one = |rec: &mut Rec, c: &Content| {
            bed.put(c);
            enter(rec.worker, "opening a profile (sweep)", &c.head);
            rec.enumerate(1);
            if let Some(r) = rec.lib("open", || c.describe(), || open_by(1, &mut ctx, &bed.path)) {
                check_c04(rec, c, &r);
            }
        };
        for j in first..first + n {
            let mut c = base(rng);
            match &jobs[j as usize] {
                Job::Dates(y) => {
                    c.put16(24, *y);
                    for m in (0..=14).chain([255, 256, 257, 65535]) {
                        for d in (0..=33).chain([255, 256, 257, 65535]) {
                            if m > 12 && d > 2 && d < 31 || d > 2 && d < 27 && d % 7 != 0 {
                                continue;
                            }
                            c.put16(26, m);
                            c.put16(28, d);
                            one(rec, &c);
                        }
                    }
                    rec.count("years swept", 1);
                }
                Job::Times(h) => {
                    for m in (0..=61).chain([255, 256, 65535]) {
                        for s in (0..=61).chain([255, 256, 65535]) {
                            c.put16(30, *h);
                            c.put16(32, m);
                            c.put16(34, s);
                            one(rec, &c);
                        }
                    }
                    rec.count("hours swept", 1);
                }
                Job::Counts(_) => {
                    // claimed counts against the entries that are really there
                    let full = structured(rng, &o.dict, Want::Tags);
                    for claim in (0..=130u32).chain([255, 256, 257, 356, 65536, 65537, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]) {
                        let mut f = full.clone();
                        f.put32(128, claim);
                        for cut in [0u64, 1, 11, 12, 13] {
                            let need = 132 + 12 * u64::from(claim.min(110));
                            let mut g = f.clone();
                            g.len = need.saturating_sub(cut).max(100);
                            g.head.resize(g.len as usize, 0x41);
                            one(rec, &g);
                        }
                    }
                    rec.count("tag count sweeps", 1);
                }
                Job::Prefix(_) => {
                    let mut f = structured(rng, &o.dict, Want::Tags);
                    f.len = f.head.len() as u64;
                    for k in 0..=f.head.len().min(1340) {
                        one(rec, &Content::new(f.head[..k].to_vec()));
                    }
                    rec.count("prefix sweeps", 1);
                }
                Job::Magic(_) => {
                    for b in 0..32 {
                        let mut g = c.clone();
                        g.put32(36, 0x6163_7370 ^ (1 << b));
                        one(rec, &g);
                    }
                    for at in 36..40 {
                        for v in 0..=255 {
                            let mut g = c.clone();
                            g.head[at] = v;
                            one(rec, &g);
                        }
                    }
                    rec.count("magic sweeps", 1);
                }
                Job::Byte(_) => {
                    // no other byte of the header may matter
                    for at in 0..128 {
                        for v in 0..=255 {
                            let mut g = c.clone();
                            g.head[at] = v;
                            one(rec, &g);
                        }
                    }
                    rec.count("header byte sweeps", 1);
                }
            }
        }
        leave(rec.worker);
    });
    #[cfg(not(miri))]
    {
        unreadable(o, rec, "");
        // and without privileges
        let own = std::thread::scope(|s| {
            s.spawn(|| {
                let mut r = Rec::new(40);
                register(40);
                if crate::fsmon::become_nobody() {
                    unreadable(o, &mut r, " without privileges");
                } else {
                    r.count("could not switch user", 1);
                }
                unregister(40);
                r
            })
            .join()
            .unwrap()
        });
        rec.merge(own);
    }
}
/// Paths that cannot be read: the error is the system's.
#[cfg(not(miri))]
fn unreadable(o: &Opts, rec: &mut Rec, how: &str) {
    use std::io::Read;
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::PermissionsExt;
    let d = Path::new(&o.scratch).join("c04 paths");
    if how.is_empty() {
        let mode = |p: &Path, m| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("scratch");
        std::fs::create_dir_all(d.join("dir/inner")).expect("scratch");
        std::fs::create_dir_all(d.join("closed/inner")).expect("scratch");
        let good = structured(&mut Rng::new(o.seed, 0x04ba), &o.dict, Want::Good);
        for f in ["file", "file.icc", "write only", "no permission", "closed/file", "closed/inner/file"] {
            std::fs::write(d.join(f), &good.stored()).expect("scratch");
            mode(&d.join(f), 0o644);
        }
        for (l, t) in [("loop", "loop"), ("loop1", "loop2"), ("loop2", "loop1"), ("broken", "nothing"), ("to dir", "dir"), ("to closed", "closed/file"), ("to no permission", "no permission"), ("through", "file/x")] {
            let _ = std::os::unix::fs::symlink(t, d.join(l));
        }
        let _ = std::os::unix::net::UnixListener::bind(d.join("socket"));
        mode(&d.join("write only"), 0o222);
        mode(&d.join("no permission"), 0);
        mode(&d.join("closed"), 0);
        mode(&d, 0o755);
    }
    let mut paths: Vec<PathBuf> = [
        "missing", "missing/x", "dir", "dir/", "dir/.", "dir/inner/..", "dir/none/x", "dir/none", "file/", "file/x", "file/..", "file/.", "loop", "loop/x", "loop1", "loop2", "broken", "broken/x", "to dir", "to dir/", "to dir/none",
        "to closed", "to no permission", "through", "socket", "write only", "no permission", "closed", "closed/file", "closed/none", "closed/inner/file", "file ", " file", "FILE", "file.ICC", "file.icc.", "file\0", "n\0n", "\0", "file.icc\0x",
        "file\n", "./missing", "../missing", "file%00", "file?x=1", "file#1", "file:x", "*", "fil?", "{file,x}", "~", "~/x", "$HOME", "%TMP%", "-",
    ]
    .iter()
    .map(|n| d.join(n))
    .collect();
    for n in [255, 256, 257, 1000, 4000] {
        paths.push(d.join("n".repeat(n)));
        paths.push(d.join("n".repeat(n)).join("x"));
    }
    for n in [4000, 4090, 4095, 4096, 4097, 5000, 70_000] {
        let mut p = d.as_os_str().as_bytes().to_vec();
        while p.len() < n {
            p.extend_from_slice(b"/.");
        }
        p.truncate(n);
        p.extend_from_slice(b"/missing");
        paths.push(std::ffi::OsStr::from_bytes(&p).into());
    }
    let file = d.join("file").display().to_string();
    paths.extend(["", "-", "~", "~/x", "/dev/fd/9999", "/proc/self/fd/9999", "/proc/self/none", "/dev/none", "//", "/", ".", "..", "memory", ":memory:", "mem:", "null", "nul", "stdin", "file", "*sRGB", "*Lab", "*Lab4", "*XYZ", "*null", "sRGB"].map(PathBuf::from));
    paths.extend([format!("file://{file}"), format!("file:{file}"), format!("\"{file}\""), format!("{file}:1"), format!(" {file}"), format!("{file} "), format!("{file}\n"), format!("C:{file}"), format!("@{file}"), format!("|cat {file}"), format!("&9999")].map(PathBuf::from));
    paths.extend([b"\xff\xfe".as_slice(), b"x\xc3", b"\xed\xa0\x80"].map(|n| d.join(std::ffi::OsStr::from_bytes(n))));
    for t in &o.dict.texts {
        paths.push(d.join(t));
        paths.push(t.into());
        paths.push(d.join(format!("missing.{t}")));
    }
    let mut ctxs = [Context::new(None), Context::new(Some(vec![1].into()))];
    for p in paths {
        // what the system says
        let want = match std::fs::File::open(&p).and_then(|mut f| f.read(&mut [0]).map(|_| ())) {
            Err(e) => e,
            Ok(()) => continue,
        };
        for entry in 0..2 {
            rec.enumerate(1);
            let det = || format!("{p:?}{how}, a read of it fails with {want:?}");
            let Some(r) = rec.lib("open", det, || open_by(entry, &mut ctxs[p.as_os_str().len() % 2], &p)) else { continue };
            match kind_of(&r) {
                None => rec.violate("path", "a path that cannot be read opens", det()),
                Some(k) if k != want.kind() => rec.violate("pathkind", format!("a path that cannot be read gives {:?}", r.err()), det()),
                Some(k) => {
                    rec.count("unreadable paths", 1);
                    rec.count(&format!("unreadable{how}: {k:?}"), 1);
                }
            }
        }
    }
}

fn swap(b: &mut [u8], i: usize, j: usize) {
    if i < b.len() && j < b.len() {
        b.swap(i, j);
    }
}
/// One change of a content whose effect on the recorded fields the model knows.
fn vary(rng: &mut Rng, c: &Content) -> Content {
    let mut v = c.clone();
    let dir_end = (132 + 12 * c.be32(128).min(100) as usize).min(v.head.len());
    match rng.below(14) {
        0 => {}
        10 | 11 => {
            // one field of one entry, often the last one
            let n = ((dir_end.max(132) - 132) / 12) as u64;
            if n > 0 {
                let k = if rng.chance(1, 4) { n - 1 } else { rng.below(n) };
                let at = 132 + 12 * k as usize + 4 * rng.below(3) as usize;
                let w = match rng.below(4) {
                    0 => v.be32(at).wrapping_add(1),
                    1 => v.be32(at).wrapping_sub(1),
                    2 => v.be32(132 + 12 * rng.below(n) as usize + (at - 132) % 12),
                    _ => v.be32(at) ^ 1 << rng.below(32),
                };
                v.put32(at, w);
            }
        }
        12 => {
            // exchange two fields of the header
            let (a, b) = (4 * rng.below(32) as usize, 4 * rng.below(32) as usize);
            if v.head.len() >= 128 {
                let (x, y) = (v.be32(a), v.be32(b));
                v.put32(a, y);
                v.put32(b, x);
            }
        }
        13 => {
            // one field of the header
            let at = 4 * rng.below(32) as usize;
            if v.head.len() >= 128 {
                let w = match rng.below(4) {
                    0 => v.be32(at).wrapping_add(1),
                    1 => v.be32(at).swap_bytes(),
                    2 => rng.u32(),
                    _ => 0,
                };
                v.put32(at, w);
            }
        }
        1 => {
            // after the directory: not recorded
            let at = dir_end + rng.below(24) as usize;
            if at < v.head.len() {
                v.head[at] ^= 1 << rng.below(8);
            }
        }
        2 => v.len = v.len.max(v.head.len() as u64) + rng.below(3),
        3 => {
            let s = v.be32(0);
            v.put32(0, s.wrapping_add(rng.below(5) as u32).wrapping_sub(2));
        }
        4 | 5 => {
            let at = 132 + rng.below((dir_end.max(133) - 132) as u64) as usize;
            if at < v.head.len() {
                v.head[at] ^= 1 << rng.below(8);
            }
        }
        6 => {
            // swap two entries
            let n = c.be32(128).min(100) as u64;
            if n >= 2 && dir_end == 132 + 12 * n as usize {
                let (a, b) = (132 + 12 * rng.below(n) as usize, 132 + 12 * rng.below(n) as usize);
                for k in 0..12 {
                    swap(&mut v.head, a + k, b + k);
                }
            }
        }
        7 => {
            // swap bytes inside the header
            let (a, b) = (rng.below(128) as usize, rng.below(128) as usize);
            swap(&mut v.head, a, b);
        }
        _ => {
            let at = rng.below(128) as usize;
            if at >= v.head.len() {
            } else if rng.chance(1, 2) {
                v.head[at] ^= 1 << rng.below(8);
            } else {
                v.head[at] = rng.u32() as u8;
            }
        }
    }
    if v.head.len() as u64 > v.len {
        v.head.truncate(v.len as usize);
    }
    v
}

/// The same files in processes with another environment, directory, user, limits; and with other times and modes.
#[cfg(not(miri))]
fn surroundings(o: &Opts, rec: &mut Rec, real: &Content) {
    use crate::child::{outcome, run, Surroundings};
    use std::os::unix::fs::PermissionsExt;
    let dir = Path::new(&o.scratch).join("c06 env");
    let _ = std::fs::create_dir(&dir);
    let mut rng = Rng::new(o.seed, 0x060e);
    let n = o.n(20, 300, 600) as usize;
    let mut ctx = Context::new(None);
    let mut want = vec![];
    for i in 0..n {
        let c = content(&mut rng, &o.dict, real, if i % 4 == 0 { Want::Any } else { Want::Good });
        let p = dir.join(format!("f{i}"));
        let f = std::fs::File::create(&p).expect("scratch");
        std::os::unix::fs::FileExt::write_all_at(&f, &c.head, 0).expect("scratch");
        f.set_len(c.len).expect("scratch");
        match rec.lib("open", || c.describe(), || outcome(&open_by(1, &mut ctx, &p))) {
            Some(w) => want.push(w),
            None => want.push("panic".into()),
        }
    }
    let base = Surroundings::default();
    // names that the library's source mentions
    let words: Vec<&String> = o.dict.texts.iter().filter(|t| t.len() > 1 && t.len() < 100 && t.bytes().all(|b| b.is_ascii_alphanumeric() || b"_.-".contains(&b))).collect();
    let named = |v: &str| Surroundings { words: words.iter().map(|n| ((*n).clone(), v.to_string())).collect(), ..base.clone() };
    let mut all = vec![
        base.clone(),
        Surroundings { bare: true, ..base.clone() },
        Surroundings { env: vec![("TZ", "AAA-14")], ..base.clone() },
        Surroundings { env: vec![("TZ", "BBB11:30")], umask: Some(0o777), ..base.clone() },
        Surroundings { env: vec![("TZ", "America/New_York"), ("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")], umask: Some(0), ..base.clone() },
        Surroundings { env: vec![("RUST_BACKTRACE", "full"), ("RUST_LOG", "trace"), ("DEBUG", "1"), ("LCMS_DEBUG", "1"), ("LANG", "C")], ..base.clone() },
        Surroundings { cwd: Some("/".into()), files: Some(24), ..base.clone() },
        Surroundings { nobody: true, bare: true, ..base.clone() },
    ];
    rec.count("words of the source as environment variables", words.len() as u64);
    if !words.is_empty() {
        all.extend(["", "0", "1", "2", "5", "99", "true", "false", "no", "on", "strict", "/nonexistent", "-1", "99999999999999999999"].map(named));
        // and in each other's company: a name and a word as its value
        for _ in 0..6 {
            all.push(Surroundings { words: words.iter().map(|n| ((*n).clone(), (*rng.pick(&words)).clone())).collect(), ..base.clone() });
        }
    }
    let rounds = o.n(1, 4, 40);
    for round in 0..rounds {
        for (k, s) in all.iter().enumerate() {
            if k > 0 || round > 0 {
                for i in 0..n {
                    // times and modes are no content
                    let p = dir.join(format!("f{i}"));
                    let t = *rng.pick(&[0, 1, 86_400 * 365 * 20, 951_782_400, 1_709_164_800, 4_102_444_800]) + rng.below(86_400) as i64;
                    let f = std::fs::File::options().read(true).open(&p).expect("scratch");
                    let t = std::time::UNIX_EPOCH + std::time::Duration::new(t as u64, rng.below(1_000_000_000) as u32);
                    let _ = f.set_times(std::fs::FileTimes::new().set_accessed(t).set_modified(t));
                    let m = *rng.pick(&[0o644, 0o444, 0o777, 0o604, 0o755]);
                    let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m));
                }
            }
            rec.case(round << 8 ^ k as u64 ^ 0xe0e0);
            run(rec, &["each".into(), dir.to_string_lossy().into_owned(), n.to_string()], s, &want);
            // and here
            for (i, w) in want.iter().enumerate() {
                let p = dir.join(format!("f{i}"));
                if let Some(r) = rec.lib("open", || p.display().to_string(), || outcome(&open_by(i as u64 % 2, &mut ctx, &p))) {
                    if r != *w {
                        rec.violate("metadata", format!("a file whose times or mode changed opens as {r}, before as {w}"), p.display().to_string());
                    }
                }
            }
            if enough() {
                return;
            }
        }
    }
}

/// Thousands of profiles held at once, of a few contents.
#[cfg(not(miri))]
fn held(o: &Opts, rec: &mut Rec, real: &Content) {
    // as many descriptors as this process may have
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
    }
    let most = (l.rlim_cur.saturating_sub(120)).min(o.n(50, 5_000, 15_000));
    let mut rng = Rng::new(o.seed, 0x06_1d);
    let mut ctxs = [Context::new(None), Context::new(Some(vec![1].into()))];
    let mut files: Vec<(PathBuf, Option<Box<Profile>>, Content)> = vec![];
    for i in 0..6 {
        let c = content(&mut rng, &o.dict, real, if i == 0 { Want::Any } else { Want::Good });
        let b = Bed::new(&o.scratch, &format!("c06 held {i}"));
        b.put(&c);
        let Some(r) = rec.lib("open", || c.describe(), || open_by(1, &mut ctxs[0], &b.path)) else { return };
        files.push((b.path.clone(), r.ok(), c));
    }
    let mut all: Vec<Box<Profile>> = vec![];
    for k in 0..most {
        let (path, first, c) = rng.pick(&files);
        let det = || format!("with {} profiles held: {}", all.len(), c.describe());
        rec.case(k ^ 0x4e1d_0000);
        let Some(r) = rec.lib("open", det, || open_by(k % 2, &mut ctxs[(k / 2 % 2) as usize], path)) else { return };
        match (r, first) {
            (Ok(p), Some(f)) => {
                if rec.lib("eq", det, || p == *f) != Some(true) {
                    rec.violate("held", "opening a content while many profiles are held gives another profile", det());
                }
                all.push(p);
            }
            (Err(_), None) => {}
            (r, _) => {
                rec.violate("held", format!("opening a content while many profiles are held gives {:?}, before it was the other way", r.err()), det());
                break;
            }
        }
        // now and then some go
        if k % 1009 == 1008 {
            let n = all.len();
            for _ in 0..n / 20 {
                all.swap_remove(rng.below(all.len() as u64) as usize);
            }
        }
    }
    rec.count("profiles held at once", all.len() as u64);
    // all of them are still what they were
    for p in &all {
        if rec.lib("eq", String::new, || files.iter().any(|f| f.1.as_ref() == Some(p))) != Some(true) {
            rec.violate("held", "a profile that is held with many others has changed", String::new());
            break;
        }
    }
}

/// Other names of a file: links, extensions, long, hidden and odd names, paths that wind.
#[cfg(not(miri))]
fn aliases(dir: &Path, file: &Path, w: usize, rng: &mut Rng, d: &crate::dict::Dict) -> Vec<PathBuf> {
    use std::os::unix::ffi::OsStrExt;
    let mut v = vec![file.to_path_buf(), file.to_path_buf()];
    let mut sub = dir.join(format!("c06 d-{w}"));
    let _ = std::fs::create_dir(&sub);
    let l = sub.join("link");
    if std::os::unix::fs::symlink(file, &l).is_ok() {
        v.push(l);
    }
    let long = |n: usize, e: &str| format!("{}{e}", "n".repeat(n - e.len()));
    let mut names: Vec<Vec<u8>> = ["a.icc", "A.ICC", "b.icm", "B.ICM", ".icc", ".hidden", "x.txt", "x.jpg", "x.bak", "x~", "x.tmp", "-", "-x", "a b  c", "%41", "a:b", "*?[]", "sRGB", "icc", "no.ext.at.all.", "\u{e9}\u{4e2d}\u{1f600}", "\u{202e}cba", "NUL", "CON", "0", "null", "default", "test", "x.gz"]
        .iter()
        .map(|n| n.as_bytes().to_vec())
        .collect();
    names.extend([long(255, ".icc"), long(254, ""), long(128, ""), long(127, ".icm"), long(64, "")].map(String::into_bytes));
    names.push(b"\xff\xfe\x80.icc".to_vec());
    names.extend([b"p.\xff\xfe".to_vec(), b"\xe4.icm".to_vec(), b"half \xc3".to_vec(), b".\x80".to_vec(), b"p.\xed\xa0\x80".to_vec()]);
    names.push(b"line\nbreak\ttab".to_vec());
    // names with words of the source in them
    for _ in 0..40 {
        if let Some(t) = d.texts.get(rng.below(d.texts.len().max(1) as u64) as usize) {
            names.push(if rng.chance(1, 2) { t.clone() } else { format!("p.{t}") }.into_bytes());
        }
    }
    names.retain(|n| n.len() < 256 && !n.contains(&b'/') && !n.contains(&0));
    for n in names {
        let p = sub.join(std::ffi::OsStr::from_bytes(&n));
        if std::fs::hard_link(file, &p).is_ok() {
            v.push(p);
        }
    }
    v.push(sub.join("..").join(file.file_name().unwrap()));
    v.push(sub.join(".//.//./").join("..").join(".").join(file.file_name().unwrap()));
    for _ in 0..9 {
        sub = sub.join("a directory of some length");
        let _ = std::fs::create_dir(&sub);
    }
    for n in ["deep.icc", "deep"] {
        let p = sub.join(n);
        if std::fs::hard_link(file, &p).is_ok() {
            v.push(p);
        }
    }
    // by way of the working directory
    if let Ok(cwd) = std::env::current_dir() {
        let up: PathBuf = cwd.components().skip(1).map(|_| "..").collect();
        if let Ok(rel) = file.strip_prefix("/") {
            v.push(up.join(rel));
        }
    }
    if v.iter().any(|p| std::fs::metadata(p).is_err()) {
        v.retain(|p| std::fs::metadata(p).is_ok());
    }
    v
}
/// What else may have happened between two opens.
fn distract(rec: &mut Rec, rng: &mut Rng, o: &Opts, ctxs: &mut [Context; 3], out: &Path) {
    if !rng.chance(1, 4) {
        return;
    }
    let det = || "between two opens".to_string();
    for _ in 0..1 + rng.below(3) {
        let i = rng.below(3) as usize;
        match rng.below(8) {
            0 => drop(rec.lib("open for writing", det, || Profile::open_from_file_thr(&mut ctxs[i], out, AccessMode::Write))),
            1 => drop(rec.lib("open for writing", det, || Profile::open_from_file(out, AccessMode::Write))),
            2 => drop(rec.lib("open", det, || open_by(i as u64 % 2, &mut ctxs[i], out.with_extension("missing")))),
            3 | 4 => {
                let c = crate::plugin::chain(rng, &o.dict);
                let p = crate::plugin::build(&c);
                rec.lib("init_plugin", det, || ctxs[i].init_plugin(&p).is_ok());
            }
            5 => {
                let code = *rng.pick(&crate::plugin::CODES);
                rec.lib("signal_error", det, || ctxs[i].signal_error(code, "between two opens"));
            }
            6 => {
                if let Some(c) = rec.lib("clone", det, || ctxs[i].clone()) {
                    ctxs[rng.below(3) as usize] = c;
                }
            }
            _ => {
                let _ = std::fs::remove_file(out);
            }
        }
        rec.count("other operations between opens", 1);
    }
}

pub fn c06(o: &Opts, rec: &mut Rec) {
    let real = real_profile();
    let dir = Path::new(&o.scratch);
    par(o, rec, 0x06, o.n(20, 400_000, 16_000_000), |rec, rng, _f, n| {
        let w = rec.worker;
        let a = Bed::new(&o.scratch, &format!("c06a-{w}"));
        let b = Bed::new(&o.scratch, &format!("c06 other name, longer-{w}.icm"));
        #[cfg(not(miri))]
        let alias = {
            let mut v = aliases(dir, &a.path, w, rng, &o.dict);
            v.extend(a.numbered().into_iter().filter(|p| std::fs::metadata(p).is_ok()));
            v
        };
        #[cfg(miri)]
        let alias = {
            let _ = dir;
            vec![a.path.clone()]
        };
        let mut ctxs = [Context::new(None), Context::new(Some(vec![1, 2, 3].into())), Context::new(Some(vec![].into()))];
        let out = dir.join(format!("c06-{w}.out"));
        // profiles kept from earlier, with their models: nothing opened later may change how they compare
        let mut kept: Vec<(Box<Profile>, model::MProfile)> = vec![];
        for _ in 0..n {
            let want = if rng.chance(1, 5) { Want::Any } else { Want::Good };
            let c = if !cfg!(miri) && rng.chance(1, 10) { let n = 100 - (rng.below(8) / 5) as u32; inside(rng, &o.dict, n) } else { content(rng, &o.dict, &real, want) };
            let v = vary(rng, &c);
            a.put(&c);
            b.put(&v);
            // other content need not show in the times of a file
            #[cfg(not(miri))]
            let frozen = rng.chance(1, 2);
            #[cfg(not(miri))]
            if frozen {
                a.freeze();
                b.freeze();
            }
            enter(w, "opening two profiles", &c.head);
            rec.case(c.hash() ^ v.hash().rotate_left(7));
            let det = || format!("first: {}\nsecond: {}", c.describe(), v.describe());
            let (i, j, k) = (rng.below(3) as usize, rng.below(3) as usize, rng.below(3) as usize);
            let (e1, e2, e3) = (rng.below(2), rng.below(2), rng.below(2));
            let pa = rng.pick(&alias).clone();
            let pb = rng.pick(&alias).clone();
            if rng.chance(1, 4) {
                ctxs[rng.below(3) as usize] = Context::new(crate::plugin::any_data(rng, &o.dict).map(Vec::into_boxed_slice));
            }
            distract(rec, rng, o, &mut ctxs, &out);
            #[cfg(not(miri))]
            let locked = rng.chance(1, 6);
            #[cfg(not(miri))]
            if locked {
                a.lock(1 + rng.below(4));
                b.lock(1 + rng.below(4));
                rec.count("opens of files locked by others", 1);
            }
            let Some(ra) = rec.lib("open", det, || open_by(e1, &mut ctxs[i], &pa)) else { continue };
            let Some(rv) = rec.lib("open", det, || open_by(e2, &mut ctxs[j], &b.path)) else { continue };
            distract(rec, rng, o, &mut ctxs, &out);
            #[cfg(not(miri))]
            if locked && rng.chance(1, 2) {
                a.lock(0);
                b.lock(0);
            }
            let Some(rb) = rec.lib("open", det, || open_by(e3, &mut ctxs[k], &pb)) else { continue };
            #[cfg(not(miri))]
            if locked {
                a.lock(0);
                b.lock(0);
            }
            // the same content again
            match (&ra, &rb) {
                (Ok(x), Ok(y)) => {
                    if rec.lib("eq", det, || x == y && y == x) != Some(true) {
                        rec.violate("again", "opening the same content twice gives different profiles", det());
                    }
                    rec.count("same content, equal", 1);
                }
                (Err(x), Err(y)) => {
                    if x.kind() != y.kind() {
                        rec.violate("again", format!("opening the same content twice gives {x:?} and {y:?}"), det());
                    }
                    rec.count("same content, same error", 1);
                }
                _ => rec.violate("again", format!("the same content opens once and is rejected once (second time ok: {})", rb.is_ok()), det()),
            }
            let (ma, mv) = (model::open(&c), model::open(&v));
            if let (Ok(x), Ok(y), Ok(mx), Ok(my)) = (&ra, &rv, &ma, &mv) {
                let want = mx == my;
                match rec.lib("eq", det, || (x == y, y == x, x != y)) {
                    Some((e, f, g)) if e == want && f == want && g != want => rec.count(if want { "different content, equal" } else { "different content, unequal" }, 1),
                    Some(got) => rec.violate("eq", format!("profiles whose recorded fields {} compare as {got:?}", if want { "agree" } else { "differ" }), det()),
                    None => {}
                }
            }
            if rng.chance(1, 3) {
                // other content at the same path
                a.put(&v);
                #[cfg(not(miri))]
                if frozen {
                    a.freeze();
                    rec.count("path with other content before, modification time restored", 1);
                }
                let Some(rw) = rec.lib("open", det, || open_by(e3, &mut ctxs[i], &pa)) else { continue };
                match (&rv, &rw) {
                    (Ok(x), Ok(y)) => {
                        if rec.lib("eq", det, || x == y && y == x) != Some(true) {
                            rec.violate("path", "the same content opened at a path that held other content before gives a different profile", det());
                        }
                    }
                    (Err(x), Err(y)) if x.kind() == y.kind() => {}
                    _ => rec.violate("path", format!("the same content at a path that held other content before opens differently (first ok: {}, then ok: {})", rv.is_ok(), rw.is_ok()), det()),
                }
                rec.count("path with other content before", 1);
            }
            if let (Ok(x), Ok(mx)) = (ra, ma) {
                for (q, mq) in &kept {
                    let want = *mq == mx;
                    if rec.lib("eq", det, || *q == x) != Some(want) {
                        rec.violate("kept", format!("a profile opened earlier compares as {}, its recorded fields say {want}", !want), det());
                    }
                    rec.count("compared with an earlier profile", 1);
                }
                if kept.len() >= 4 {
                    let at = rng.below(4) as usize;
                    kept[at] = (x, mx);
                } else {
                    kept.push((x, mx));
                }
            }
            if enough() {
                break;
            }
        }
        leave(w);
        rec.sample(|| "pairs: a generated profile, and a copy with one bit, byte, entry, size or length changed, opened under several names and contexts".into());
    });
    #[cfg(not(miri))]
    surroundings(o, rec, &real);
    #[cfg(not(miri))]
    held(o, rec, &real);
    // Every single bit of the header and directory of a few profiles.
    par(o, rec, 0x0606, o.n(1, 200, 3000), |rec, rng, _f, n| {
        let bed = Bed::new(&o.scratch, &format!("c06b-{}", rec.worker));
        let mut ctx = Context::new(None);
        for _ in 0..n {
            // mostly small directories; full ones with one bit of every byte
            let full = o.tier != Tier::Mini && rng.chance(1, 6);
            let mut c = if full { let n = 100 - (rng.below(4) / 3) as u32; inside(rng, &o.dict, n) } else { structured(rng, &o.dict, Want::Tags) };
            let k = c.be32(128);
            if k > 6 && !full {
                c.put32(128, k % 6);
            }
            let Ok(m) = model::open(&c) else { continue };
            bed.put(&c);
            let Some(Ok(p)) = rec.lib("open", || c.describe(), || open_by(1, &mut ctx, &bed.path)) else {
                rec.violate("open", "a well-formed profile does not open", c.describe());
                continue;
            };
            let end = 132 + 12 * c.be32(128) as usize;
            for bit in 0..8 * end {
                if o.tier == Tier::Mini && bit % 61 != 0 || full && rng.below(8) != bit as u64 % 8 {
                    continue;
                }
                let mut v = c.clone();
                v.head[bit / 8] ^= 0x80 >> (bit % 8);
                let Ok(mv) = model::open(&v) else { continue };
                bed.put(&v);
                enter(rec.worker, "single bit changes", &v.head);
                rec.enumerate(1);
                rec.count("single bit changes", 1);
                let det = || format!("bit {bit} of {}", c.describe());
                let Some(Ok(q)) = rec.lib("open", det, || open_by(1, &mut ctx, &bed.path)) else {
                    rec.violate("open", "a well-formed profile does not open", v.describe());
                    continue;
                };
                let want = m == mv;
                if rec.lib("eq", det, || (p == q, q == p)) != Some((want, want)) {
                    rec.violate("bit", format!("changing bit {bit} gives a profile that compares {}equal; its recorded fields {}", if want { "un" } else { "" }, if want { "agree" } else { "differ" }), det());
                }
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
}
