//! C08 (reading changes nothing) and, with the probe hook, C09 (writing gives an empty writable profile).
use crate::bed::kind_of;
use crate::gen::{content, real_profile, Want};
use crate::model::{self};
use crate::prof::open_by;
use crate::rt::*;
use lcms2::io::AccessMode;
use lcms2::state::Context;
use lcms2::types::Profile;
use std::collections::BTreeMap;
use std::fs;
use std::os::fd::AsRawFd;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    kind: u32,
    len: u64,
    mtime: (i64, i64),
    mode: u32,
    nlink: u64,
    ino: u64,
    bytes: u64,
}
pub type Snap = BTreeMap<String, Seen>;

/// Everything in a directory: names, types, lengths, modes, times and contents.
pub fn snap(dir: &Path) -> Snap {
    let mut m = Snap::new();
    for e in fs::read_dir(dir).expect("scratch").flatten() {
        let p = e.path();
        let Ok(md) = fs::symlink_metadata(&p) else { continue };
        let bytes = if md.is_file() {
            fs::read(&p).map(|b| hash(&b)).unwrap_or(1)
        } else if md.file_type().is_symlink() {
            hash(fs::read_link(&p).map(|l| l.to_string_lossy().into_owned()).unwrap_or_default().as_bytes())
        } else {
            0
        };
        m.insert(
            e.file_name().to_string_lossy().into_owned(),
            Seen { kind: md.mode() & 0o170000, len: md.len(), mtime: (md.mtime(), md.mtime_nsec()), mode: md.mode(), nlink: md.nlink(), ino: md.ino(), bytes },
        );
    }
    m
}
/// The same with the directory's own times: a file that came and went shows there.
fn snap_all(dir: &Path) -> Snap {
    let mut m = snap(dir);
    if let Ok(md) = fs::metadata(dir) {
        m.insert(".".into(), Seen { kind: 0, len: 0, mtime: (md.mtime(), md.mtime_nsec()), mode: md.mode(), nlink: md.nlink(), ino: md.ino(), bytes: 0 });
    }
    m
}
/// Names that profiles have, or that some code might treat specially.
fn names(rng: &mut Rng, o: &Opts) -> String {
    const N: [&str; 22] = ["a.icc", "A.ICC", "a.icm", "Profil Größe.icc", "no_extension", ".hidden", "a.icc.bak", "two.dots.icc", "-", "trailing ", "~tmp", "a.icc~", "x.tmp", "#1", "%s%n", "CON", "a.lock", "a.ICM", "profile.pf", "日本.icc", "a\\b.icc", "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.icc"];
    if rng.chance(1, 3) && !o.dict.texts.is_empty() {
        let t = rng.pick(&o.dict.texts).replace(['/', '\0'], "_");
        if !t.is_empty() && t != "." && t != ".." && t.len() < 60 && t != "sub" && t != "nodir" {
            return match rng.below(3) {
                0 => t,
                1 => format!("p{t}"),
                _ => format!("{t}.icc"),
            };
        }
    }
    rng.pick(&N).to_string()
}
pub fn diff(a: &Snap, b: &Snap) -> String {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("{k} disappeared")),
            Some(y) if y != x => v.push(format!("{k} changed from {x:?} to {y:?}")),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            v.push(format!("{k} appeared"));
        }
    }
    v.join("; ")
}
fn old_times(dir: &Path) {
    // a time far in the past, so that any write shows
    let t = libc::timespec { tv_sec: 1_000_000_000, tv_nsec: 123_456_789 };
    for e in fs::read_dir(dir).expect("scratch").flatten() {
        if let Ok(p) = std::ffi::CString::new(e.path().as_os_str().to_string_lossy().into_owned()) {
            unsafe { libc::utimensat(libc::AT_FDCWD, p.as_ptr(), [t, t].as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
        }
    }
}
pub fn become_nobody() -> bool {
    // this thread only: the raw call does not go to the other threads
    unsafe {
        libc::syscall(libc::SYS_setgroups, 0, 0);
        libc::syscall(libc::SYS_setresgid, 65534, 65534, 65534) == 0 && libc::syscall(libc::SYS_setresuid, 65534, 65534, 65534) == 0
    }
}
fn dir_for(o: &Opts, name: &str) -> PathBuf {
    let d = Path::new(&o.scratch).join(name);
    let _ = fs::remove_dir_all(&d);
    fs::create_dir(&d).expect("scratch");
    fs::set_permissions(&d, fs::Permissions::from_mode(0o777)).unwrap();
    d
}

/// Runs an operation of the library and gives the calls it made that changed a file system anywhere
/// (known in the variant that wraps the system calls only).
fn watched<R>(f: impl FnOnce() -> R) -> (R, Vec<&'static str>) {
    #[cfg(feature = "sys")]
    {
        let (r, log) = crate::sys::under(crate::sys::Plan::default(), f);
        (r, log.iter().filter(|e| e.kind == crate::sys::Kind::Change).map(|e| crate::sys::CHANGES[e.arg as usize]).collect())
    }
    #[cfg(not(feature = "sys"))]
    (f(), vec![])
}
/// All paths below, with what they are.
fn tree(d: &Path) -> Snap {
    let mut m = snap_all(d);
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        if e.file_type().is_ok_and(|t| t.is_dir()) {
            let n = e.file_name().to_string_lossy().into_owned();
            m.extend(tree(&e.path()).into_iter().map(|(k, v)| (format!("{n}/{k}"), v)));
        }
    }
    m
}
/// Names that some code might confuse with this one.
fn near(rng: &mut Rng, n: &str) -> String {
    let (stem, ext) = n.rsplit_once('.').unwrap_or((n, ""));
    match rng.below(9) {
        0 => n.to_lowercase(),
        1 => n.to_uppercase(),
        2 => format!("{stem}.{}", ext.to_lowercase()),
        3 => format!("{stem}.{}", ext.to_uppercase()),
        4 => stem.to_string(),
        5 => format!("{stem}.icm"),
        6 => n.trim_end_matches(['~', ' ']).to_string(),
        7 => format!(".{n}"),
        _ => n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

pub fn c08(o: &Opts, rec: &mut Rec) {
    // what belongs to the process: its working, temporary and home directory (check.py makes them one empty directory)
    let home = std::env::temp_dir();
    let mine = std::env::var("HOME").is_ok_and(|h| Path::new(&h) == home);
    let home_before = mine.then(|| tree(&home));
    let real = real_profile();
    let run = |rec: &mut Rec, rng: &mut Rng, n: u64, nobody: bool, d: PathBuf| {
        let mut ctx = Context::new(None);
        for _ in 0..n {
            let c = content(rng, &o.dict, &real, Want::Any);
            if c.len > 100_000 {
                continue;
            }
            let mut full = c.head.clone();
            full.resize(c.len as usize, 0);
            fs::write(d.join("a.icc"), &full).expect("scratch");
            if rng.chance(1, 8) || !d.join("b.icc").exists() {
                fs::write(d.join("b.icc"), &full[..full.len() / 2]).expect("scratch");
                let _ = fs::remove_file(d.join("link.icc"));
                let _ = std::os::unix::fs::symlink("a.icc", d.join("link.icc"));
                let _ = fs::remove_file(d.join("dangling.icc"));
                let _ = std::os::unix::fs::symlink("target.icc", d.join("dangling.icc"));
                let _ = fs::remove_file(d.join("ro.icc"));
                fs::write(d.join("ro.icc"), &full).expect("scratch");
                fs::set_permissions(d.join("ro.icc"), fs::Permissions::from_mode(0o444)).unwrap();
                let _ = fs::create_dir(d.join("sub"));
            }
            // files of a name of its own, and what some code might put next to it
            let own = names(rng, o);
            let mut other = format!("{own}{}", rng.pick(&[".bak", ".tmp", ".lock", "~", ".icc", ".cache", ".idx"]));
            if rng.chance(1, 2) {
                let n = near(rng, &own);
                if !n.is_empty() && n != own && n != "." && n != ".." && n.len() < 250 {
                    other = n;
                }
            }
            let (has_own, has_other) = (rng.chance(1, 2), rng.chance(1, 3));
            let clash = d.join(&own).exists() || d.join(&other).exists();
            if !clash && has_own {
                fs::write(d.join(&own), &full).expect("scratch");
            }
            if !clash && has_other {
                fs::write(d.join(&other), &full[..full.len().min(9)]).expect("scratch");
            }
            old_times(&d);
            let before = snap_all(&d);
            enter(rec.worker, "opening for reading", &c.head);
            let mut held = vec![];
            let mut script = vec![];
            for _ in 0..1 + rng.below(4) {
                let name = *rng.pick(&[&own[..], &own, "a.icc", "a.icc", "a.icc", "ro.icc", "b.icc", "link.icc", "dangling.icc", "missing.icc", "sub", "sub/none.icc", "nodir/x.icc"]);
                let entry = rng.below(2);
                script.push(format!("open {name} ({})", if entry == 0 { "global" } else { "explicit" }));
                let p = d.join(name);
                let det = || format!("{script:?} in a directory whose a.icc is: {}", c.describe());
                let (r, changes) = watched(|| rec.lib("open", det, || open_by(entry, &mut ctx, &p)));
                if !changes.is_empty() {
                    rec.violate("calls", format!("opening for reading made calls that change a file system: {changes:?}"), det());
                }
                let Some(r) = r else { continue };
                rec.count(if r.is_ok() { "opened" } else { "not opened" }, 1);
                if nobody && name == "ro.icc" {
                    // it may be read: the outcome is that of the content
                    let want = model::open(&model::Content::new(fs::read(&p).unwrap_or_default())).is_ok();
                    rec.count("read-only file opened without write permission", 1);
                    if r.is_ok() != want {
                        rec.violate("readonly", format!("a read-only file of a user without write permission gives {:?}", kind_of(&r)), det());
                    }
                }
                if let Ok(p) = r {
                    let (_, changes) = watched(|| rec.lib("queries", det, || (p.get_tag_count(), p.get_tag_signature(0), format!("{p:?}").len())));
                    if !changes.is_empty() {
                        rec.violate("calls", format!("queries made calls that change a file system: {changes:?}"), det());
                    }
                    if rng.chance(1, 2) {
                        held.push(p);
                    }
                }
                let now = snap_all(&d);
                if now != before {
                    rec.violate("changed", format!("opening for reading changed the directory: {}", diff(&before, &now)), det());
                    break;
                }
            }
            let ((), changes) = watched(|| drop(held));
            if !changes.is_empty() {
                rec.violate("calls", format!("dropping profiles made calls that change a file system: {changes:?}"), format!("{script:?}"));
            }
            let now = snap_all(&d);
            rec.case(c.hash() ^ hash(script.join(",").as_bytes()));
            rec.count("directories compared", 1);
            if now != before {
                rec.violate("dropped", format!("dropping profiles changed the directory: {}", diff(&before, &now)), format!("{script:?}; a.icc is {}", c.describe()));
            }
            if !clash {
                let _ = fs::remove_file(d.join(&own));
                let _ = fs::remove_file(d.join(&other));
            }
            rec.sample(|| format!("{script:?} left {:?} unchanged", before.keys().collect::<Vec<_>>()));
            if enough() || o.over_budget() {
                break;
            }
        }
        leave(rec.worker);
    };
    par(o, rec, 0x08, o.n(8, 60_000, 1_500_000), |rec, rng, _f, n| {
        let d = dir_for(o, &format!("c08-{}", rec.worker));
        run(rec, rng, n, false, d);
    });
    // the same as a user without special rights
    let d = dir_for(o, "c08-nobody");
    let r = std::thread::scope(|s| {
        s.spawn(|| {
            let mut r = Rec::new(40);
            register(40);
            if become_nobody() {
                let mut rng = Rng::new(o.seed, 0x0808);
                run(&mut r, &mut rng, o.n(5, 4_000, 100_000), true, d);
            } else {
                r.count("could not switch user", 1);
            }
            unregister(40);
            r
        })
        .join()
        .unwrap()
    });
    rec.merge(r);
    // files whose claimed and real lengths lie far apart, beyond 4 GiB too
    let d = dir_for(o, "c08-big");
    let mut rng = Rng::new(o.seed, 0x8b16);
    for k in 0..o.n(1, 300, 5_000) {
        let mut c = crate::gen::structured(&mut rng, &o.dict, Want::Tags);
        let len = *rng.pick(&[1u64 << 20, (1 << 32) - 1, 1 << 32, (1 << 32) + 200, 1 << 33]);
        c.put32(0, *rng.pick(&[len as u32, (len as u32).wrapping_add(4), 132, 0xffff_ffff, 0]));
        let p = d.join("big.icc");
        fs::write(&p, &c.head).expect("scratch");
        fs::File::options().write(true).open(&p).and_then(|f| f.set_len(len)).expect("scratch");
        old_times(&d);
        let look = || {
            let m = fs::metadata(&p).ok()?;
            let mut h = vec![0; c.head.len()];
            std::os::unix::fs::FileExt::read_exact_at(&fs::File::open(&p).ok()?, &mut h, 0).ok()?;
            Some((m.len(), m.mtime(), m.mtime_nsec(), m.blocks(), h, fs::metadata(&d).ok()?.mtime_nsec()))
        };
        let before = look();
        let mut ctx = Context::new(None);
        rec.case(c.hash() ^ len);
        let det = || format!("length {len}, {}", c.describe());
        let (_, changes) = watched(|| rec.lib("open", det, || open_by(k % 2, &mut ctx, &p).map(|p| p.get_tag_count()).is_ok()));
        if !changes.is_empty() {
            rec.violate("calls", format!("opening a large file for reading made calls that change a file system: {changes:?}"), det());
        }
        rec.count("files of a megabyte and more", 1);
        if look() != before {
            rec.violate("big", "opening a large file for reading changed it or its directory", det());
        }
        if enough() {
            break;
        }
    }
    let _ = fs::remove_file(d.join("big.icc"));
    // relative names: nothing appears in the working directory either
    let d = dir_for(o, "c08-cwd");
    let was = std::env::current_dir().ok();
    if std::env::set_current_dir(&d).is_ok() {
        for name in ["missing.icc", "none/missing.icc", "sRGB.icc"] {
            for entry in 0..2 {
                let mut ctx = Context::new(None);
                let before = snap_all(&d);
                rec.enumerate(1);
                rec.lib("open", || name.into(), || open_by(entry, &mut ctx, name).is_ok());
                if snap_all(&d) != before {
                    rec.violate("cwd", format!("opening a missing relative path changed the directory: {}", diff(&before, &snap_all(&d))), name);
                }
                rec.count("relative paths", 1);
            }
        }
    }
    if let Some(w) = was {
        let _ = std::env::set_current_dir(w);
    }
    if let Some(b) = home_before {
        let now = tree(&home);
        rec.count("home, temporary and working directory compared", 1);
        if now != b {
            rec.violate("home", format!("something changed in the home or temporary directory: {}", diff(&b, &now)), "all of the above");
        }
    }
}

thread_local! {
    /// when the last open for writing began
    pub static BEGAN: std::cell::Cell<Option<std::time::SystemTime>> = const { std::cell::Cell::new(None) };
}
fn open_write(entry: u64, ctx: &mut Context, p: &Path) -> std::io::Result<Box<Profile>> {
    BEGAN.with(|b| b.set(Some(std::time::SystemTime::now())));
    if entry == 0 {
        Profile::open_from_file(p, AccessMode::Write)
    } else {
        Profile::open_from_file_thr(ctx, p, AccessMode::Write)
    }
}
/// The descriptors of this process that refer to the file, with their open flags.
fn descriptors_of(p: &Path) -> Vec<i32> {
    let Ok(real) = fs::canonicalize(p) else { return vec![] };
    let mut v = vec![];
    for e in fs::read_dir("/proc/self/fd").expect("fd").flatten() {
        if fs::read_link(e.path()).is_ok_and(|l| l == real) {
            if let Ok(fd) = e.file_name().to_string_lossy().parse::<i32>() {
                v.push(unsafe { libc::fcntl(fd, libc::F_GETFL) });
            }
        }
    }
    v
}
/// What must be true of a freshly write-opened profile, in terms of public queries; extended by the probe variant.
pub fn fresh(p: &Profile) -> Result<(), String> {
    if p.get_tag_count() != 0 {
        return Err(format!("it has {} tags", p.get_tag_count()));
    }
    for i in [0, 1, 99, 100] {
        let s: u32 = p.get_tag_signature(i).into();
        if s != 0x2020_2020 {
            return Err(format!("its tag {i} has signature {s:#x}"));
        }
    }
    if p.get_io_handler().is_none() {
        return Err("it has no I/O handler".into());
    }
    Ok(())
}

pub fn c09(o: &Opts, rec: &mut Rec, extra: &(dyn Fn(&Profile) -> Result<(), String> + Sync)) {
    let real = real_profile();
    // a local time far from the universal one
    std::env::set_var("TZ", "AAA-13:30");
    par(o, rec, 0x09, o.n(8, 60_000, 1_500_000), |rec, rng, _f, n| {
        let d = dir_for(o, &format!("c09-{}", rec.worker));
        let _ = fs::create_dir(d.join("sub"));
        let mut ctx = Context::new(if rng.chance(1, 2) { None } else { Some(vec![7; 5].into()) });
        let mut held: Vec<(Box<Profile>, PathBuf)> = vec![];
        for _ in 0..n {
            let own = names(rng, o);
            let name = *rng.pick(&[&own[..], &own, "new.icc", "a.icc", "b.icc", "link.icc", "other name.icm", "sub/c.icc", "ro.icc", ".h"]);
            let p = d.join(name);
            let c = content(rng, &o.dict, &real, Want::Any);
            let mut full = c.head.clone();
            full.resize(c.len.min(70_000) as usize, 0);
            let what = rng.below(6);
            match what {
                0 => {
                    let _ = fs::remove_file(&p);
                }
                1 | 2 => fs::write(&p, &full).expect("scratch"),
                3 if name == own && rng.chance(1, 4) => {
                    // a large one
                    fs::write(&p, &full).expect("scratch");
                    let _ = fs::File::options().write(true).open(&p).and_then(|f| f.set_len(full.len() as u64 + rng.below(3_000_000)));
                }
                3 => fs::write(&p, b"").expect("scratch"),
                4 if name == "link.icc" => {
                    let _ = fs::remove_file(&p);
                    let _ = std::os::unix::fs::symlink("pointed.icc", &p);
                    if rng.chance(1, 2) {
                        fs::write(d.join("pointed.icc"), &full).expect("scratch");
                    }
                }
                _ => {}
            }
            if rng.chance(1, 4) {
                fs::write(d.join("neighbour.icc"), &full).expect("scratch");
                fs::write(d.join("new.ic"), b"x").expect("scratch");
            }
            // a mode that does not bind the privileged, and a lock of someone else
            if rng.chance(1, 4) {
                let m = *rng.pick(&[0o444, 0o400, 0, 0o755, 0o644, 0o666, 0o222, 0o4755]);
                if fs::set_permissions(&p, fs::Permissions::from_mode(m)).is_ok() {
                    rec.count("modes set before", 1);
                }
            }
            let other = if rng.chance(1, 6) { fs::File::options().read(true).write(rng.chance(1, 2)).open(&p).ok() } else { None };
            if let Some(f) = &other {
                unsafe { libc::flock(f.as_raw_fd(), *rng.pick(&[libc::LOCK_EX, libc::LOCK_SH, libc::LOCK_UN]) | libc::LOCK_NB) };
                rec.count("files in use by others", 1);
            }
            old_times(&d);
            let target = if name == "link.icc" { fs::read_link(&p).map(|l| d.join(l)).unwrap_or(p.clone()) } else { p.clone() };
            let key = target.strip_prefix(&d).unwrap().to_string_lossy().into_owned();
            let (before, sub) = (snap(&d), snap(&d.join("sub")));
            let entry = rng.below(2);
            enter(rec.worker, "opening for writing", name.as_bytes());
            rec.case(c.hash() ^ hash(name.as_bytes()) ^ what);
            let det = || format!("path {name}, entry {entry}, earlier content: {}", if before.contains_key(&key) || sub.contains_key("c.icc") { c.describe() } else { "none".into() });
            // now and then another profile is opened for reading first, in the same context
            if rng.chance(1, 4) {
                rec.lib("open", det, || open_by(entry, &mut ctx, d.join("neighbour.icc")).is_ok());
            }
            let Some(r) = rec.lib("open for writing", det, || open_write(entry, &mut ctx, &p)) else { continue };
            let q = match r {
                Ok(q) => q,
                Err(e) => {
                    rec.violate("failed", format!("opening for writing fails: {e:?}"), det());
                    continue;
                }
            };
            if let Some(Err(e)) = rec.lib("queries", det, || fresh(&q).and_then(|_| extra(&q))) {
                rec.violate("fresh", format!("the profile opened for writing is not empty and fresh: {e}"), det());
            }
            rec.lib("debug", det, || format!("{q:?}").len());
            match fs::metadata(&p) {
                Ok(m) if m.is_file() && m.len() == 0 => {}
                m => rec.violate("file", format!("after opening for writing the file is {:?}", m.map(|m| m.len())), det()),
            }
            let mut now = snap(&d);
            let mut exp = before.clone();
            if !name.starts_with("sub/") {
                now.remove(&key);
                exp.remove(&key);
            } else {
                // only the time of the directory may differ
                now.remove("sub");
                exp.remove("sub");
                let mut s2 = snap(&d.join("sub"));
                let mut s1 = sub.clone();
                s1.remove("c.icc");
                s2.remove("c.icc");
                if s1 != s2 {
                    rec.violate("others", format!("opening for writing changed other files: {}", diff(&s1, &s2)), det());
                }
            }
            if now != exp {
                rec.violate("others", format!("opening for writing changed other files: {}", diff(&exp, &now)), det());
            }
            if rng.chance(1, 16) {
                let fl = descriptors_of(&p);
                rec.count("descriptor modes inspected", 1);
                if !fl.iter().any(|f| f & libc::O_ACCMODE != libc::O_RDONLY) {
                    rec.violate("mode", format!("no descriptor open for writing on the file (open flags {fl:?})"), det());
                }
            }
            rec.count("write opens", 1);
            if before.get(&key).is_some_and(|s| s.len > 0) {
                rec.count("earlier content replaced", 1);
            }
            rec.sample(|| format!("open {name} for writing over {} bytes: empty file, fresh profile", before.get(&key).map_or(0, |s| s.len)));
            if rng.chance(1, 3) {
                held.push((q, p));
                if held.len() > 5 {
                    held.remove(rng.below(5) as usize);
                }
            } else {
                drop(q);
                // dropping writes nothing
                if fs::metadata(&p).map(|m| m.len()).ok() != Some(0) {
                    rec.violate("dropped", "dropping a profile opened for writing changed the file", det());
                }
            }
            if name == own && !held.iter().any(|h| h.1 == d.join(name)) {
                let _ = fs::remove_file(d.join(name));
            }
            // an empty file does not open for reading
            if name != own && rng.chance(1, 6) {
                let Some(r) = rec.lib("open", det, || open_by(entry, &mut ctx, d.join(name))) else { continue };
                if kind_of(&r) != Some(std::io::ErrorKind::UnexpectedEof) {
                    rec.violate("reread", format!("reading the empty file gives {:?}", r.map(|_| "a profile")), det());
                }
            }
            if enough() || o.over_budget() {
                break;
            }
        }
        leave(rec.worker);
    });
    // paths where no file can be created
    let go = |rec: &mut Rec, nobody: bool, d: &Path| {
        let mut ctx = Context::new(None);
        let mut list: Vec<(PathBuf, Option<std::io::ErrorKind>)> = vec![
            (d.join("nodir/x.icc"), Some(std::io::ErrorKind::NotFound)),
            (d.join("plain/x.icc"), None),
            (d.join("sub"), None),
            (d.join("sub/"), None),
            ("".into(), None),
            ("z\0z".into(), None),
            (d.join("n".repeat(400)), None),
        ];
        let number = |n: i32| Some(std::io::Error::from_raw_os_error(n).kind());
        list.extend(
            [
                ("sub", libc::EISDIR),
                ("sub/.", libc::EISDIR),
                ("sub/..", libc::EISDIR),
                ("new/", libc::EISDIR),
                ("plain/", libc::EISDIR),
                ("plain/.", libc::ENOTDIR),
                ("plain/../x", libc::ENOTDIR),
                ("loop", libc::ELOOP),
                ("loop/x", libc::ELOOP),
                ("broken/x", libc::ENOENT),
                ("to nowhere", libc::ENOENT),
                ("to dir", libc::EISDIR),
                ("to self", libc::EISDIR),
                ("nodir/../x", libc::ENOENT),
                ("socket", libc::ENXIO),
                ("missing/deep/down/x.icc", libc::ENOENT),
            ]
            .map(|(n, e)| (d.join(n), number(e))),
        );
        for n in [256, 257, 300, 1000, 5000] {
            list.push((d.join("n".repeat(n)), number(libc::ENAMETOOLONG)));
        }
        if nobody {
            list.push((d.join("locked/x.icc"), Some(std::io::ErrorKind::PermissionDenied)));
            list.push((d.join("readonly.icc"), Some(std::io::ErrorKind::PermissionDenied)));
        }
        for (p, k) in list {
            for entry in 0..2 {
                let before = snap(d);
                rec.enumerate(1);
                rec.count("paths that cannot be created", 1);
                let det = || format!("path {p:?} entry {entry}");
                match rec.lib("open for writing", det, || open_write(entry, &mut ctx, &p)) {
                    Some(Ok(_)) => rec.violate("created", "opening an impossible path for writing succeeds", det()),
                    Some(Err(e)) => {
                        if k.is_some_and(|k| k != e.kind()) || e.raw_os_error().is_none() && !p.to_string_lossy().contains('\0') {
                            rec.violate("error", format!("opening an impossible path for writing gives {e:?}, not the system's error"), det());
                        }
                    }
                    None => {}
                }
                let now = snap(d);
                if now != before {
                    rec.violate("touched", format!("a failed open for writing changed files: {}", diff(&before, &now)), det());
                }
            }
        }
    };
    // sparse files beyond 4 GiB
    let d = dir_for(o, "c09-big");
    for (k, len) in [1u64 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 3 << 32].into_iter().enumerate() {
        let p = d.join(format!("big{k}.icc"));
        fs::write(&p, b"head").expect("scratch");
        fs::File::options().write(true).open(&p).and_then(|f| f.set_len(len)).expect("scratch");
        let mut ctx = Context::new(None);
        rec.enumerate(1);
        let r = rec.lib("open for writing", || format!("length {len}"), || open_write(k as u64 % 2, &mut ctx, &p).map(|_| ()));
        if !matches!(r, Some(Ok(()))) || fs::metadata(&p).map(|m| m.len()).ok() != Some(0) {
            rec.violate("big", format!("opening a file of {len} bytes for writing gives {r:?} and leaves {:?}", fs::metadata(&p).map(|m| m.len())), format!("{len}"));
        }
        let _ = fs::remove_file(&p);
    }
    let d = dir_for(o, "c09-err");
    let _ = fs::create_dir(d.join("sub"));
    let _ = fs::create_dir(d.join("locked"));
    fs::write(d.join("plain"), b"data").unwrap();
    fs::write(d.join("readonly.icc"), b"data").unwrap();
    fs::set_permissions(d.join("locked"), fs::Permissions::from_mode(0o555)).unwrap();
    fs::set_permissions(d.join("readonly.icc"), fs::Permissions::from_mode(0o444)).unwrap();
    for (l, t) in [("loop", "loop"), ("broken", "none"), ("to nowhere", "none/x"), ("to dir", "sub"), ("to self", ".")] {
        let _ = std::os::unix::fs::symlink(t, d.join(l));
    }
    let _ = std::os::unix::net::UnixListener::bind(d.join("socket"));
    let _ = fs::set_permissions(d.join("socket"), fs::Permissions::from_mode(0o777));
    go(rec, false, &d);
    let r = std::thread::scope(|s| {
        s.spawn(|| {
            let mut r = Rec::new(40);
            if become_nobody() {
                go(&mut r, true, &d);
                // files that this user may write but not read, and directories where it may create but not list
                let mut ctx = Context::new(None);
                let open = d.join("drop");
                let _ = fs::create_dir(&open);
                for (k, mode) in [0o222, 0o200, 0o600, 0o666, 0o777].into_iter().enumerate() {
                    for entry in 0..2 {
                        for old in 0..2 {
                            let p = open.join(format!("w{k}{entry}{old}.icc"));
                            if old == 1 {
                                let _ = fs::write(&p, b"what was there before");
                                let _ = fs::set_permissions(&p, fs::Permissions::from_mode(mode));
                            }
                            let _ = fs::set_permissions(&open, fs::Permissions::from_mode(0o300));
                            r.enumerate(1);
                            r.count("files that may only be written", 1);
                            let det = || format!("path {p:?} with mode {mode:o}, {} before, directory without reading", ["absent", "there"][old]);
                            match r.lib("open for writing", det, || open_write(entry, &mut ctx, &p)) {
                                Some(Ok(q)) => {
                                    if let Err(e) = fresh(&q).and_then(|_| extra(&q)) {
                                        r.violate("fresh", format!("the profile opened for writing is not empty and fresh: {e}"), det());
                                    }
                                }
                                Some(Err(e)) => r.violate("failed", format!("opening for writing fails: {e:?}"), det()),
                                None => {}
                            }
                            let _ = fs::set_permissions(&open, fs::Permissions::from_mode(0o700));
                            if fs::metadata(&p).map(|m| m.len()).ok() != Some(0) {
                                r.violate("file", "after opening for writing the file is not empty", det());
                            }
                        }
                    }
                }
            }
            r
        })
        .join()
        .unwrap()
    });
    rec.merge(r);
    // relative path
    let d = dir_for(o, "c09-cwd");
    let was = std::env::current_dir().ok();
    if std::env::set_current_dir(&d).is_ok() {
        for entry in 0..2 {
            let mut ctx = Context::new(None);
            let name = format!("rel{entry}.icc");
            rec.enumerate(1);
            let r = rec.lib("open for writing", || name.clone(), || open_write(entry, &mut ctx, Path::new(&name)).map(|_| ()));
            if !matches!(r, Some(Ok(()))) || !d.join(&name).is_file() {
                rec.violate("relative", format!("opening a relative path for writing gives {r:?}"), name);
            }
        }
    }
    if let Some(w) = was {
        let _ = std::env::set_current_dir(w);
    }
    let _ = std::io::stdout().as_raw_fd();
}
