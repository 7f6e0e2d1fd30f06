//! C16 and C17: the file system misbehaves, and the record of calls around a close.
use crate::bed::{fingerprint, Bed};
use crate::gen::{real_profile, structured, Want};
use crate::prof::open_by;
use crate::rt::*;
use crate::sys::{under, Ev, Kind, Plan};
use lcms2::io::{AccessMode, FileMem, FileNull, IOHandler};
use lcms2::state::Context;
use lcms2::types::Profile;
use std::fs::{File, OpenOptions};
use std::io::{self, SeekFrom};
use std::path::Path;

const ERRNOS: [i32; 12] = [libc::EIO, libc::ENOSPC, libc::EINVAL, libc::EBADF, libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENOMEM, libc::EAGAIN, libc::EOVERFLOW, libc::EISDIR, libc::ESTALE];

/// What an operation gave: Ok with everything that can be compared, or the kind of error.
#[derive(Debug, Clone, PartialEq)]
enum Out {
    Value(Vec<u8>),
    Err(io::ErrorKind),
}
fn run_plan(rec: &mut Rec, det: &dyn Fn() -> String, plan: Plan, f: &mut dyn FnMut() -> io::Result<Vec<u8>>) -> Option<(Out, Vec<Ev>)> {
    let (r, mut log) = under(plan, || guarded(f));
    // notes about another call, not calls
    log.retain(|e| e.kind != Kind::Change);
    match r {
        Ok(Ok(v)) => Some((Out::Value(v), log)),
        Ok(Err(e)) => Some((Out::Err(e.kind()), log)),
        Err(m) => {
            rec.violate("panic", format!("panic under {plan:?}: {m}"), det());
            None
        }
    }
}
/// Fails each system call of the operation in turn; and runs it with transfers that are short or interrupted.
/// `reset` restores the state before each run.
fn torment(rec: &mut Rec, rng: &mut Rng, what: &str, tier: &Tier, det: &dyn Fn() -> String, reset: &mut dyn FnMut(), f: &mut dyn FnMut() -> io::Result<Vec<u8>>) {
    reset();
    let Some((base, log)) = run_plan(rec, det, Plan::default(), f) else { return };
    rec.count(&format!("undisturbed: {what}"), 1);
    rec.count("system calls of undisturbed operations", log.len() as u64);
    let calls: Vec<(usize, Kind)> = log.iter().enumerate().map(|(i, e)| (i, e.kind)).collect();
    for (i, kind) in calls {
        if kind == Kind::Close {
            continue;
        }
        let mut errs: Vec<i32> = if *tier == Tier::Thorough { ERRNOS.to_vec() } else { vec![*rng.pick(&ERRNOS), libc::EIO] };
        // any error number but the interruption, which is retried
        for _ in 0..2 {
            errs.push(match rng.below(133) as i32 + 1 {
                libc::EINTR => libc::EPERM,
                e => e,
            });
        }
        if kind == Kind::Seek {
            errs.push(libc::ESPIPE);
        }
        if matches!(kind, Kind::Read | Kind::Write) {
            errs.push(0);
        }
        if kind == Kind::Seek {
            errs.push(libc::EINTR);
        }
        for errno in errs {
            for on in [false, true] {
                // a read that transfers nothing is the end of the file
                reset();
                let plan = Plan { at: Some(i as u32), errno, on, ..Plan::default() };
                let Some((out, flog)) = run_plan(rec, &|| format!("{}; {plan:?}", det()), plan, f) else { continue };
                rec.case(hash(format!("{what}{i}{kind:?}{errno}{on}{}", det()).as_bytes()));
                rec.count(&format!("fault in {kind:?}"), 1);
                if flog.len() <= i || flog[i].ret > 0 {
                    // the fault was not reached: nothing to judge (never on a deterministic operation)
                    rec.count("fault not reached", 1);
                    continue;
                }
                if let Out::Value(v) = &out {
                    if log[i].arg == 0 && errno == 0 {
                        continue; // nothing was asked for, nothing came
                    }
                    if kind == Kind::Stat && out == base {
                        // a hint may do without
                        rec.count("call not needed", 1);
                        continue;
                    }
                    if errno == 0 && kind == Kind::Read && log[i].ret == 0 && !on {
                        continue; // it was the end of the file anyway
                    }
                    rec.violate(
                        format!("swallowed:{kind:?}"),
                        format!("{what}: call {i} ({kind:?}) fails with error {errno} (and what follows: {on}), the operation succeeds with {}", hex(&v[..v.len().min(80)])),
                        det(),
                    );
                }
            }
        }
    }
    for round in 0..if *tier == Tier::Thorough { 24 } else { 6 } {
        reset();
        let plan = Plan { rng: rng.u64() | 1, short: round % 3 != 1, eintr: round % 3 != 0, ..Plan::default() };
        let Some((out, dlog)) = run_plan(rec, &|| format!("{}; {plan:?}", det()), plan, f) else { continue };
        rec.case(hash(format!("{what}{plan:?}{}", det()).as_bytes()));
        rec.count("disturbed runs", 1);
        rec.count("short or interrupted transfers", dlog.iter().filter(|e| e.err == libc::EINTR || (matches!(e.kind, Kind::Read | Kind::Write) && e.ret > 0 && e.ret < e.arg)).count() as u64);
        if out != base {
            rec.violate("disturbed", format!("{what}: with short or interrupted transfers the result is {:.300}, undisturbed it is {:.300}", format!("{out:?}"), format!("{base:?}")), format!("{}; {plan:?}", det()));
        }
    }
}
fn start_of(p: &Path, most: u64) -> Vec<u8> {
    use std::io::Read;
    let mut v = vec![];
    if let Ok(f) = File::open(p) {
        let _ = f.take(most).read_to_end(&mut v);
    }
    v
}

pub fn c16(o: &Opts, rec: &mut Rec) {
    let real = real_profile();
    par(o, rec, 0x16, o.n(8, 6_000, 120_000), |rec, rng, first, n| {
        let w = rec.worker;
        let bed = Bed::new(&o.scratch, &format!("c16-{w}"));
        let mut ctx = Context::new(None);
        for k in first..first + n {
            let want = if rng.chance(1, 6) { Want::Any } else { Want::Good };
            let mut c = if k % 16 == 0 { real.clone() } else { structured(rng, &o.dict, want) };
            if k % 3 != 0 && c.be32(128) > 8 {
                let m = rng.below(9) as u32;
                c.put32(128, m);
            }
            if rng.chance(1, 2) {
                c.len = c.head.len() as u64;
            }
            bed.put(&c);
            let entry = rng.below(2);
            enter(w, "open under faults", &c.head);
            let det = || c.describe();
            let path = bed.path.clone();
            torment(rec, rng, "opening a profile", &o.tier, &det, &mut || {}, &mut || open_by(entry, &mut ctx, &path).map(|p| fingerprint(&p).into_bytes()));
            if k % 4 == 0 {
                let out = Path::new(&o.scratch).join(format!("c16-{w}.out"));
                torment(rec, rng, "opening for writing", &o.tier, &|| "write".into(), &mut || {}, &mut || {
                    let p = if entry == 0 { Profile::open_from_file(&out, AccessMode::Write) } else { Profile::open_from_file_thr(&mut ctx, &out, AccessMode::Write) }?;
                    // the creation time differs
                    Ok(vec![p.get_tag_count() as u8, p.get_io_handler().is_some() as u8])
                });
            }
            if enough() {
                break;
            }
        }
        leave(w);
        rec.sample(|| "each system call of opening a generated profile failed in turn; then short and interrupted transfers".into());
    });
    par(o, rec, 0x1602, o.n(10, 20_000, 400_000), |rec, rng, _f, n| {
        let w = rec.worker;
        let path = Path::new(&o.scratch).join(format!("c16io-{w}"));
        for _ in 0..n {
            let len = *rng.pick(&[0usize, 1, 5, 40, 300]);
            let mut start = vec![0u8; len];
            rng.fill(&mut start);
            let at = rng.below(len as u64 + 3);
            let op = rng.below(16);
            let m = *rng.pick(&[1usize, 2, 7, 33, 200]);
            let mut data = vec![0u8; m];
            rng.fill(&mut data);
            let seed = rng.u64();
            let name = ["read", "write", "seek", "seek from the end", "seek from here", "tell", "size", "read_u8", "read_u16", "read_u32", "read_u64", "read_xyz", "read_u16_array", "write_u64", "write_u16_array", "write_xyz"][op as usize];
            enter(w, "file handler under faults", name.as_bytes());
            let det = || format!("{name} of {m} on a file of {len} bytes at {at}");
            let (p1, p2) = (path.clone(), path.clone());
            let cell: std::cell::RefCell<Option<File>> = std::cell::RefCell::new(None);
            let mut reset = || {
                std::fs::write(&p1, &start).expect("scratch");
                let mut f = OpenOptions::new().read(true).write(true).open(&p1).expect("scratch");
                io::Seek::seek(&mut f, SeekFrom::Start(at)).expect("scratch");
                *cell.borrow_mut() = Some(f);
            };
            torment(rec, rng, name, &o.tier, &det, &mut reset, &mut || {
                let mut g = cell.borrow_mut();
                let f = g.as_mut().expect("file");
                let mut v = match op {
                    0 => {
                        let mut b = vec![0; m];
                        IOHandler::read(f, &mut b)?;
                        b
                    }
                    1 => {
                        IOHandler::write(f, &data)?;
                        vec![]
                    }
                    2 => IOHandler::seek(f, SeekFrom::Start(seed % 999)).map(|_| vec![])?,
                    3 => IOHandler::seek(f, SeekFrom::End(-((seed % (len as u64 + 1)) as i64))).map(|_| vec![])?,
                    4 => IOHandler::seek(f, SeekFrom::Current((seed % 50) as i64)).map(|_| vec![])?,
                    5 => f.tell()?.to_be_bytes().to_vec(),
                    6 => f.reported_size()?.to_be_bytes().to_vec(),
                    7 => vec![f.read_u8()?],
                    8 => f.read_u16()?.to_be_bytes().to_vec(),
                    9 => f.read_u32()?.to_be_bytes().to_vec(),
                    10 => f.read_u64()?.to_be_bytes().to_vec(),
                    11 => {
                        let x = f.read_xyz()?;
                        [x.X, x.Y, x.Z].iter().flat_map(|v| v.to_be_bytes()).collect()
                    }
                    12 => {
                        let mut b = vec![0u16; m / 2];
                        f.read_u16_array(&mut b)?;
                        b.iter().flat_map(|v| v.to_be_bytes()).collect()
                    }
                    13 => f.write_u64(seed).map(|_| vec![])?,
                    14 => f.write_u16_array(&data.iter().map(|b| u16::from(*b) << 7).collect::<Vec<_>>()).map(|_| vec![])?,
                    _ => f.write_xyz(lcms2::types::CIEXYZ { X: 0.5, Y: -1.25, Z: 100.0 }).map(|_| vec![])?,
                };
                // what the file holds and where the handler stands, read behind its back
                use std::os::fd::AsRawFd;
                let pos = unsafe { libc::syscall(libc::SYS_lseek, f.as_raw_fd(), 0, libc::SEEK_CUR) };
                v.extend_from_slice(&pos.to_be_bytes());
                if matches!(op, 1 | 13..=15) {
                    let mut all = vec![0u8; 4096];
                    let k = unsafe { libc::syscall(libc::SYS_pread64, f.as_raw_fd(), all.as_mut_ptr(), all.len(), 0) };
                    v.extend_from_slice(&all[..k.max(0) as usize]);
                }
                Ok(v)
            });
            let _ = p2;
            if enough() {
                break;
            }
        }
        leave(w);
        rec.sample(|| "file handler operations (raw, typed, size) at every position with each of their system calls failed".into());
    });
}

const TWISTS: [&str; 18] = [
    "in append mode", "truncated when opened", "opened with O_SYNC", "opened with O_DSYNC", "opened with O_NONBLOCK", "created anew", "with a high descriptor", "with a second descriptor", "made read-only meanwhile",
    "without any permission", "removed meanwhile", "renamed meanwhile", "linked meanwhile", "with an old time", "extended meanwhile", "truncated meanwhile", "synced before", "that is locked",
];
pub fn c17(o: &Opts, rec: &mut Rec) {
    par(o, rec, 0x17, o.n(10, 200_000, 3_000_000), |rec, rng, _f, n| {
        let w = rec.worker;
        let path = Path::new(&o.scratch).join(format!("c17-{w}"));
        for _ in 0..n {
            let start: Vec<u8> = (0..rng.below(60)).map(|i| i as u8).collect();
            std::fs::write(&path, &start).expect("scratch");
            // what else may be going on with the file
            let twist = rng.below(24);
            use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
            let mut how = OpenOptions::new();
            how.read(rng.chance(3, 4)).write(true);
            let mut how2 = how.clone();
            match twist {
                0 => drop(how2.append(true)),
                1 => drop(how2.truncate(true)),
                2 => drop(how2.custom_flags(libc::O_SYNC)),
                3 => drop(how2.custom_flags(libc::O_DSYNC)),
                4 => drop(how2.custom_flags(libc::O_NONBLOCK)),
                _ => {}
            }
            if twist == 5 {
                let _ = std::fs::remove_file(&path);
                how2.create_new(true);
            }
            let start = if matches!(twist, 1 | 5) { vec![] } else { start };
            let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o644));
            let mut f = how2.open(&path).expect("scratch");
            use std::os::fd::AsRawFd;
            if twist == 6 {
                // a descriptor far from the others
                let hi = unsafe { libc::fcntl(f.as_raw_fd(), libc::F_DUPFD_CLOEXEC, 200 + w as i32) };
                assert!(hi >= 0, "scratch");
                f = unsafe { std::os::fd::FromRawFd::from_raw_fd(hi) };
            }
            let other = (twist == 7).then(|| f.try_clone().expect("scratch"));
            let fd = i64::from(f.as_raw_fd());
            let mut model = start.clone();
            let ops: Vec<(u64, u64)> = (0..rng.below(8)).map(|_| (rng.below(5), if rng.chance(1, 40) { rng.below(300_000) } else { rng.below(80) })).collect();
            let disturb = rng.chance(1, 4);
            let mut fail = *rng.pick(&[0, 0, 0, 0, -1, -1, libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EINVAL, libc::EROFS]);
            if fail < 0 {
                // any error there is, but for the one that asks for another try
                fail = 1 + rng.below(133) as i32;
                if fail == libc::EINTR {
                    fail = libc::EIO;
                }
            }
            enter(w, "writes and a close", format!("{ops:?} {fail}").as_bytes());
            let det = || format!("file of {} bytes, operations {ops:?}, circumstance {twist}, sync fails with {fail}", start.len());
            rec.case(hash(det().as_bytes()));
            // the history before the close
            let mut pos = 0usize;
            let (r, log1) = under(Plan { rng: rng.u64() | 1, short: disturb, eintr: disturb, ..Plan::default() }, || {
                guarded(|| -> io::Result<()> {
                    for &(op, k) in &ops {
                        match op {
                            0..=2 => {
                                let b = vec![k as u8; k as usize];
                                match op {
                                    0 if k % 2 == 0 => IOHandler::write(&mut f, &b)?,
                                    _ => IOHandler::write(&mut f, &b)?,
                                }
                                if twist == 0 && !b.is_empty() {
                                    pos = model.len();
                                }
                                if !b.is_empty() && model.len() < pos + b.len() {
                                    model.resize(pos + b.len(), 0);
                                }
                                if !b.is_empty() {
                                    model[pos..pos + b.len()].copy_from_slice(&b);
                                }
                                pos += b.len();
                            }
                            3 => {
                                IOHandler::seek(&mut f, SeekFrom::Start(k))?;
                                pos = k as usize;
                            }
                            _ => {
                                f.reported_size()?;
                            }
                        }
                    }
                    Ok(())
                })
            });
            match r {
                Ok(Ok(())) => {}
                other => {
                    rec.violate("write", format!("writing gives {other:?}"), det());
                    continue;
                }
            }
            let aside = path.with_extension("moved.icc");
            let mut hole = 0u64;
            match twist {
                8 => drop(std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o444))),
                9 => drop(std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0))),
                10 => drop(std::fs::remove_file(&path)),
                11 => drop(std::fs::rename(&path, &aside)),
                12 => drop(std::fs::hard_link(&path, &aside)),
                13 => drop(f.set_modified(std::time::SystemTime::UNIX_EPOCH)),
                14 => {
                    // a little, or far beyond (a hole)
                    let by = match rng.below(4) {
                        0 => rng.below(3_000_000),
                        1 => rng.below(5000),
                        2 => (1 << (20 + rng.below(21))) - rng.below(3),
                        _ => o.dict.u64(rng) >> rng.below(64),
                    }
                    .min(1 << 41);
                    if f.set_len(model.len() as u64 + by).is_ok() {
                        hole = by;
                        rec.count("closes of a file of 64 MiB or more", u64::from(by >= 1 << 26));
                    }
                }
                15 => drop(f.set_len(0).map(|()| model.clear())),
                16 => drop(f.sync_all()),
                17 => drop(unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) }),
                _ => {}
            }
            if let Some(t) = TWISTS.get(twist as usize) {
                rec.count(&format!("closes of a file {t}"), 1);
            }
            let every = (fail != 0).then_some(Kind::Sync);
            let (r, log2) = under(Plan { every, errno: fail, rng: rng.u64() | 1, eintr: disturb && fail == 0, ..Plan::default() }, || guarded(move || IOHandler::close(f)));
            let r = match r {
                Ok(r) => r,
                Err(m) => {
                    rec.violate("panic", format!("closing panics: {m}"), det());
                    continue;
                }
            };
            let log: Vec<Ev> = log1.into_iter().chain(log2).filter(|e| e.fd == fd).collect();
            let closes = log.iter().filter(|e| e.kind == Kind::Close).count();
            rec.count("system calls seen", log.len() as u64);
            if closes != 1 {
                rec.violate("close", format!("the descriptor is closed {closes} times"), det());
            }
            match (&r, fail) {
                (Ok(()), 0) => {
                    rec.count("successful closes", 1);
                    let last_write = log.iter().rposition(|e| e.kind == Kind::Write);
                    let close = log.iter().position(|e| e.kind == Kind::Close);
                    let synced = log.iter().enumerate().any(|(i, e)| e.kind == Kind::Sync && e.ret == 0 && last_write.map_or(true, |w| i > w) && close.is_some_and(|c| i < c));
                    if !synced {
                        rec.violate("sync", format!("closing succeeded, but the calls were {:?}", log.iter().map(|e| (e.kind, e.ret)).collect::<Vec<_>>()), det());
                    }
                    if log.iter().any(|e| e.kind == Kind::Write) {
                        rec.count("closes after writes", 1);
                    }
                    if matches!(twist, 8 | 9) {
                        let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o644));
                    }
                    let mut now = if twist == 10 { vec![] } else { start_of(if twist == 11 { &aside } else { &path }, if hole == 0 { u64::MAX } else { model.len() as u64 + hole.min(4096) }) };
                    if hole > 0 {
                        let len = std::fs::metadata(&path).expect("scratch").len();
                        if len != model.len() as u64 + hole || now[model.len().min(now.len())..].iter().any(|b| *b != 0) {
                            rec.violate("bytes", format!("after closing the file has {len} bytes, extended to {}", model.len() as u64 + hole), det());
                        }
                        now.truncate(model.len());
                    }
                    if twist != 10 && now != model {
                        rec.violate("bytes", format!("after closing the file holds {}, written was {}", hex(&now), hex(&model)), det());
                    }
                }
                (Err(e), 0) => rec.violate("error", format!("closing fails with {e:?} although the sync succeeds"), det()),
                (Ok(()), _) => rec.violate("swallowed", format!("the sync fails with error {fail}, closing succeeds"), det()),
                (Err(e), _) => {
                    rec.count("closes with a failing sync", 1);
                    if e.raw_os_error() != Some(fail) {
                        rec.violate("other error", format!("the sync fails with error {fail}, closing with {e:?}"), det());
                    }
                }
            }
            rec.sample(|| format!("{}: {:?}", det(), log.iter().map(|e| (e.kind, e.ret)).collect::<Vec<_>>()));
            drop(other);
            if matches!(twist, 8 | 9) {
                let _ = std::fs::remove_file(&path);
            }
            let _ = std::fs::remove_file(&aside);
            if enough() {
                break;
            }
        }
        leave(w);
    });
    // read-only descriptors, files without any write, memory and null handlers
    let path = Path::new(&o.scratch).join("c17-ro");
    std::fs::write(&path, b"abc").expect("scratch");
    for i in 0..o.n(4, 200, 2000) {
        rec.case(i);
        let f = File::open(&path).expect("scratch");
        let (r, log) = under(Plan::default(), || guarded(move || IOHandler::close(f)));
        if !matches!(r, Ok(Ok(()))) {
            rec.violate("read only", format!("closing a read-only file gives {r:?}"), String::new());
        }
        rec.count("read-only closes", 1);
        if log.iter().filter(|e| e.kind == Kind::Close).count() != 1 {
            rec.violate("close", format!("calls of a close: {log:?}"), String::new());
        }
        let mut b = [0u8; 9];
        for r in [guarded(|| FileNull::new().close()), guarded(|| FileMem::new(vec![1, 2]).close()), guarded(|| FileMem::new(&mut b[..]).close())] {
            rec.count("memory and null closes", 1);
            if !matches!(r, Ok(Ok(()))) {
                rec.violate("memory", format!("closing a memory or null handler gives {r:?}"), String::new());
            }
        }
    }
}
