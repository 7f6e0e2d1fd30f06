//! C26: descriptors and heap memory, counted around every operation. Runs on one thread.
use crate::bed::Bed;
use crate::gen::{content, real_profile, structured, Want};
use crate::model::Content;
use crate::prof::open_by;
use crate::rt::*;
use lcms2::io::{AccessMode, FileMem, FileNull, IOHandler};
use lcms2::state::Context;
use lcms2::types::Profile;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::SeekFrom;

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()));
}
pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}
/// Number of open descriptors.
fn fds() -> usize {
    (0..48).filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).count()
}
/// What an open may use at most, whatever the file says (the profile itself takes about four thousand bytes).
const BOUND: isize = 256 * 1024;

struct Base {
    fd: usize,
    heap: isize,
}
fn base() -> Base {
    reset_peak();
    Base { heap: live(), fd: fds() }
}
fn after(rec: &mut Rec, b: &Base, what: &str, heap: bool, det: &dyn Fn() -> String) {
    let (f, h) = (fds(), live());
    if f != b.fd {
        rec.violate(format!("fd:{what}"), format!("after {what} {f} descriptors are open, before there were {}", b.fd), det());
    }
    if heap && h != b.heap {
        rec.violate(format!("heap:{what}"), format!("after {what} {} bytes more are allocated than before", h - b.heap), det());
    }
    rec.count(&format!("balanced: {what}"), 1);
}
fn one_open(rec: &mut Rec, rng: &mut Rng, ctx: &mut Context, c: &Content, path: &std::path::Path) {
    let det = || c.describe();
    let entry = rng.below(2);
    let how = rng.below(4);
    let b = base();
    let r = guarded(|| {
        let r = open_by(entry, ctx, path);
        (r, fds(), peak() - b.heap)
    });
    match r {
        Err(_) => {
            // panics are C01's business, but they must not leak either
            after(rec, &b, "a panicking open", false, &det);
        }
        Ok((r, held, used)) => {
            if used > BOUND {
                rec.violate("peak", format!("opening took {used} bytes of memory (bound {BOUND})"), det());
            }
            let largest = rec.counters.entry("largest heap use of an open (bytes)".into()).or_insert(0);
            *largest = (*largest).max(used as u64);
            match r {
                Ok(p) => {
                    if held > b.fd + 1 {
                        rec.violate("fd:held", format!("an opened profile holds {} descriptors", held - b.fd), det());
                    }
                    let _ = guarded(|| {
                        if how == 0 {
                            let _ = p == p;
                            let _ = p.get_tag_signature(rng.below(200) as usize);
                        }
                        drop(p);
                    });
                    after(rec, &b, "dropping a profile", true, &det);
                }
                Err(e) => {
                    let _ = guarded(|| drop(e));
                    after(rec, &b, "a failed open", true, &det);
                }
            }
        }
    }
}
pub fn c26(o: &Opts, rec: &mut Rec) {
    let real = real_profile();
    let mut rng = Rng::new(o.seed, 0x26);
    let bed = Bed::new(&o.scratch, "c26");
    let mut ctx = Context::new(None);
    register(0);
    // whatever is set up once and for all
    for f in crate::plugin::samples(o) {
        for e in 0..2 {
            let r = guarded(|| open_by(e, &mut ctx, &f));
            drop(r);
        }
    }
    for k in ["largest heap use of an open (bytes)"] {
        rec.count(k, 0);
    }
    // 1. opens and drops, one after the other
    for _ in 0..o.n(10, 300_000, 8_000_000) {
        let c = content(&mut rng, &o.dict, &real, Want::Any);
        bed.put(&c);
        rec.case(c.hash());
        enter(0, "counted open", &c.head);
        one_open(rec, &mut rng, &mut ctx, &c, &bed.path);
        if enough() || o.start.elapsed().as_secs_f64() > o.budget_s * 0.5 {
            break;
        }
    }
    rec.sample(|| "opens of generated contents: descriptors and heap bytes before, while held, and after".into());
    // 2. hostile sizes: huge sparse files, huge claims
    for i in 0..o.n(4, 4_000, 60_000) {
        let mut c = content(&mut rng, &o.dict, &real, Want::Good);
        c.len = *rng.pick(&[c.head.len() as u64, 1 << 20, 1 << 30, 1 << 32, (1 << 32) + 77, 1 << 40]);
        if c.len < c.head.len() as u64 {
            c.len = c.head.len() as u64;
        }
        c.put32(0, *rng.pick(&[0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 1 << 20]));
        let n = *rng.pick(&[0u32, 1, 99, 100, 101, 0xffff, 0x10_0000, 0x1000_0000, 0x7fff_ffff, 0xffff_ffff]);
        c.put32(128, n);
        for k in 0..n.min(100) as usize {
            if rng.chance(1, 2) {
                let v = o.dict.u32(&mut rng);
                c.put32(132 + 12 * k + 8, v);
            }
        }
        bed.put(&c);
        rec.case(c.hash() ^ i);
        enter(0, "counted open of hostile sizes", &c.head);
        rec.count("hostile sizes", 1);
        one_open(rec, &mut rng, &mut ctx, &c, &bed.path);
        if enough() || o.start.elapsed().as_secs_f64() > o.budget_s * 0.7 {
            break;
        }
    }
    bed.put(&Content::new(real.head.clone()));
    // 3. many profiles at once, dropped in any order; writes; missing files; one free descriptor is enough
    for k in 0..o.n(2, 3_000, 60_000) {
        let det = || format!("round {k} of held profiles");
        enter(0, "held profiles", &k.to_le_bytes());
        let b = base();
        let mut bad = None;
        {
            let mut held: Vec<Box<Profile>> = Vec::new();
            for _ in 0..rng.below(24) {
                let mode = rng.below(4);
                let out = std::path::Path::new(&o.scratch).join("c26.out");
                let r = guarded(|| match mode {
                    0 => Profile::open_from_file_thr(&mut ctx, &out, AccessMode::Write),
                    1 => Profile::open_from_file(&out, AccessMode::Write),
                    2 => open_by(rng.below(2), &mut ctx, std::path::Path::new(&o.scratch).join("missing")),
                    _ => open_by(rng.below(2), &mut ctx, &bed.path),
                });
                if let Ok(Ok(p)) = r {
                    held.push(p);
                }
                let f = fds();
                if f > b.fd + held.len() {
                    bad = Some((f - b.fd, held.len()));
                }
                if !held.is_empty() && rng.chance(1, 3) {
                    let i = rng.below(held.len() as u64) as usize;
                    drop(held.swap_remove(i));
                }
            }
        }
        if let Some((f, n)) = bad {
            rec.violate("fd:held", format!("{n} held profiles hold {f} descriptors"), det());
        }
        rec.case(hash(&k.to_le_bytes()));
        after(rec, &b, "dropping all profiles", true, &det);
        if enough() {
            break;
        }
    }
    // 4. with a single free descriptor an open still works
    #[cfg(not(miri))]
    {
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe {
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
            let low = libc::rlimit { rlim_cur: 40, rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_NOFILE, &low);
            let mut fill = vec![];
            loop {
                let fd = libc::dup(0);
                if fd < 0 {
                    break;
                }
                fill.push(fd);
            }
            let last = fill.pop();
            if let Some(fd) = last {
                libc::close(fd);
            }
            let real = real_profile();
            let mut results = vec![];
            let mut rng = Rng::new(o.seed, 0x2604);
            for i in 0..o.n(20, 600, 20_000) {
                let mut c = match i % 6 {
                    0 => real.clone(),
                    1 => content(&mut rng, &o.dict, &real, Want::Any),
                    _ => structured(&mut rng, &o.dict, Want::Good),
                };
                if i % 3 == 2 {
                    c.len = c.len.max(1 << rng.below(34)) + rng.below(3);
                }
                bed.put(&c);
                let want = crate::model::open(&c).map(|m| m.tags.len()).ok();
                let write = i % 10 == 9;
                let path = if write { bed.path.with_extension("out") } else { bed.path.clone() };
                let r = guarded(|| {
                    if write {
                        lcms2::types::Profile::open_from_file_thr(&mut ctx, &path, lcms2::io::AccessMode::Write).map(|p| p.get_tag_count())
                    } else {
                        open_by(i % 2, &mut ctx, &path).map(|p| p.get_tag_count())
                    }
                });
                let want = if write { Some(0) } else { want };
                match r {
                    Ok(r) if r.as_ref().ok() == want.as_ref() => results.push(None),
                    other => results.push(Some((format!("{other:?}, with more free ones {want:?}"), c.describe()))),
                }
            }
            for fd in fill {
                libc::close(fd);
            }
            libc::setrlimit(libc::RLIMIT_NOFILE, &old);
            let _ = std::fs::remove_file(bed.path.with_extension("out"));
            for (i, r) in results.into_iter().enumerate() {
                rec.case(26 ^ (i as u64) << 20);
                rec.count("opens with one free descriptor", 1);
                if let Some((r, c)) = r {
                    rec.violate("one descriptor", format!("with one free descriptor opening gives {r}"), c);
                }
            }
        }
    }
    // 5. handlers: created, used, closed or dropped
    for k in 0..o.n(10, 60_000, 1_000_000) {
        let kind = rng.below(4);
        let close = rng.chance(1, 2);
        let ops: Vec<(u64, u64)> = (0..rng.below(12)).map(|_| (rng.below(6), rng.below(300))).collect();
        let det = || format!("handler kind {kind}, closed: {close}, operations {ops:?}");
        enter(0, "handlers", det().as_bytes());
        let path = std::path::Path::new(&o.scratch).join("c26.io");
        let mut fixed = [0u8; 200];
        let mut grow = Vec::with_capacity(4096);
        let name = format!("{} a {} handler", if close { "closing" } else { "dropping" }, ["null", "fixed memory", "growable memory", "file"][kind as usize]);
        let b = base();
        let r = guarded(|| match kind {
            0 => run(FileNull::new(), &ops, close),
            1 => run(FileMem::new(&mut fixed[..]), &ops, close),
            2 => run(FileMem::new(&mut grow), &ops, close),
            _ => {
                if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(&path) {
                    run(f, &ops, close && k % 8 == 0)
                }
            }
        });
        let panicked = r.is_err();
        drop(r);
        // a growable buffer belongs to the caller: only the handler's own memory counts
        let heap = kind != 2 && !panicked;
        after(rec, &b, &name, heap, &det);
        if panicked {
            rec.violate("panic:handler", "a handler panics", det());
        }
        rec.case(hash(det().as_bytes()));
        if enough() || o.over_budget() {
            break;
        }
    }
    // 6. owned growable buffers: all of it goes when the handler goes
    for k in 0..o.n(10, 60_000, 1_000_000) {
        let ops: Vec<(u64, u64)> = (0..rng.below(12)).map(|_| (rng.below(6), rng.below(300))).collect();
        let det = || format!("owned buffer, operations {ops:?}");
        let b = base();
        let r = guarded(|| run(FileMem::new(vec![1u8; 10]), &ops, k % 2 == 0));
        let panicked = r.is_err();
        drop(r);
        after(rec, &b, "an owned memory handler", !panicked, &det);
        rec.case(hash(det().as_bytes()));
        if enough() || o.over_budget() {
            break;
        }
    }
    leave(0);
    unregister(0);
}
fn run<H: IOHandler>(mut h: H, ops: &[(u64, u64)], close: bool) {
    let mut buf = [0u8; 300];
    for &(op, n) in ops {
        let n = n as usize;
        match op {
            0 => drop(h.read(&mut buf[..n.min(20)])),
            1 => drop(h.write(&buf[..n])),
            2 => drop(h.seek(SeekFrom::Start(n as u64))),
            3 => drop(h.seek(SeekFrom::End(-(n as i64)))),
            4 => drop(h.reported_size()),
            _ => drop(h.seek(SeekFrom::Current(n as i64 - 150))),
        }
    }
    if close {
        drop(h.close());
    } else {
        drop(h);
    }
}
