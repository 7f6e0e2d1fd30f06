//! C11 and C12: handlers as byte streams, checked after every operation against a plain model.
use crate::rt::*;
use lcms2::io::{FileMem, FileNull, IOHandler};
use std::io::SeekFrom;

#[derive(Clone, Debug)]
pub enum Op {
    Read(usize),
    Write(Vec<u8>),
    Start(u64),
    End(i64),
    Cur(i64),
    Tell,
    Size,
}
impl Op {
    fn show(&self) -> String {
        match self {
            Op::Write(b) => format!("Write({} bytes from {:02x?})", b.len(), b.first()),
            o => format!("{o:?}"),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// positions up to i64::MAX, the kernel's rules
    File,
    /// grows
    Vec,
    /// fixed length
    Fixed,
}
struct Model {
    kind: Kind,
    bytes: Vec<u8>,
    pos: u64,
    /// operations of megabytes
    big: bool,
}
const FAR: u64 = 1 << 21;
const BIG: u64 = 9 << 20;

fn gen(rng: &mut Rng, m: &Model, d: &crate::dict::Dict) -> Op {
    let len = m.bytes.len() as u64;
    let near = |rng: &mut Rng, x: u64| (x as i64 + rng.range(-2, 2)).max(0) as u64;
    let size = |rng: &mut Rng| match rng.below(8) {
        1..=4 if m.big => d.size(rng, BIG) as u64,
        5 if m.big => near(rng, len.saturating_sub(m.pos).min(BIG)),
        0 => 0,
        1 => 1,
        2..=4 => rng.below(17),
        5 => near(rng, len.saturating_sub(m.pos).min(20_000)),
        6 if !cfg!(miri) && rng.chance(1, 12) => d.size(rng, 150_000) as u64,
        6 => rng.below(300),
        _ => *rng.pick(&[15, 16, 31, 32, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193]),
    };
    match rng.below(20) {
        0..=5 => Op::Read(size(rng) as usize),
        6..=10 => {
            if m.pos > if m.big { 2 * BIG } else { FAR } {
                // writing there would allocate the gap
                return Op::Start(rng.below(len + 3));
            }
            let mut n = size(rng) as usize;
            if n == 0 && m.pos > len {
                n = 1;
            }
            let mut b = vec![0; n];
            rng.fill(&mut b);
            if rng.chance(1, 6) {
                b.fill(0);
            }
            Op::Write(b)
        }
        11 | 12 => Op::Start(match rng.below(8) {
            0 => 0,
            1 => near(rng, len),
            2 => len + rng.below(5000),
            3 => *rng.pick(&[1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, u32::MAX as u64, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, 1 << 40]),
            4 => d.u64(rng),
            _ => rng.below(len + 2),
        }),
        13 | 14 => Op::End(match rng.below(8) {
            0 => 0,
            1 => -(near(rng, len) as i64),
            2 => -(len as i64) - 1,
            3 => rng.range(0, 3000),
            4 => *rng.pick(&[i64::MIN, i64::MAX, -1, 1, i64::MIN + 1, -(1 << 32), 1 << 32]),
            5 => d.u64(rng) as i64,
            _ => -(rng.below(len + 2) as i64),
        }),
        15 | 16 => Op::Cur(match rng.below(8) {
            0 => 0,
            1 => -(near(rng, m.pos.min(1 << 60)) as i64),
            2 => -(m.pos.min(1 << 62) as i64) - 1,
            3 => rng.range(0, 3000),
            4 => *rng.pick(&[i64::MIN, i64::MAX, -1, 1, i64::MIN + 1, -(1 << 32), 1 << 32]),
            5 => d.u64(rng) as i64,
            _ => rng.range(-20, 20),
        }),
        17 => Op::Tell,
        _ => Op::Size,
    }
}

/// The furthest position the file system of the scratch directory has, if less than a quarter of i64::MAX.
static LIMIT: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(i64::MAX / 4);
fn find_limit(path: &std::path::Path) {
    let Ok(mut f) = std::fs::File::create(path) else { return };
    let (mut lo, mut hi) = (0, i64::MAX / 4);
    while lo < hi {
        let mid = lo + (hi - lo) / 2 + 1;
        match std::io::Seek::seek(&mut f, SeekFrom::Start(mid as u64)) {
            Ok(_) => lo = mid,
            Err(_) => hi = mid - 1,
        }
    }
    LIMIT.store(lo, std::sync::atomic::Ordering::Relaxed);
    let _ = std::fs::remove_file(path);
}

/// Performs one operation on the handler and compares. Err: what is wrong.
fn step(rec: &mut Rec, h: &mut dyn IOHandler, m: &mut Model, op: &Op) -> Result<(), String> {
    let len = m.bytes.len() as u64;
    match op {
        Op::Read(n) => {
            let mut buf = vec![0xA5u8; *n];
            let r = h.read(&mut buf);
            let fits = m.pos.checked_add(*n as u64).is_some_and(|e| e <= len);
            match (fits, r) {
                (true, Ok(())) => {
                    let want = &m.bytes[m.pos as usize..m.pos as usize + n];
                    if buf != want {
                        let at = buf.iter().zip(want).position(|(a, b)| a != b).unwrap();
                        return Err(format!("reading {n} bytes at {} gives {:#x} at offset {at}, last written was {:#x}", m.pos, buf[at], want[at]));
                    }
                    m.pos += *n as u64;
                    rec.count("full reads", 1);
                }
                (true, Err(e)) => return Err(format!("reading {n} bytes at {} of {len} fails: {e:?}", m.pos)),
                (false, Ok(())) if *n > 0 => return Err(format!("reading {n} bytes at {} of {len} succeeds", m.pos)),
                (false, Ok(())) => {}
                (false, Err(_)) => {
                    rec.count("reads past the end", 1);
                    // the position is not specified now: go back
                    return resync(h, m);
                }
            }
        }
        Op::Write(b) => {
            let n = b.len();
            let r = h.write(b);
            let end = m.pos + n as u64;
            let fits = m.kind != Kind::Fixed || end <= len;
            match (fits, r) {
                (true, Ok(())) => {
                    if n > 0 {
                        if m.bytes.len() < end as usize {
                            m.bytes.resize(end as usize, 0);
                        }
                        m.bytes[m.pos as usize..end as usize].copy_from_slice(b);
                    }
                    if m.pos > len {
                        rec.count("writes after a gap", 1);
                    } else if m.pos < len {
                        rec.count("overwrites", 1);
                    }
                    m.pos = end;
                    rec.count("full writes", 1);
                }
                (true, Err(e)) => return Err(format!("writing {n} bytes at {} of {len} fails: {e:?}", m.pos)),
                (false, Ok(())) if n > 0 => return Err(format!("writing {n} bytes at {} of a fixed buffer of {len} succeeds", m.pos)),
                (false, Ok(())) => {}
                (false, Err(_)) => {
                    rec.count("writes past a fixed buffer", 1);
                    // what fitted may have been written; nothing else
                    let at = m.pos;
                    let all = contents(h, m)?;
                    for (i, (x, y)) in all.iter().zip(&m.bytes).enumerate() {
                        let i = i as u64;
                        let may = i >= at && i < end && *x == b[(i - at) as usize];
                        if x != y && !may {
                            return Err(format!("a failed write of {n} bytes at {at} changed the byte at {i}"));
                        }
                    }
                    m.bytes = all;
                    return resync(h, m);
                }
            }
        }
        Op::Start(_) | Op::End(_) | Op::Cur(_) => {
            let (arg, target) = match op {
                Op::Start(v) => (SeekFrom::Start(*v), i128::from(*v)),
                Op::End(v) => (SeekFrom::End(*v), len as i128 + i128::from(*v)),
                Op::Cur(v) => (SeekFrom::Current(*v), m.pos as i128 + i128::from(*v)),
                _ => unreachable!(),
            };
            let r = h.seek(arg);
            let limit = if m.kind == Kind::File { i64::MAX as i128 } else { u64::MAX as i128 };
            if target < 0 {
                if r.is_ok() {
                    return Err(format!("{arg:?} from {} of {len} goes before byte 0 and succeeds", m.pos));
                }
                rec.count("seeks before byte 0", 1);
            } else if target > limit {
                // not representable: the stream may refuse, and then keeps its position
                if r.is_ok() {
                    return resync(h, m);
                }
                rec.count("unrepresentable seeks", 1);
            } else {
                if let Err(e) = r {
                    if target > i128::from(LIMIT.load(std::sync::atomic::Ordering::Relaxed)) {
                        // far beyond any data; a stream may have a limit, and then keeps its position
                        rec.count("seeks beyond a limit", 1);
                    } else {
                        return Err(format!("{arg:?} from {} of {len} fails: {e:?}", m.pos));
                    }
                } else {
                    m.pos = target as u64;
                    rec.count("seeks", 1);
                }
            }
        }
        Op::Tell => {
            rec.count("position queries", 1);
        }
        Op::Size => {
            match h.reported_size() {
                Ok(n) if n as u64 == len => rec.count("size queries", 1),
                Ok(n) => return Err(format!("size {n} is reported, the stream has {len} bytes (position {})", m.pos)),
                Err(_) if m.pos > i64::MAX as u64 => rec.count("size queries refused", 1),
                Err(e) => return Err(format!("querying the size at {} fails: {e:?}", m.pos)),
            }
        }
    }
    match h.tell() {
        Ok(p) if p as u64 == m.pos => Ok(()),
        Ok(p) => Err(format!("after {} the position is {p}, expected {}", op.show(), m.pos)),
        Err(e) => Err(format!("after {} the position query fails: {e:?}", op.show())),
    }
}
fn resync(h: &mut dyn IOHandler, m: &mut Model) -> Result<(), String> {
    let back = m.pos.min(m.bytes.len() as u64);
    h.seek(SeekFrom::Start(back)).map_err(|e| format!("seeking to {back} fails: {e:?}"))?;
    m.pos = back;
    let p = h.tell().map_err(|e| format!("tell fails: {e:?}"))?;
    if p as u64 != back {
        return Err(format!("after seeking to {back} the position is {p}"));
    }
    Ok(())
}
/// Reads everything, from a position of its own.
fn contents(h: &mut dyn IOHandler, m: &Model) -> Result<Vec<u8>, String> {
    let mut all = vec![0xA5; m.bytes.len()];
    h.seek(SeekFrom::Start(0)).map_err(|e| format!("seeking to 0 fails: {e:?}"))?;
    h.read(&mut all).map_err(|e| format!("reading all {} bytes back fails: {e:?}", m.bytes.len()))?;
    let mut one = [0u8];
    if h.read(&mut one).is_ok() {
        return Err(format!("a byte past the end at {} can be read", m.bytes.len()));
    }
    Ok(all)
}

fn history(rec: &mut Rec, rng: &mut Rng, o: &Opts, h: &mut dyn IOHandler, kind: Kind, init: Vec<u8>, label: &str) {
    let big = init.len() > 100_000 || (init.is_empty() && kind != Kind::Fixed && o.tier != Tier::Mini && rng.chance(1, 3000));
    let mut m = Model { kind, bytes: init, pos: 0, big };
    let start = m.bytes.len();
    let mut script: Vec<String> = vec![];
    let mut hs = 0;
    for _ in 0..2 + rng.below(if o.tier == Tier::Mini || big { 12 } else { 60 }) {
        let op = gen(rng, &m, &o.dict);
        let s = op.show();
        hs = hash(s.as_bytes()) ^ u64::rotate_left(hs, 7);
        script.push(s);
        let det = || format!("{label} of {start} bytes: {}", script.join(", "));
        match rec.lib("handler", det, || guarded_step(h, &mut m, &op)) {
            Some((r, Err(e))) => {
                rec.merge(r);
                rec.violate(format!("{label}:{}", op_name(&op)), format!("{label}: {e}"), det());
                return;
            }
            Some((r, Ok(()))) => rec.merge(r),
            None => return,
        }
        rec.count(if big { "operations on megabytes" } else { "operations" }, 1);
    }
    let r = rec.lib("handler", || script.join(", "), || contents(h, &m));
    match r {
        Some(Ok(all)) if all == m.bytes => {}
        Some(Ok(all)) => {
            let at = all.iter().zip(&m.bytes).position(|(a, b)| a != b);
            rec.violate(format!("{label}:contents"), format!("{label}: after the history the byte at {at:?} is not the last written one"), format!("of {start} bytes: {}", script.join(", ")))
        }
        Some(Err(e)) => rec.violate(format!("{label}:contents"), format!("{label}: {e}"), format!("of {start} bytes: {}", script.join(", "))),
        None => {}
    }
    rec.case(hs ^ hash(label.as_bytes()) ^ start as u64);
    rec.count(&format!("histories of {label}"), 1);
    rec.sample(|| format!("{label} of {start} bytes: {}", script.iter().take(12).cloned().collect::<Vec<_>>().join(", ")));
}
fn op_name(o: &Op) -> &'static str {
    match o {
        Op::Read(_) => "read",
        Op::Write(_) => "write",
        Op::Start(_) | Op::End(_) | Op::Cur(_) => "seek",
        Op::Tell => "tell",
        Op::Size => "size",
    }
}
fn guarded_step(h: &mut dyn IOHandler, m: &mut Model, op: &Op) -> (Rec, Result<(), String>) {
    let mut r = Rec::new(0);
    let e = step(&mut r, h, m, op);
    (r, e)
}

pub fn c11(o: &Opts, rec: &mut Rec) {
    if !cfg!(miri) {
        find_limit(&std::path::Path::new(&o.scratch).join("c11-limit"));
    }
    par(o, rec, 0x11, o.n(24, 240_000, 6_000_000), |rec, rng, first, n| {
        let path = std::path::Path::new(&o.scratch).join(format!("c11-{}", rec.worker));
        for k in first..first + n {
            let len = match rng.below(6) {
                0 => 0,
                1 => 1,
                2 | 3 => rng.below(40),
                4 => rng.below(600),
                _ if o.tier != Tier::Mini && rng.chance(1, 150) => o.dict.size(rng, BIG) as u64,
                _ => *rng.pick(&[4095, 4096, 4097, 9000]),
            } as usize;
            let mut init = vec![0u8; len];
            rng.fill(&mut init);
            enter(rec.worker, "history of a handler", &init[..len.min(64)]);
            match k % 6 {
                0 | 1 => {
                    std::fs::write(&path, &init).expect("scratch");
                    let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&path).expect("scratch");
                    history(rec, rng, o, &mut f, Kind::File, init, "File");
                }
                2 => {
                    let mut f = FileMem::new(init.clone());
                    history(rec, rng, o, &mut f, Kind::Vec, init, "FileMem<Vec<u8>>");
                }
                3 => {
                    let mut v = init.clone();
                    let mut f = FileMem::new(&mut v);
                    history(rec, rng, o, &mut f, Kind::Vec, init, "FileMem<&mut Vec<u8>>");
                }
                4 => {
                    let mut v = init.clone();
                    let mut f = FileMem::new(v.as_mut_slice());
                    history(rec, rng, o, &mut f, Kind::Fixed, init, "FileMem<&mut [u8]>");
                }
                _ => {
                    if rng.chance(1, 2) {
                        let mut f = FileMem::new(init.clone().into_boxed_slice());
                        history(rec, rng, o, &mut f, Kind::Fixed, init, "FileMem<Box<[u8]>>");
                    } else {
                        let mut a = [0u8; 32];
                        rng.fill(&mut a);
                        let mut f = FileMem::new(a);
                        history(rec, rng, o, &mut f, Kind::Fixed, a.to_vec(), "FileMem<[u8; 32]>");
                    }
                }
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
    if o.tier != Tier::Mini {
        // the buffer given by reference holds what was written
        let mut rng = Rng::new(o.seed, 0x1111);
        for _ in 0..2000 {
            let n = rng.below(50) as usize;
            let mut b = vec![0; n];
            rng.fill(&mut b);
            let mut v = vec![];
            let mut f = FileMem::new(&mut v);
            let r = rec.lib("write", String::new, || f.write(&b).is_ok());
            let c = rec.lib("close", String::new, || f.close().is_ok());
            rec.enumerate(1);
            if r != Some(true) || c != Some(true) || v != b {
                rec.violate("by reference", "the caller's buffer does not hold the bytes written", hex(&b));
            }
        }
        // one sparse file past 4 GiB: positions are not cut to 32 bits
        let p = std::path::Path::new(&o.scratch).join("c11-big");
        if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p) {
            for size in [u64::from(u32::MAX), 1 << 32, (1 << 32) + 5, 5 << 30] {
                if f.set_len(size).is_err() {
                    continue;
                }
                let mut g = f.try_clone().expect("clone");
                let h: &mut dyn IOHandler = &mut g;
                let r = rec.lib("big file", String::new, || -> std::io::Result<(usize, usize, [u8; 3], usize)> {
                    h.seek(SeekFrom::End(-3))?;
                    let a = h.tell()?;
                    h.write(&[1, 2, size as u8])?;
                    let s = h.reported_size()?;
                    h.seek(SeekFrom::Start(0))?;
                    h.seek(SeekFrom::Current(size as i64 - 3))?;
                    let mut b = [0; 3];
                    h.read(&mut b)?;
                    Ok((a, s, b, h.tell()?))
                });
                rec.enumerate(1);
                match r {
                    Some(Ok(x)) if x == (size as usize - 3, size as usize, [1, 2, size as u8], size as usize) => rec.count("files around 4 GiB", 1),
                    Some(x) => rec.violate("big", format!("a file of {size} bytes: seek to its end, write, size, read back gives {x:?}"), ""),
                    None => {}
                }
            }
            let _ = std::fs::remove_file(&p);
        }
    }
}

// ---------------------------------------------------------------- the null handler
struct NullModel {
    pos: u64,
    used: u64,
}
fn null_step(rec: &mut Rec, h: &mut FileNull, m: &mut NullModel, op: &Op) -> Result<(), String> {
    match op {
        Op::Read(n) => {
            let mut buf = vec![0xA5u8; *n];
            let r = h.read(&mut buf);
            match m.pos.checked_add(*n as u64) {
                None => {
                    // no such position: only a panic would be wrong
                    let _ = r;
                    return null_resync(h, m);
                }
                Some(e) => {
                    if r.is_err() {
                        return Err(format!("reading {n} bytes at {} fails", m.pos));
                    }
                    if let Some(i) = buf.iter().position(|b| *b != 0) {
                        return Err(format!("reading {n} bytes at {} leaves {:#x} at offset {i}", m.pos, buf[i]));
                    }
                    m.pos = e;
                    rec.count("reads", 1);
                }
            }
        }
        Op::Write(b) => {
            let r = h.write(b);
            match m.pos.checked_add(b.len() as u64) {
                None => {
                    let _ = r;
                    return null_resync(h, m);
                }
                Some(e) => {
                    if r.is_err() {
                        return Err(format!("writing {} bytes at {} fails", b.len(), m.pos));
                    }
                    m.pos = e;
                    m.used = m.used.max(e);
                    rec.count("writes", 1);
                }
            }
        }
        Op::Start(_) | Op::End(_) | Op::Cur(_) => {
            let (arg, t) = match op {
                Op::Start(v) => (SeekFrom::Start(*v), i128::from(*v)),
                Op::End(v) => (SeekFrom::End(*v), m.used as i128 + i128::from(*v)),
                Op::Cur(v) => (SeekFrom::Current(*v), m.pos as i128 + i128::from(*v)),
                _ => unreachable!(),
            };
            let r = h.seek(arg);
            if t < 0 {
                if r.is_ok() {
                    return Err(format!("{arg:?} from {} (size {}) goes before byte 0 and succeeds", m.pos, m.used));
                }
                rec.count("seeks before byte 0", 1);
            } else if t > i128::from(u64::MAX) {
                if r.is_ok() {
                    return null_resync(h, m);
                }
            } else {
                if r.is_err() {
                    return Err(format!("{arg:?} from {} (size {}) fails", m.pos, m.used));
                }
                m.pos = t as u64;
                rec.count("seeks", 1);
            }
        }
        Op::Tell => {}
        Op::Size => match h.reported_size() {
            Ok(n) if n as u64 == m.used => rec.count("size queries", 1),
            r => return Err(format!("the size is {r:?}, the furthest byte written is {}", m.used)),
        },
    }
    match h.tell() {
        Ok(p) if p as u64 == m.pos => Ok(()),
        r => Err(format!("the position is {r:?}, expected {}", m.pos)),
    }
}
fn null_resync(h: &mut FileNull, m: &mut NullModel) -> Result<(), String> {
    h.seek(SeekFrom::Start(m.used)).map_err(|e| format!("{e:?}"))?;
    m.pos = m.used;
    Ok(())
}

pub fn c12(o: &Opts, rec: &mut Rec) {
    par(o, rec, 0x12, o.n(60, 400_000, 10_000_000), |rec, rng, _f, n| {
        for _ in 0..n {
            let mut h = if rng.chance(1, 2) { FileNull::new() } else { FileNull::default() };
            let mut m = NullModel { pos: 0, used: 0 };
            let mut script = vec![];
            let wild = rng.chance(1, 3);
            for _ in 0..1 + rng.below(if cfg!(miri) { 8 } else { 40 }) {
                let n = match rng.below(if cfg!(miri) { 4 } else { 6 }) {
                    0 => 0,
                    1 => 1,
                    2 | 3 => rng.below(20),
                    4 if !cfg!(miri) && rng.chance(1, 300) => o.dict.size(rng, BIG) as u64,
                    4 if !cfg!(miri) && rng.chance(1, 8) => o.dict.size(rng, 150_000) as u64,
                    4 => rng.below(400),
                    _ => *rng.pick(&[255, 256, 4095, 4096, 4097, 10_000]),
                } as usize;
                let big = |rng: &mut Rng| if wild { o.dict.u64(rng) } else { rng.below(5000) };
                let op = match rng.below(12) {
                    0..=2 => Op::Read(n),
                    3..=5 => {
                        // (whether writing nothing past the end moves the end is not specified)
                        Op::Write(vec![7; if n == 0 && m.pos > m.used { 1 } else { n }])
                    }
                    6 => Op::Start(if rng.chance(1, 2) { m.used.saturating_add(rng.below(3)).saturating_sub(1) } else { big(rng) }),
                    7 | 8 => Op::End(match rng.below(5) {
                        0 => 0,
                        1 => -(m.used.min(i64::MAX as u64) as i64),
                        2 => (-(m.used.min(i64::MAX as u64) as i64)).wrapping_sub(1),
                        3 => big(rng) as i64,
                        _ => -((big(rng) >> 1) as i64),
                    }),
                    9 | 10 => Op::Cur(match rng.below(5) {
                        0 => 0,
                        1 => -(m.pos.min(i64::MAX as u64) as i64),
                        2 => (-(m.pos.min(i64::MAX as u64) as i64)).wrapping_sub(1),
                        3 => big(rng) as i64,
                        _ => -((big(rng) >> 1) as i64),
                    }),
                    _ => Op::Size,
                };
                script.push(op.show());
                enter(rec.worker, "history of the null handler", script.join(",").as_bytes());
                let det = || script.join(", ");
                let mut sub = Rec::new(0);
                match rec.lib("FileNull", det, || null_step(&mut sub, &mut h, &mut m, &op)) {
                    Some(Ok(())) => {}
                    Some(Err(e)) => {
                        rec.violate(op_name(&op), format!("null handler: {e}"), det());
                        break;
                    }
                    None => break,
                }
                rec.merge(sub);
                rec.count("operations", 1);
            }
            rec.case(hash(script.join(",").as_bytes()));
            rec.sample(|| script.join(", "));
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
    // long lives
    par(o, rec, 0x1213, 8, |rec, rng, first, n| {
        for k in first..first + n {
            let mut h = FileNull::new();
            let mut m = NullModel { pos: 0, used: 0 };
            let total = o.n(50, 300_000, 5_000_000);
            enter(rec.worker, "long history of the null handler", &[k as u8]);
            let mut sub = Rec::new(0);
            let mut last: std::collections::VecDeque<Op> = Default::default();
            for i in 0..total {
                // one kind of operation again and again, or all of them
                let kind = if k < 5 && !rng.chance(1, 50) { k } else { rng.below(5) };
                let op = match kind {
                    0 => Op::Read(rng.below(5) as usize),
                    1 => Op::Write(vec![3; 1 + rng.below(4) as usize]),
                    2 => Op::Start(rng.below(m.used + 2)),
                    3 => Op::Cur(rng.range(-3, 3).max(-(m.pos.min(3) as i64))),
                    _ => Op::Size,
                };
                if last.len() == 12 {
                    last.pop_front();
                }
                let r = match guarded(|| null_step(&mut sub, &mut h, &mut m, &op)) {
                    Ok(r) => r,
                    Err(p) => Err(format!("panic: {p}")),
                };
                last.push_back(op);
                if let Err(e) = r {
                    rec.violate(op_name(last.back().unwrap()), format!("null handler: {e}"), format!("after {i} operations, the last ones being {}", last.iter().map(|o| o.show()).collect::<Vec<_>>().join(", ")));
                    break;
                }
            }
            rec.count("operations in long histories", total);
            rec.case(0x1213_0000 + k);
        }
        leave(rec.worker);
    });
    // all short histories over a small set of operations
    let set = [Op::Read(0), Op::Read(3), Op::Write(vec![1; 2]), Op::Write(vec![1; 5]), Op::Start(0), Op::Start(4), Op::Start(9), Op::End(0), Op::End(-2), Op::End(3), Op::End(-9), Op::Cur(1), Op::Cur(-1), Op::Cur(-4), Op::Size];
    let depth = if o.tier == Tier::Mini { 2 } else if o.tier == Tier::Quick { 5 } else { 6 };
    let total = (set.len() as u64).pow(depth);
    par(o, rec, 0x1212, total, |rec, _rng, first, n| {
        let mut done = 0;
        for j in first..first + n {
            let mut h = FileNull::new();
            let mut m = NullModel { pos: 0, used: 0 };
            let mut x = j;
            let mut sub = Rec::new(0);
            for k in 0..depth {
                let op = &set[(x % set.len() as u64) as usize];
                x /= set.len() as u64;
                let r = match guarded(|| null_step(&mut sub, &mut h, &mut m, op)) {
                    Ok(r) => r,
                    Err(p) => Err(format!("panic: {p}")),
                };
                if let Err(e) = r {
                    let mut y = j;
                    let s: Vec<String> = (0..=k)
                        .map(|_| {
                            let s = set[(y % set.len() as u64) as usize].show();
                            y /= set.len() as u64;
                            s
                        })
                        .collect();
                    rec.violate(op_name(op), format!("null handler: {e}"), s.join(", "));
                    break;
                }
            }
            done += 1;
            if enough() {
                break;
            }
        }
        rec.enumerate(done);
        rec.count("all short histories", done);
    });
}
