//! C13, C14, C15, C18: typed reads and writes, fixed point, failures of the handler below, byte-order helpers.
use crate::rt::*;
use lcms2::io::{self, big_endian as be, little_endian as le, FileMem, FileNull, IOHandler};
use lcms2::types::CIEXYZ;
use std::io::{Error, ErrorKind, Result, SeekFrom};

pub const LE: bool = cfg!(feature = "le");
fn b2(v: u16) -> [u8; 2] {
    if LE { [v as u8, (v >> 8) as u8] } else { [(v >> 8) as u8, v as u8] }
}
fn u16v(b: &[u8]) -> u16 {
    if LE { u16::from(b[0]) | u16::from(b[1]) << 8 } else { u16::from(b[1]) | u16::from(b[0]) << 8 }
}
fn b4(v: u32) -> [u8; 4] {
    let b = [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8];
    if LE { [b[3], b[2], b[1], b[0]] } else { b }
}
fn b8(v: u64) -> [u8; 8] {
    let mut b: [u8; 8] = std::array::from_fn(|i| (v >> (56 - 8 * i)) as u8);
    if LE {
        b.reverse();
    }
    b
}
fn xyz_bytes(p: [u32; 3]) -> Vec<u8> {
    p.iter().flat_map(|x| b4(*x)).collect()
}

// ---------------------------------------------------------------- a handler of our own
/// A growable stream that records each operation and fails where told.
#[derive(Debug, Clone, PartialEq)]
pub enum Did {
    Read(usize, usize),
    Write(usize, usize),
    Seek,
    Tell,
}
#[derive(Debug)]
pub struct Spy {
    pub bytes: Vec<u8>,
    pub pos: usize,
    pub log: Vec<(Did, bool)>,
    /// operations with index in this range fail
    pub fail: std::ops::Range<usize>,
    pub kind: ErrorKind,
    /// Some: the operating system's error of this number
    pub os: Option<i32>,
    pub partial: bool,
}
impl Spy {
    pub fn new(bytes: Vec<u8>, pos: usize) -> Spy {
        Spy { bytes, pos, log: vec![], fail: 0..0, kind: ErrorKind::Other, os: None, partial: false }
    }
    fn turn(&mut self, d: Did) -> Result<()> {
        let i = self.log.len();
        let bad = self.fail.contains(&i);
        self.log.push((d, !bad));
        if bad {
            return Err(match self.os {
                Some(n) => Error::from_raw_os_error(n),
                None => Error::new(self.kind, format!("injected at {i}")),
            });
        }
        Ok(())
    }
}
impl IOHandler for Spy {
    fn read(&mut self, buf: &mut [u8]) -> Result<()> {
        let r = self.turn(Did::Read(self.pos, buf.len()));
        if r.is_err() {
            if self.partial {
                let n = buf.len() / 2;
                buf[..n].fill(0x77);
                self.pos += n;
            }
            return r;
        }
        if self.pos + buf.len() > self.bytes.len() {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        buf.copy_from_slice(&self.bytes[self.pos..self.pos + buf.len()]);
        self.pos += buf.len();
        Ok(())
    }
    fn write(&mut self, buf: &[u8]) -> Result<()> {
        self.turn(Did::Write(self.pos, buf.len()))?;
        let end = self.pos + buf.len();
        if end > self.bytes.len() {
            self.bytes.resize(end, 0);
        }
        self.bytes[self.pos..end].copy_from_slice(buf);
        self.pos = end;
        Ok(())
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<()> {
        self.turn(Did::Seek)?;
        let t = match pos {
            SeekFrom::Start(v) => v as i128,
            SeekFrom::End(v) => self.bytes.len() as i128 + v as i128,
            SeekFrom::Current(v) => self.pos as i128 + v as i128,
        };
        if t < 0 {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.pos = t as usize;
        Ok(())
    }
    fn tell(&mut self) -> Result<usize> {
        self.turn(Did::Tell)?;
        Ok(self.pos)
    }
    fn close(self) -> Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- C13
const CH: usize = 1024;
/// Writes CH values at positions of one buffer, checks the bytes, reads them back.
fn sweep32(rec: &mut Rec, first: u64, n: u64, what: &str, bytes: fn(u32) -> [u8; 4], w: fn(&mut FileMem<Vec<u8>>, u32) -> Result<()>, r: fn(&mut FileMem<Vec<u8>>) -> Result<u32>) {
    let mut v = first;
    while v < first + n {
        let k = CH.min((first + n - v) as usize);
        enter(rec.worker, what, &(v as u32).to_be_bytes());
        let res = guarded(|| -> std::result::Result<(), String> {
            let mut h = FileMem::new(vec![0xEEu8; 4 * k]);
            for i in 0..k {
                w(&mut h, (v + i as u64) as u32).map_err(|e| format!("writing {:#x}: {e}", v + i as u64))?;
            }
            let p = h.tell().map_err(|e| e.to_string())?;
            if p != 4 * k {
                return Err(format!("after {k} writes the position is {p}"));
            }
            h.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
            let mut raw = vec![0u8; 4 * k];
            h.read(&mut raw).map_err(|e| e.to_string())?;
            for i in 0..k {
                let x = (v + i as u64) as u32;
                if raw[4 * i..4 * i + 4] != bytes(x) {
                    return Err(format!("{x:#010x} is stored as {:02x?}", &raw[4 * i..4 * i + 4]));
                }
            }
            h.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
            for i in 0..k {
                let x = (v + i as u64) as u32;
                let g = r(&mut h).map_err(|e| format!("reading {x:#x}: {e}"))?;
                if g != x {
                    return Err(format!("the bytes {:02x?} are read as {g:#010x}", bytes(x)));
                }
            }
            Ok(())
        });
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => rec.violate(what, format!("{what}: {e}"), format!("values from {v:#x}")),
            Err(e) => rec.violate(format!("panic:{what}"), format!("panic in {what}: {e}"), format!("values from {v:#x}")),
        }
        rec.enumerate(k as u64);
        rec.count(what, k as u64);
        v += k as u64;
        if enough() {
            break;
        }
    }
}

pub fn c13(o: &Opts, rec: &mut Rec) {
    // every u32 and every f32 bit pattern (a part of them in the slow builds)
    let full = o.full;
    let total: u64 = if full { 1 << 32 } else { o.n(1 << 10, 1 << 26, 1 << 30) };
    for (what, salt, w, r) in [
        ("write_u32/read_u32", 0x1301u64, (|h, v| h.write_u32(v)) as fn(&mut FileMem<Vec<u8>>, u32) -> Result<()>, (|h| h.read_u32()) as fn(&mut FileMem<Vec<u8>>) -> Result<u32>),
        ("write_f32/read_f32", 0x1302, |h, v| h.write_f32(f32::from_bits(v)), |h| h.read_f32().map(f32::to_bits)),
    ] {
        par(o, rec, salt, total, |rec, rng, first, n| {
            let base = if full { first } else { rng.u64() % ((1 << 32) - n) };
            sweep32(rec, base, n, what, b4, w, r);
            leave(rec.worker);
        });
        if !full {
            for f in [0u64, 0x7f7f_fc00, 0x7f80_0000 - 512, 0x7fbf_fe00, 0x7fff_fe00, 0xff80_0000 - 512, 0xffbf_fe00, 0xffff_fc00] {
                sweep32(rec, f, o.n(32, 1024, 1024), what, b4, w, r);
            }
        }
    }
    // every u8 and u16
    for v in 0..=65535u32 {
        if o.tier == Tier::Mini && v % 1021 != 0 {
            continue;
        }
        let x = v as u16;
        let r = rec.lib("u16", || format!("{x:#x}"), || -> Result<(Vec<u8>, u16, u8, usize)> {
            let mut out = vec![];
            let mut h = FileMem::new(&mut out);
            h.write_u16(x)?;
            h.write_u8(x as u8)?;
            let p = h.tell()?;
            h.seek(SeekFrom::Start(0))?;
            let a = h.read_u16()?;
            let b = h.read_u8()?;
            Ok((out, a, b, p))
        });
        rec.enumerate(1);
        rec.count("u8 and u16 values", 1);
        let mut want = b2(x).to_vec();
        want.push(x as u8);
        match r {
            Some(Ok((out, a, b, p))) if out == want && a == x && b == x as u8 && p == 3 => {}
            Some(g) => rec.violate("u16", format!("u16 {x:#x} and u8 {:#x}: (bytes, read back, position) = {g:x?}", x as u8), ""),
            None => {}
        }
    }
    long_arrays(rec, o);
    // mixed histories of typed operations at any position of every kind of handler
    par(o, rec, 0x13, o.n(24, 240_000, 6_000_000), |rec, rng, first, n| {
        let path = std::path::Path::new(&o.scratch).join(format!("c13-{}", rec.worker));
        let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch");
        for k in first..first + n {
            let mut init = vec![0u8; 64 + rng.below(200) as usize];
            rng.fill(&mut init);
            enter(rec.worker, "typed operations", &init);
            let c = init.clone();
            match k % 5 {
                0 => {
                    let mut f = file.try_clone().expect("clone");
                    f.set_len(0).expect("scratch");
                    std::io::Seek::seek(&mut f, SeekFrom::Start(0)).expect("scratch");
                    std::io::Write::write_all(&mut f, &init).expect("scratch");
                    mixed(rec, rng, o, &mut f, c, "File");
                }
                1 => mixed(rec, rng, o, &mut FileMem::new(init), c, "FileMem<Vec<u8>>"),
                2 => mixed(rec, rng, o, &mut FileMem::new(init.as_mut_slice()), c, "FileMem<&mut [u8]>"),
                3 => mixed(rec, rng, o, &mut Spy::new(init, 0), c, "user handler"),
                _ => null_typed(rec, rng, o),
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
}

/// Long arrays, whatever block sizes the library may use.
fn long_arrays(rec: &mut Rec, o: &Opts) {
    let max = if cfg!(miri) { 600 } else { 70_000 };
    par(o, rec, 0x1313, o.n(2, 1600, 60_000), |rec, rng, _f, n| {
        let path = std::path::Path::new(&o.scratch).join(format!("c13-long-{}", rec.worker));
        for k in 0..n {
            let max = if !cfg!(miri) && rng.chance(1, 25) { 3 << 20 } else { max };
            let len = o.dict.size(rng, max);
            let at = rng.below(9) as usize;
            let mut raw = vec![0u8; 2 * len];
            rng.fill(&mut raw);
            let arr: Vec<u16> = raw.chunks(2).map(u16v).collect();
            enter(rec.worker, "a long array", &(len as u64).to_be_bytes());
            let label = ["File", "FileMem<Vec<u8>>", "FileMem<&mut [u8]>", "user handler"][(k % 4) as usize];
            let det = || format!("{label}: {len} values at {at}");
            let mut fixed = vec![0x11u8; at + 2 * len + 3];
            let r = rec.lib("long array", det, || -> std::result::Result<(), String> {
                let run = |h: &mut dyn IOHandler| -> std::result::Result<(), String> {
                    let s = |e: Error| format!("fails: {e:?}");
                    h.write(&[0x11; 8][..at.min(8)]).map_err(s)?;
                    h.seek(SeekFrom::Start(at as u64)).map_err(s)?;
                    h.write_u16_array(&arr).map_err(s)?;
                    if h.tell().map_err(s)? != at + 2 * len {
                        return Err(format!("writing {len} values moves the position to {}", h.tell().map_err(s)?));
                    }
                    let mut all = vec![0; at + 2 * len];
                    h.seek(SeekFrom::Start(0)).map_err(s)?;
                    h.read(&mut all).map_err(s)?;
                    if all[at..] != raw {
                        let i = all[at..].iter().zip(&raw).position(|(a, b)| a != b).unwrap();
                        return Err(format!("writing {len} values: byte {i} is {:#x}, expected {:#x}", all[at + i], raw[i]));
                    }
                    if all[..at].iter().any(|b| *b != 0x11) {
                        return Err(format!("writing {len} values at {at} changes bytes before them"));
                    }
                    let mut back = vec![0x5a5au16; len];
                    h.seek(SeekFrom::Start(at as u64)).map_err(s)?;
                    h.read_u16_array(&mut back).map_err(s)?;
                    if back != arr {
                        let i = back.iter().zip(&arr).position(|(a, b)| a != b).unwrap();
                        return Err(format!("reading {len} values: number {i} is {:#x}, expected {:#x}", back[i], arr[i]));
                    }
                    if h.tell().map_err(s)? != at + 2 * len {
                        return Err(format!("reading {len} values at {at} moves the position to {}", h.tell().map_err(s)?));
                    }
                    Ok(())
                };
                match k % 4 {
                    0 => run(&mut std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch")),
                    1 => run(&mut FileMem::new(Vec::new())),
                    2 => run(&mut FileMem::new(fixed.as_mut_slice())),
                    _ => run(&mut Spy::new(Vec::new(), 0)),
                }
            });
            if let Some(Err(e)) = r {
                rec.violate("long array", format!("{label}: {e}"), det());
            }
            rec.case(hash(&raw) ^ at as u64 ^ len as u64);
            rec.count("long arrays", 1);
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
}

fn mixed(rec: &mut Rec, rng: &mut Rng, o: &Opts, h: &mut dyn IOHandler, mut m: Vec<u8>, label: &str) {
    let mut script = vec![];
    let len = m.len();
    for _ in 0..1 + rng.below(12) {
        let width = *rng.pick(&[1usize, 2, 4, 4, 8, 0]);
        let arr: Vec<u16> = if width == 0 { (0..rng.below(24)).map(|_| o.dict.u16(rng)).collect() } else { vec![] };
        let size = if width == 0 { 2 * arr.len() } else { width };
        let at = match rng.below(4) {
            0 => 0,
            1 => len - size,
            _ => rng.below((len - size) as u64 + 1) as usize,
        };
        let write = rng.chance(1, 2);
        let v = match width {
            1 | 2 | 4 if rng.chance(1, 2) => u64::from(o.dict.u32(rng)),
            _ => o.dict.u64(rng),
        };
        let float = rng.chance(1, 2);
        script.push(format!("{} {} at {at}: {v:#x}{}", if write { "write" } else { "read" }, if width == 0 { format!("u16 array {arr:x?}") } else { format!("{width} bytes") }, if width == 4 && float { " as f32" } else { "" }));
        let det = || format!("{label}: {}", script.join(", "));
        let r = rec.lib("typed", det, || -> std::result::Result<(), String> {
            let s = |e: Error| format!("fails: {e:?}");
            h.seek(SeekFrom::Start(at as u64)).map_err(s)?;
            if write {
                match width {
                    0 => h.write_u16_array(&arr),
                    1 => h.write_u8(v as u8),
                    2 => h.write_u16(v as u16),
                    4 if float => h.write_f32(f32::from_bits(v as u32)),
                    4 => h.write_u32(v as u32),
                    _ => h.write_u64(v),
                }
                .map_err(s)?;
                let b: Vec<u8> = match width {
                    0 => arr.iter().flat_map(|x| b2(*x)).collect(),
                    1 => vec![v as u8],
                    2 => b2(v as u16).to_vec(),
                    4 => b4(v as u32).to_vec(),
                    _ => b8(v).to_vec(),
                };
                m[at..at + size].copy_from_slice(&b);
            } else {
                let stored = &m[at..at + size];
                match width {
                    0 => {
                        let mut a = vec![0x5a5au16; arr.len()];
                        h.read_u16_array(&mut a).map_err(s)?;
                        let w: Vec<u8> = a.iter().flat_map(|x| b2(*x)).collect();
                        if w != stored {
                            return Err(format!("the bytes {stored:02x?} are read as {a:x?}"));
                        }
                    }
                    w => {
                        let (got, want): (u64, u64) = match w {
                            1 => (h.read_u8().map_err(s)?.into(), stored[0].into()),
                            2 => (h.read_u16().map_err(s)?.into(), u16v(stored).into()),
                            4 => {
                                let g = if float { h.read_f32().map_err(s)?.to_bits() } else { h.read_u32().map_err(s)? };
                                let mut b: [u8; 4] = stored.try_into().unwrap();
                                if LE {
                                    b.reverse();
                                }
                                (g.into(), u32::from_be_bytes(b).into())
                            }
                            _ => {
                                let mut b: [u8; 8] = stored.try_into().unwrap();
                                if LE {
                                    b.reverse();
                                }
                                (h.read_u64().map_err(s)?, u64::from_be_bytes(b))
                            }
                        };
                        if got != want {
                            return Err(format!("the bytes {stored:02x?} are read as {got:#x}, not {want:#x}"));
                        }
                    }
                }
            }
            let p = h.tell().map_err(s)?;
            if p != at + size {
                return Err(format!("the position is {p}, not {}", at + size));
            }
            let mut all = vec![0; len];
            h.seek(SeekFrom::Start(0)).map_err(s)?;
            h.read(&mut all).map_err(s)?;
            if all != m {
                let i = all.iter().zip(&m).position(|(a, b)| a != b).unwrap();
                return Err(format!("the byte at {i} is {:#x}, expected {:#x}", all[i], m[i]));
            }
            Ok(())
        });
        rec.count("typed operations", 1);
        if let Some(Err(e)) = r {
            rec.violate(format!("typed:{width}"), format!("{label}: {}: {e}", script.last().unwrap()), det());
            break;
        }
    }
    rec.case(hash(script.join(",").as_bytes()));
    rec.sample(|| format!("{label}: {}", script.join(", ")));
}

fn null_typed(rec: &mut Rec, rng: &mut Rng, o: &Opts) {
    let mut h = FileNull::new();
    let mut pos = 0;
    for _ in 0..6 {
        let v = o.dict.u64(rng);
        let arr: Vec<u16> = (0..rng.below(9)).map(|_| v as u16).collect();
        let (r, n) = match rng.below(6) {
            0 => (rec.lib("null", String::new, || h.write_u8(v as u8)), 1),
            1 => (rec.lib("null", String::new, || h.write_u16(v as u16)), 2),
            2 => (rec.lib("null", String::new, || h.write_u32(v as u32)), 4),
            3 => (rec.lib("null", String::new, || h.write_u64(v)), 8),
            4 => (rec.lib("null", String::new, || h.write_u16_array(&arr)), 2 * arr.len()),
            _ => (rec.lib("null", String::new, || h.read_u64().map(|x| assert_eq!(x, 0))), 8),
        };
        pos += n;
        rec.case(v ^ n as u64);
        if !matches!(r, Some(Ok(()))) || h.tell().ok() != Some(pos) {
            rec.violate("null", format!("a typed operation of {n} bytes on the null handler gives {r:?} and position {:?}, expected {pos}", h.tell()), "");
            break;
        }
    }
}

// ---------------------------------------------------------------- C14
/// The nearest 15.16 pattern; None: two answers are acceptable after one rounding of v * 65536 + 0.5
fn nearest(v: f64) -> (i32, Option<i32>) {
    let x = v * 65536.0; // exact: a power of two (subnormals aside)
    if x >= 2147483647.0 {
        return (i32::MAX, None);
    }
    if x <= -2147483648.0 {
        return (i32::MIN, None);
    }
    let f = x.floor();
    let frac = x - f;
    let (lo, hi) = (f as i32, (f + 1.0).min(2147483647.0) as i32);
    if frac == 0.5 {
        (hi, None)
    } else if (frac - 0.5).abs() < 1e-9 {
        (if frac > 0.5 { hi } else { lo }, Some(if frac > 0.5 { lo } else { hi }))
    } else if frac > 0.5 {
        (hi, None)
    } else {
        (lo, None)
    }
}
fn up(x: f64) -> f64 {
    let b = x.to_bits();
    f64::from_bits(if x == 0.0 { 1 } else if x > 0.0 { b + 1 } else { b - 1 })
}
fn down(x: f64) -> f64 {
    -up(-x)
}

pub fn c14(o: &Opts, rec: &mut Rec) {
    let full = o.full;
    let total: u64 = if full { 1 << 32 } else { o.n(1 << 10, 1 << 26, 1 << 30) };
    let block = |rec: &mut Rec, base: u64, n: u64| {
        let mut v = base;
        while v < base + n {
            let k = CH.min((base + n - v) as usize);
            enter(rec.worker, "15.16 numbers", &(v as u32).to_be_bytes());
            let res = guarded(|| -> std::result::Result<(), String> {
                let s = |e: Error| e.to_string();
                let mut h = FileMem::new(vec![0u8; 4 * k]);
                let mut raw = vec![0u8; 4 * k];
                for i in 0..k {
                    raw[4 * i..4 * i + 4].copy_from_slice(&b4((v + i as u64) as u32));
                }
                h.write(&raw).map_err(s)?;
                h.seek(SeekFrom::Start(0)).map_err(s)?;
                let mut vals = vec![0f64; k];
                for i in 0..k {
                    let p = (v + i as u64) as u32;
                    vals[i] = h.read_s15f16().map_err(|e| format!("reading {p:#x}: {e}"))?;
                    let want = f64::from(p as i32) / 65536.0;
                    if vals[i] != want {
                        return Err(format!("the pattern {p:#010x} is read as {:?}, it is {want:?}", vals[i]));
                    }
                }
                if h.tell().map_err(s)? != 4 * k {
                    return Err("a read does not advance by four bytes".into());
                }
                let mut w = FileMem::new(Vec::with_capacity(4 * k));
                for x in &vals {
                    w.write_s15f16(*x).map_err(s)?;
                }
                w.seek(SeekFrom::Start(0)).map_err(s)?;
                let mut back = vec![0u8; 4 * k];
                w.read(&mut back).map_err(s)?;
                if back != raw {
                    let i = (0..k).find(|i| back[4 * i..4 * i + 4] != raw[4 * i..4 * i + 4]).unwrap();
                    return Err(format!("the value {:?} read from {:02x?} is written as {:02x?}", vals[i], &raw[4 * i..4 * i + 4], &back[4 * i..4 * i + 4]));
                }
                Ok(())
            });
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) => rec.violate("s15f16", e, format!("patterns from {v:#x}")),
                Err(e) => rec.violate("panic:s15f16", format!("panic: {e}"), format!("patterns from {v:#x}")),
            }
            rec.enumerate(k as u64);
            rec.count("patterns read and written back", k as u64);
            v += k as u64;
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    };
    par(o, rec, 0x14, total, |rec, rng, first, n| {
        let base = if full { first } else { rng.u64() % ((1 << 32) - n) };
        block(rec, base, n);
    });
    for e in [0u64, 0x7fff_ff00, 0x8000_0000, 0xffff_ff00] {
        block(rec, e, 256);
    }
    // any float
    par(o, rec, 0x1401, o.n(200, 40_000_000, 1_500_000_000), |rec, rng, _f, n| {
        let mut h = FileMem::new([0u8; 4]);
        for i in 0..n {
            let g = f64::from(rng.u32() as i32);
            let v = match rng.below(12) {
                0 => o.dict.f64(rng),
                1 => rng.uni(-32769.0, 32769.0),
                2 => (g + 0.5) / 65536.0,
                3 => up((g + 0.5) / 65536.0),
                4 => down((g + 0.5) / 65536.0),
                5 => up(g / 65536.0),
                6 => down(g / 65536.0),
                7 => *rng.pick(&[32767.0, 32768.0, -32768.0, -32769.0, 1e9, -1e9, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, 32767.99999, 32767.999984741211, 32767.9999924, -32768.0000076, -32768.00001, 65536.0, -65536.0, 0.0, -0.0, 1e-300, -1e-300, 5e-324]),
                8 => (rng.range(-3, 3) as f64 + *rng.pick(&[0.0, 0.25, 0.5, 0.75, 0.499999, 0.500001])) / 65536.0,
                9 => (if rng.chance(1, 2) { 32768.0 } else { -32768.0 }) + (rng.range(-6, 6) as f64 * 0.25) / 65536.0,
                10 => rng.uni(-2.0, 2.0),
                _ => (g + rng.unit()) / 65536.0,
            };
            if i % 512 == 0 {
                enter(rec.worker, "writing 15.16", &v.to_bits().to_be_bytes());
            }
            let r = guarded(|| -> Result<[u8; 4]> {
                h.seek(SeekFrom::Start(0))?;
                h.write_s15f16(v)?;
                h.seek(SeekFrom::Start(0))?;
                let mut b = [0; 4];
                h.read(&mut b)?;
                Ok(b)
            });
            if i % 8 == 0 {
                rec.case(v.to_bits());
            } else {
                rec.evals += 1;
            }
            match r {
                Ok(Ok(b)) => {
                    if v.is_nan() {
                        continue;
                    }
                    let (want, or) = nearest(v);
                    if b != b4(want as u32) && or.is_none_or(|x| b != b4(x as u32)) {
                        rec.violate("write", format!("writing {v:?} ({:?}/65536) stores {b:02x?}, the nearest value is {:02x?}", v * 65536.0, b4(want as u32)), "");
                    }
                }
                r => rec.violate("write", format!("writing {v:?} gives {r:?}"), ""),
            }
            if enough() {
                break;
            }
        }
        rec.count("floats written", n);
        leave(rec.worker);
        rec.sample(|| "floats on, between and next to grid points and midpoints, out of range, infinite".into());
    });
    // triples
    par(o, rec, 0x1402, o.n(50, 2_000_000, 40_000_000), |rec, rng, _f, n| {
        for _ in 0..n {
            let p: [u32; 3] = std::array::from_fn(|_| o.dict.u32(rng));
            let v = p.map(|x| f64::from(x as i32) / 65536.0);
            let at = rng.below(9) as usize;
            rec.case(hash(&xyz_bytes(p)));
            let r = guarded(|| -> Result<(Vec<u8>, CIEXYZ, usize)> {
                let mut out = vec![0xEE; at + 20];
                let mut h = FileMem::new(&mut out);
                h.seek(SeekFrom::Start(at as u64))?;
                h.write_xyz(CIEXYZ { X: v[0], Y: v[1], Z: v[2] })?;
                let q = h.tell()?;
                h.seek(SeekFrom::Start(at as u64))?;
                let x = h.read_xyz()?;
                let q2 = h.tell()?;
                Ok((out, x, if q == q2 { q } else { usize::MAX }))
            });
            let mut want = vec![0xEE; at + 20];
            want[at..at + 12].copy_from_slice(&xyz_bytes(p));
            match r {
                Ok(Ok((out, x, q))) if out == want && [x.X, x.Y, x.Z] == v && q == at + 12 => {}
                r => rec.violate("xyz", format!("the triple {v:?} at {at} gives {r:02x?}"), ""),
            }
            if enough() {
                break;
            }
        }
        rec.count("triples", n);
    });
}

// ---------------------------------------------------------------- C15
struct Helper {
    name: &'static str,
    /// bytes transferred; None: only positions
    reads: usize,
    writes: usize,
    run: fn(&mut dyn IOHandler, u64, &mut Vec<u16>) -> Result<String>,
}
/// in place of a number of bytes: two for each value of the array
const ARR: usize = usize::MAX;
impl Helper {
    fn reads(&self, n: usize) -> usize {
        if self.reads == ARR { 2 * n } else { self.reads }
    }
    fn writes(&self, n: usize) -> usize {
        if self.writes == ARR { 2 * n } else { self.writes }
    }
}
const HELPERS: [Helper; 17] = [
    Helper { name: "read_u8", reads: 1, writes: 0, run: |h, _, _| h.read_u8().map(|v| format!("{v}")) },
    Helper { name: "read_u16", reads: 2, writes: 0, run: |h, _, _| h.read_u16().map(|v| format!("{v}")) },
    Helper { name: "read_u32", reads: 4, writes: 0, run: |h, _, _| h.read_u32().map(|v| format!("{v}")) },
    Helper { name: "read_u64", reads: 8, writes: 0, run: |h, _, _| h.read_u64().map(|v| format!("{v}")) },
    Helper { name: "read_f32", reads: 4, writes: 0, run: |h, _, _| h.read_f32().map(|v| format!("{:x}", v.to_bits())) },
    Helper { name: "read_s15f16", reads: 4, writes: 0, run: |h, _, _| h.read_s15f16().map(|v| format!("{v}")) },
    Helper { name: "read_xyz", reads: 12, writes: 0, run: |h, _, _| h.read_xyz().map(|v| format!("{v:?}")) },
    Helper { name: "read_u16_array", reads: ARR, writes: 0, run: |h, _, a| h.read_u16_array(a).map(|_| format!("{a:?}")) },
    Helper { name: "write_u8", reads: 0, writes: 1, run: |h, v, _| h.write_u8(v as u8).map(|_| String::new()) },
    Helper { name: "write_u16", reads: 0, writes: 2, run: |h, v, _| h.write_u16(v as u16).map(|_| String::new()) },
    Helper { name: "write_u32", reads: 0, writes: 4, run: |h, v, _| h.write_u32(v as u32).map(|_| String::new()) },
    Helper { name: "write_u64", reads: 0, writes: 8, run: |h, v, _| h.write_u64(v).map(|_| String::new()) },
    Helper { name: "write_f32", reads: 0, writes: 4, run: |h, v, _| h.write_f32(f32::from_bits(v as u32)).map(|_| String::new()) },
    Helper { name: "write_s15f16", reads: 0, writes: 4, run: |h, v, _| h.write_s15f16(v as i32 as f64 / 65536.0).map(|_| String::new()) },
    Helper { name: "write_xyz", reads: 0, writes: 12, run: |h, v, _| h.write_xyz(CIEXYZ { X: v as i32 as f64 / 65536.0, Y: 1.5, Z: -2.25 }).map(|_| String::new()) },
    Helper { name: "write_u16_array", reads: 0, writes: ARR, run: |h, _, a| h.write_u16_array(a).map(|_| String::new()) },
    Helper { name: "reported_size", reads: 0, writes: 0, run: |h, _, _| h.reported_size().map(|v| format!("{v}")) },
];
const KINDS: [ErrorKind; 30] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::Interrupted, ErrorKind::WriteZero,
    ErrorKind::PermissionDenied, ErrorKind::NotFound, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidInput,
    ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::ConnectionRefused, ErrorKind::NotConnected,
    ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::AlreadyExists, ErrorKind::Unsupported, ErrorKind::OutOfMemory,
    ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::Deadlock,
    ErrorKind::IsADirectory, ErrorKind::NotADirectory, ErrorKind::ReadOnlyFilesystem, ErrorKind::HostUnreachable, ErrorKind::NetworkDown,
];

pub fn c15(o: &Opts, rec: &mut Rec) {
    par(o, rec, 0x15, o.n(3, 12_000, 300_000), |rec, rng, _f, n| {
        for _ in 0..n {
            let mut data = vec![0u8; 16 + rng.below(40) as usize];
            rng.fill(&mut data);
            let val = o.dict.u64(rng);
            let count = match rng.below(4) {
                0 => 7,
                1 => rng.below(4) as usize,
                2 if !cfg!(miri) && rng.chance(1, 4) => rng.below(70) as usize,
                _ => rng.below(20) as usize,
            };
            if 2 * count > data.len() {
                data.resize(2 * count + rng.below(6) as usize, 0x3C);
            }
            for h in &HELPERS {
                let (reads, writes) = (h.reads(count), h.writes(count));
                let start = match rng.below(4) {
                    0 => 0,
                    1 => data.len() - reads.min(data.len()),
                    2 => data.len() + if reads == 0 { 3 } else { 0 },
                    _ => rng.below((data.len() - reads.min(data.len())) as u64 + 1) as usize,
                };
                // without faults
                let arr = || -> Vec<u16> { (0..count as u16).map(|i| i.wrapping_mul(0x1357) ^ val as u16).collect() };
                let mut a = arr();
                let mut s = Spy::new(data.clone(), start);
                enter(rec.worker, h.name, &data);
                let det = || format!("{} at {start} of {} bytes", h.name, data.len());
                let Some(base) = rec.lib(h.name, det, || (h.run)(&mut s, val, &mut a)) else { continue };
                rec.case(hash(h.name.as_bytes()) ^ hash(&data) ^ start as u64);
                rec.count("undisturbed runs", 1);
                if reads > 0 && start + reads > data.len() {
                    if base.is_ok() {
                        rec.violate(h.name, format!("{} past the end gives a value", h.name), det());
                    }
                    continue;
                }
                let ok = match &base {
                    Ok(v) => v.clone(),
                    Err(e) => {
                        rec.violate(h.name, format!("{} fails although no operation failed: {e:?}", h.name), det());
                        continue;
                    }
                };
                // transferred exactly the documented bytes, in order
                let mut at = start;
                let (mut rd, mut wr, mut order) = (0, 0, true);
                for (d, _) in &s.log {
                    match d {
                        Did::Read(p, n) => {
                            order &= *p == at;
                            at += n;
                            rd += n;
                        }
                        Did::Write(p, n) => {
                            order &= *p == at;
                            at += n;
                            wr += n;
                        }
                        _ => {}
                    }
                }
                if rd != reads || wr != writes || !order {
                    rec.violate(h.name, format!("{} transferred {rd} bytes in and {wr} out ({:?}), documented are {} and {}", h.name, s.log, reads, writes), det());
                }
                if s.pos != start + reads + writes {
                    rec.violate(h.name, format!("{} leaves the position at {}, started at {start}", h.name, s.pos), det());
                }
                if h.name == "reported_size" && (ok != data.len().to_string() || s.bytes != data) {
                    rec.violate(h.name, format!("the size is given as {ok}, it is {}", data.len()), det());
                }
                // each operation fails in turn: once, or from there on
                for i in 0..s.log.len() {
                    for forever in [false, true] {
                        for partial in [false, true] {
                            let kind = *rng.pick(&KINDS);
                            let os = if rng.chance(1, 4) { Some(rng.range(1, 133) as i32) } else { None };
                            let mut f = Spy::new(data.clone(), start);
                            f.fail = i..if forever { usize::MAX } else { i + 1 };
                            f.kind = kind;
                            f.os = os;
                            f.partial = partial;
                            let mut a = arr();
                            let det = || format!("{} at {start} of {} bytes; operation {i} of {:?} fails with {}{}", h.name, data.len(), s.log, os.map_or(format!("{kind:?}"), |n| Error::from_raw_os_error(n).to_string()), if forever { ", and all later ones" } else { "" });
                            enter(rec.worker, h.name, det().as_bytes());
                            let Some(r) = rec.lib(h.name, det, || (h.run)(&mut f, val, &mut a)) else { continue };
                            rec.enumerate(1);
                            rec.count("injected faults", 1);
                            match r {
                                Ok(v) => rec.violate(h.name, format!("{} gives {v:?} although an operation failed", h.name), det()),
                                Err(e) => {
                                    let text = e.to_string();
                                    // (a size query may report either of two failures)
                                    let fine = match os {
                                        Some(n) => e.raw_os_error() == Some(n),
                                        None => e.kind() == kind && if forever { text.starts_with("injected at ") } else { text == format!("injected at {i}") },
                                    };
                                    if !fine {
                                        rec.violate(h.name, format!("{} returns {e:?} instead of the handler's error", h.name), det());
                                    }
                                }
                            }
                            let after = f.log.iter().skip(i + 1).filter(|(d, _)| matches!(d, Did::Read(..) | Did::Write(..))).count();
                            if after > 0 {
                                rec.violate(h.name, format!("{} transferred data after the failure: {:?}", h.name, f.log), det());
                            }
                            if writes == 0 && f.bytes != data {
                                rec.violate(h.name, format!("{} changed the stream", h.name), det());
                            }
                        }
                    }
                }
            }
            // empty arrays need no operation and cannot fail
            let mut s = Spy::new(data.clone(), 3);
            s.fail = 0..usize::MAX;
            let r = rec.lib("empty array", String::new, || (s.read_u16_array(&mut []).is_ok(), s.write_u16_array(&[]).is_ok()));
            if r.is_some() && s.bytes != data {
                rec.violate("empty", "an empty array changed the stream", "");
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
        rec.sample(|| format!("{:?}: every operation index failed once and from there on, with {} error kinds", HELPERS.map(|h| h.name), KINDS.len()));
    });
    // long arrays: one operation, anywhere, fails
    par(o, rec, 0x1515, o.n(2, 1600, 60_000), |rec, rng, _f, n| {
        for _ in 0..n {
            let max = if cfg!(miri) { 300 } else if rng.chance(1, 60) { 1 << 21 } else { 6000 };
            let len = 1 + o.dict.size(rng, max);
            let write = rng.chance(1, 2);
            let name = if write { "write_u16_array" } else { "read_u16_array" };
            let mut data = vec![0u8; 2 * len + 5];
            rng.fill(&mut data);
            let arr: Vec<u16> = (0..len).map(|i| (i as u16).wrapping_mul(0x9E37)).collect();
            let run = |s: &mut Spy, a: &mut Vec<u16>| if write { s.write_u16_array(a) } else { s.read_u16_array(a) };
            enter(rec.worker, name, &(len as u64).to_be_bytes());
            let det = || format!("{name} of {len} values");
            let mut s = Spy::new(data.clone(), 3);
            let mut a = arr.clone();
            if !matches!(rec.lib(name, det, || run(&mut s, &mut a).is_ok()), Some(true)) {
                rec.violate(name, format!("{name} fails although no operation failed"), det());
                continue;
            }
            let moved: usize = s.log.iter().map(|(d, _)| if let Did::Read(_, n) | Did::Write(_, n) = d { *n } else { 0 }).sum();
            if moved != 2 * len {
                rec.violate(name, format!("{name} of {len} values transferred {moved} bytes"), det());
            }
            let ops = s.log.len();
            let first_block = if ops > 600 { rng.below(600) } else { 0 };
            for at in [0, ops as u64 - 1, rng.below(ops as u64), first_block.min(ops as u64 - 1)] {
                let kind = *rng.pick(&KINDS);
                let mut f = Spy::new(data.clone(), 3);
                f.fail = at as usize..if rng.chance(1, 2) { usize::MAX } else { at as usize + 1 };
                f.kind = kind;
                f.os = None;
                f.partial = rng.chance(1, 2);
                let mut a = arr.clone();
                let det = || format!("{name} of {len} values, operation {at} of {ops} fails with {kind:?}");
                let Some(r) = rec.lib(name, det, || run(&mut f, &mut a)) else { continue };
                match r {
                    Ok(()) => rec.violate(name, format!("{name} succeeds although an operation failed"), det()),
                    Err(e) if e.kind() != kind || e.to_string() != format!("injected at {at}") => rec.violate(name, format!("{name} returns {e:?} instead of the handler's error"), det()),
                    Err(_) => {}
                }
                if f.log.iter().skip(at as usize + 1).any(|(d, _)| matches!(d, Did::Read(..) | Did::Write(..))) {
                    rec.violate(name, format!("{name} transferred data after the failure"), det());
                }
                rec.count("injected faults in long arrays", 1);
            }
            rec.case(hash(&data) ^ len as u64);
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
    // truncated streams: every helper at every distance from the end, on the library's own handlers
    let path = std::path::Path::new(&o.scratch).join("c15-f");
    for (h, n) in HELPERS.iter().filter(|h| h.reads > 0).flat_map(|h| [1, 7, 12].map(|n| (h, n))) {
        let reads = h.reads(n);
        for have in 0..=reads {
            let data = vec![0x42u8; have];
            for kind in 0..3 {
                rec.enumerate(1);
                let mut a = vec![0; n];
                let det = || format!("{} with {have} bytes left, handler {kind}", h.name);
                let r = match kind {
                    0 => {
                        std::fs::write(&path, &data).expect("scratch");
                        let mut f = std::fs::File::open(&path).expect("scratch");
                        rec.lib(h.name, det, || (h.run)(&mut f, 0, &mut a).is_ok())
                    }
                    1 => rec.lib(h.name, det, || (h.run)(&mut FileMem::new(data.clone()), 0, &mut a).is_ok()),
                    _ => rec.lib(h.name, det, || (h.run)(&mut FileMem::new(data.clone().into_boxed_slice()), 0, &mut a).is_ok()),
                };
                if r.is_some_and(|ok| ok != (have == reads)) {
                    rec.violate(h.name, format!("{} with {have} of {} bytes left gives {}", h.name, reads, if r == Some(true) { "a value" } else { "an error" }), det());
                }
                rec.count("truncated streams", 1);
            }
        }
    }
    // a fixed buffer that is too small for a write
    for (h, n) in HELPERS.iter().filter(|h| h.writes > 0).flat_map(|h| [1, 7, 12].map(|n| (h, n))) {
        let writes = h.writes(n);
        for room in 0..=writes {
            let mut buf = vec![0u8; room];
            let mut a = vec![9; n];
            rec.enumerate(1);
            let r = rec.lib(h.name, || format!("{room}"), || (h.run)(&mut FileMem::new(buf.as_mut_slice()), 5, &mut a).is_ok());
            if r.is_some_and(|ok| ok != (room == writes)) {
                rec.violate(h.name, format!("{} into {room} bytes of room gives ok={r:?}", h.name), "");
            }
        }
    }
}

// ---------------------------------------------------------------- C18
pub fn c18(o: &Opts, rec: &mut Rec) {
    let full = o.full;
    let n16 = if o.tier == Tier::Mini { 300 } else { 65536 };
    for v in 0..n16 as u32 {
        let x = (if n16 == 300 { v * 217 } else { v }) as u16;
        let (hi, lo) = ((x >> 8) as u8, x as u8);
        rec.enumerate(1);
        rec.lib("16", || format!("{x:#x}"), || {
            [
                (be::adjust_endianness_u16(x).to_ne_bytes() == [hi, lo], "big_endian::adjust_endianness_u16"),
                (le::adjust_endianness_u16(x).to_ne_bytes() == [lo, hi], "little_endian::adjust_endianness_u16"),
                (io::adjust_endianness_u16(x).to_ne_bytes() == b2(x), "io::adjust_endianness_u16"),
                (u16::from_ne_bytes(be::adjust_endianness_16([hi, lo])) == x, "big_endian::adjust_endianness_16"),
                (u16::from_ne_bytes(le::adjust_endianness_16([lo, hi])) == x, "little_endian::adjust_endianness_16"),
                (u16::from_ne_bytes(io::adjust_endianness_16(b2(x))) == x, "io::adjust_endianness_16"),
                (be::adjust_endianness_16(be::adjust_endianness_16([hi, lo])) == [hi, lo], "big_endian::adjust_endianness_16 twice"),
                (le::adjust_endianness_16(le::adjust_endianness_16([hi, lo])) == [hi, lo], "little_endian::adjust_endianness_16 twice"),
                (be::adjust_endianness_u16(be::adjust_endianness_u16(x)) == x, "big_endian::adjust_endianness_u16 twice"),
                (le::adjust_endianness_u16(le::adjust_endianness_u16(x)) == x, "little_endian::adjust_endianness_u16 twice"),
            ]
        })
        .map(|l| report(rec, &l, format!("{x:#06x}")));
        rec.count("16-bit values", 1);
    }
    let total: u64 = if full { 1 << 32 } else { o.n(1 << 9, 1 << 26, 1 << 30) };
    par(o, rec, 0x18, total, |rec, rng, first, n| {
        let base = if full { first } else { rng.u64() % ((1 << 32) - n) };
        for v in base..base + n {
            let x = v as u32;
            let b = x.to_be_bytes();
            let r = [b[3], b[2], b[1], b[0]];
            if v % 4096 == 0 {
                enter(rec.worker, "32-bit helpers", &b);
            }
            let ok = be::adjust_endianness_u32(x).to_ne_bytes() == b
                && le::adjust_endianness_u32(x).to_ne_bytes() == r
                && io::adjust_endianness_u32(x).to_ne_bytes() == b4(x)
                && u32::from_ne_bytes(be::adjust_endianness_32(b)) == x
                && u32::from_ne_bytes(le::adjust_endianness_32(r)) == x
                && u32::from_ne_bytes(io::adjust_endianness_32(b4(x))) == x
                && be::adjust_endianness_32(be::adjust_endianness_32(b)) == b
                && le::adjust_endianness_32(le::adjust_endianness_32(b)) == b
                && be::adjust_endianness_u32(be::adjust_endianness_u32(x)) == x
                && le::adjust_endianness_u32(le::adjust_endianness_u32(x)) == x;
            if !ok {
                rec.violate("u32", format!("a 32-bit helper converts {x:#010x} wrongly"), format!("be {:#x} le {:#x} io {:#x} be[] {:x?} le[] {:x?} io[] {:x?}", be::adjust_endianness_u32(x), le::adjust_endianness_u32(x), io::adjust_endianness_u32(x), be::adjust_endianness_32(b), le::adjust_endianness_32(r), io::adjust_endianness_32(b4(x))));
                break;
            }
        }
        rec.enumerate(n);
        rec.count("32-bit values", n);
        leave(rec.worker);
    });
    par(o, rec, 0x1801, o.n(300, 20_000_000, 1_000_000_000), |rec, rng, _f, n| {
        for i in 0..n {
            let x = o.dict.u64(rng);
            let b = x.to_be_bytes();
            let mut r = b;
            r.reverse();
            let l = [
                (be::adjust_endianness_u64(x).to_ne_bytes() == b, "big_endian::adjust_endianness_u64"),
                (le::adjust_endianness_u64(x).to_ne_bytes() == r, "little_endian::adjust_endianness_u64"),
                (io::adjust_endianness_u64(x).to_ne_bytes() == b8(x), "io::adjust_endianness_u64"),
                (u64::from_ne_bytes(be::adjust_endianness_64(b)) == x, "big_endian::adjust_endianness_64"),
                (u64::from_ne_bytes(le::adjust_endianness_64(r)) == x, "little_endian::adjust_endianness_64"),
                (u64::from_ne_bytes(io::adjust_endianness_64(b8(x))) == x, "io::adjust_endianness_64"),
                (be::adjust_endianness_64(be::adjust_endianness_64(b)) == b, "big_endian::adjust_endianness_64 twice"),
                (le::adjust_endianness_64(le::adjust_endianness_64(b)) == b, "little_endian::adjust_endianness_64 twice"),
                (be::adjust_endianness_u64(be::adjust_endianness_u64(x)) == x, "big_endian::adjust_endianness_u64 twice"),
                (le::adjust_endianness_u64(le::adjust_endianness_u64(x)) == x, "little_endian::adjust_endianness_u64 twice"),
            ];
            if i % 16 == 0 {
                rec.case(x);
            } else {
                rec.evals += 1;
            }
            report(rec, &l, format!("{x:#018x}"));
            if enough() {
                break;
            }
        }
        rec.count("64-bit values", n);
        rec.sample(|| "64-bit values: random, single bits, masks, constants of the source".into());
    });
    rec.count(if LE { "little-endian option on" } else { "little-endian option off" }, 1);
}
fn report(rec: &mut Rec, l: &[(bool, &str)], v: String) {
    for (ok, name) in l {
        if !ok {
            rec.violate(*name, format!("{name} converts {v} wrongly"), v.clone());
        }
    }
}
