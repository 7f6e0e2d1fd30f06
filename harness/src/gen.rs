//! Generator of profile files: well-formed ones, ones with a chosen defect, hostile directories, mutations and noise.
use crate::dict::Dict;
use crate::model::{days_in, Content};
use crate::rt::Rng;

/// First bytes and length of the repository's own test profile.
pub fn real_profile() -> Content {
    let p = concat!(env!("CARGO_MANIFEST_DIR"), "/real_head.bin");
    let head = std::fs::read(p).unwrap_or_default();
    if head.len() < 400 {
        return Content::new(vec![0; 132]);
    }
    if cfg!(miri) {
        return Content::new(head[..400].to_vec());
    }
    Content { len: 60960, head }
}

pub fn date(r: &mut Rng) -> [u16; 6] {
    let y = match r.below(5) {
        0 => r.below(65536) as u16,
        1 => *r.pick(&[0, 1, 4, 100, 400, 1582, 1600, 1900, 1970, 1999, 2000, 2004, 2100, 9999, 10000, 32767, 32768, 65535]),
        _ => r.range(1970, 2100) as u16,
    };
    let m = r.range(1, 12) as u16;
    let last = days_in(y.into(), m.into()) as i64;
    let d = if r.chance(1, 3) { last } else { r.range(1, last) } as u16;
    let (h, mi, s) = match r.below(4) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        _ => (r.below(24) as u16, r.below(60) as u16, r.below(60) as u16),
    };
    [y, m, d, h, mi, s]
}
pub fn bad_date(r: &mut Rng) -> [u16; 6] {
    let mut d = date(r);
    match r.below(9) {
        0 => d[1] = 0,
        1 => d[1] = *r.pick(&[13, 14, 255, 256, 257, 65535]),
        2 => d[2] = 0,
        3 => d[2] = days_in(d[0].into(), d[1].into()) as u16 + 1,
        4 => d[2] = *r.pick(&[32, 255, 256, 257, 65535]),
        5 => d[3] = *r.pick(&[24, 25, 255, 256, 65535]),
        6 => d[4] = *r.pick(&[60, 61, 255, 256, 65535]),
        7 => d[5] = *r.pick(&[60, 61, 255, 256, 65535]),
        _ => d = [0; 6],
    }
    d
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    /// anything
    Any,
    /// opens successfully
    Good,
    /// opens, and most of the effort goes into the directory
    Tags,
}

/// Header fields as real profiles have them: few values each, so that combinations of several occur.
fn plausible(r: &mut Rng, d: &Dict, h: &mut [u8; 128]) {
    let mut put = |at: usize, v: u32| h[at..at + 4].copy_from_slice(&v.to_be_bytes());
    let s = |b: &[u8; 4]| u32::from_be_bytes(*b);
    put(4, *r.pick(&[s(b"lcms"), s(b"ADBE"), s(b"appl"), s(b"argl"), 0, s(b"HCMM"), s(b"CCMS")]));
    put(8, *r.pick(&[0x0200_0000, 0x0210_0000, 0x0220_0000, 0x0240_0000, 0x0400_0000, 0x0420_0000, 0x0430_0000, 0x0440_0000, 0x0500_0000]));
    put(12, s(*r.pick(&[b"mntr", b"scnr", b"prtr", b"link", b"abst", b"spac", b"nmcl"])));
    let space = [b"RGB ", b"CMYK", b"GRAY", b"Lab ", b"XYZ ", b"YCbr", b"Luv ", b"Yxy ", b"HSV ", b"HLS ", b"CMY ", b"1CLR", b"2CLR", b"6CLR", b"FCLR", b"MCH1", b"MCHF", b"LuvK"];
    let n = if r.chance(1, 2) { 4 } else { space.len() as u64 };
    put(16, s(space[r.below(n) as usize]));
    put(20, if r.chance(1, 5) { s(space[r.below(n) as usize]) } else if r.chance(1, 2) { s(b"XYZ ") } else { s(b"Lab ") });
    put(40, *r.pick(&[s(b"APPL"), s(b"MSFT"), s(b"SUNW"), s(b"SGI "), s(b"TGNT"), s(b"*nix"), 0]));
    put(44, if r.chance(1, 8) { d.u32(r) } else { r.below(4) as u32 });
    put(48, if r.chance(1, 2) { 0 } else { d.sig(r) });
    put(52, if r.chance(1, 2) { 0 } else { d.sig(r) });
    put(56, if r.chance(1, 6) { r.u32() } else { 0 });
    put(60, if r.chance(1, 6) { r.u32() } else { r.below(16) as u32 });
    put(64, if r.chance(1, 8) { d.u32(r) } else { r.below(4) as u32 });
    if r.chance(3, 4) {
        put(68, 0xf6d6);
        put(72, 0x1_0000);
        put(76, 0xd32d);
    } else {
        put(68, d.u32(r));
        put(72, d.u32(r));
        put(76, d.u32(r));
    }
    put(80, *r.pick(&[s(b"lcms"), s(b"ADBE"), s(b"appl"), 0, s(b"HP  ")]));
    if r.chance(1, 2) {
        r.fill(&mut h[84..100]);
    }
    if r.chance(1, 6) {
        r.fill(&mut h[100..]);
    }
}

/// A whole field, or part of the profile ID, with what a field may hold when nobody has set it, or with another field's bytes.
fn uniform(r: &mut Rng, d: &Dict, h: &mut [u8; 128]) {
    let (at, n) = *r.pick(&[(84, 16), (84, 16), (84, 8), (92, 8), (84, 4), (96, 4), (56, 8), (56, 4), (60, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (40, 4), (44, 4), (48, 4), (52, 4), (64, 4), (68, 12), (80, 4), (100, 28)]);
    match r.below(8) {
        0 | 1 => h[at..at + n].fill(0xff),
        2 => h[at..at + n].fill(0),
        3 => h[at..at + n].fill(*r.pick(&[b' ', b'?', b'0', 0x80, 0x7f, 1, 0xaa, 0x55, 0xcc, 0xcd])),
        4 => {
            // one word over and over
            let v = d.u32(r).to_be_bytes();
            for (i, b) in h[at..at + n].iter_mut().enumerate() {
                *b = v[i % 4];
            }
        }
        5 => {
            let from = 4 * r.below((128 - n as u64) / 4 + 1) as usize;
            h.copy_within(from..from + n, at);
        }
        6 => {
            h[at..at + n].fill(0);
            h[at + if r.chance(1, 2) { n - 1 } else { 0 }] = r.u32() as u8;
        }
        _ => {
            // counting up
            let k = r.u32() as u8;
            for (i, b) in h[at..at + n].iter_mut().enumerate() {
                *b = k.wrapping_add(i as u8);
            }
        }
    }
}

pub fn header(r: &mut Rng, d: &Dict) -> [u8; 128] {
    let mut h = [0u8; 128];
    match r.below(6) {
        4 | 5 => plausible(r, d, &mut h),
        0 => r.fill(&mut h),
        1 => {
            // every byte different from its neighbours
            let k = r.below(256) as u8;
            for (i, b) in h.iter_mut().enumerate() {
                *b = (i as u8).wrapping_mul(2).wrapping_add(k) | 1;
            }
        }
        _ => {
            for i in 0..32 {
                let v = if matches!(i, 1 | 3 | 4 | 5 | 10 | 12 | 13 | 20) { d.sig(r) } else { d.u32(r) };
                h[4 * i..4 * i + 4].copy_from_slice(&v.to_be_bytes());
            }
            if r.chance(1, 2) {
                h[100..].fill(0);
            }
        }
    }
    for _ in 0..if r.chance(1, 2) { r.below(3) } else { 0 } {
        uniform(r, d, &mut h);
    }
    for (i, v) in date(r).iter().enumerate() {
        h[24 + 2 * i..26 + 2 * i].copy_from_slice(&v.to_be_bytes());
    }
    h[36..40].copy_from_slice(b"acsp");
    if r.chance(1, 3) {
        let v: u32 = *r.pick(&[0x0420_0000, 0x0210_0000, 0x0400_0000, 0x0440_0000, 0x0500_0000, 0x0240_0000, 0, 0xffff_ffff]);
        h[8..12].copy_from_slice(&v.to_be_bytes());
    }
    h
}

fn tag_sig(r: &mut Rng, d: &Dict, used: &[u32]) -> u32 {
    if !used.is_empty() && r.chance(1, 8) {
        return *r.pick(used);
    }
    d.sig(r)
}

pub fn content(r: &mut Rng, d: &Dict, real: &Content, want: Want) -> Content {
    let kind = match want {
        Want::Any => r.below(20),
        Want::Good | Want::Tags => 4 + r.below(12),
    };
    match kind {
        0 => {
            let n = r.below(300) as usize;
            let mut v = vec![0; n];
            r.fill(&mut v);
            return Content::new(v);
        }
        1 => {
            // any truncation
            let c = structured(r, d, Want::Good);
            let n = r.below(c.head.len() as u64 + 1);
            let mut h = c.head;
            h.truncate(n as usize);
            return Content::new(h);
        }
        2 | 3 => {
            let mut c = real.clone();
            for _ in 0..=r.below(4) {
                let n = if r.chance(1, 2) { 128 } else { c.head.len().min(256) } as u64;
                let at = r.below(n) as usize;
                c.head[at] = if r.chance(1, 2) { c.head[at] ^ (1 << r.below(8)) } else { r.u32() as u8 };
            }
            if r.chance(1, 4) {
                c.len = r.below(c.len + 1);
                c.head.truncate(c.len as usize);
            }
            return c;
        }
        4 => {
            // the real profile with some of its tags changed
            let mut c = real.clone();
            let n = c.be32(128).min(20) as u64;
            for _ in 0..r.below(3) {
                let at = 132 + 12 * r.below(n.max(1)) as usize + 4 * r.below(3) as usize;
                let v = if r.chance(1, 2) { c.be32(at).wrapping_add(r.below(3) as u32).wrapping_sub(1) } else { d.u32(r) };
                c.put32(at, v);
            }
            return c;
        }
        _ => {}
    }
    structured(r, d, want)
}

/// A profile with `n` entries, all inside the file and different from each other.
pub fn inside(r: &mut Rng, d: &Dict, n: u32) -> Content {
    let mut v = header(r, d).to_vec();
    let end = 132 + 12 * n;
    let len = end + 600 + r.below(5000) as u32;
    v[0..4].copy_from_slice(&len.to_be_bytes());
    v.extend_from_slice(&n.to_be_bytes());
    for k in 0..n {
        let (o, s) = (end + k * 3 + r.below(3) as u32, 1 + r.below(200) as u32);
        v.extend_from_slice(&d.sig(r).to_be_bytes());
        v.extend_from_slice(&o.to_be_bytes());
        v.extend_from_slice(&s.to_be_bytes());
    }
    v.extend_from_slice(&[0x55; 16]);
    Content { head: v, len: len.into() }
}

pub fn structured(r: &mut Rng, d: &Dict, want: Want) -> Content {
    let mut h = header(r, d);
    let hostile = want == Want::Any;
    if hostile {
        if r.chance(1, 12) {
            let m: u32 = match r.below(6) {
                0 => 0x7073_6361,
                1 => 0x6163_7370 ^ (1 << r.below(32)),
                2 => 0x6163_7370 ^ (0xff << (8 * r.below(4))),
                3 => d.sig(r),
                4 => 0x4143_5350,
                _ => 0,
            };
            h[36..40].copy_from_slice(&m.to_be_bytes());
        }
        if r.chance(1, 12) {
            for (i, v) in bad_date(r).iter().enumerate() {
                h[24 + 2 * i..26 + 2 * i].copy_from_slice(&v.to_be_bytes());
            }
        }
    }
    let count = match r.below(16) {
        0 => 0,
        1 => 1,
        2..=8 => r.below(12),
        9 => r.below(101),
        10 => 99,
        11 | 12 => 100,
        13 => r.range(90, 100) as u64,
        14 if hostile => *r.pick(&[101, 102, 127, 128, 200, 255, 256, 257, 0xffff, 0x10000, 0x8000_0000, 0xffff_ffff, 0x0100_0000, 0x1_0001]),
        15 if hostile => {
            let v = u64::from(d.u32(r));
            if v <= 2000 || r.chance(1, 2) { v } else { v % 110 }
        }
        _ => 2 + r.below(5),
    };
    // the interpreter is slow: small directories there, most of the time
    let count = if cfg!(miri) && count > 3 && count <= 100 && r.chance(29, 30) { count % 4 } else { count };
    let entries = count.min(130) as usize;
    let dir_end = 132 + 12 * entries as u64;
    let tail = match r.below(4) {
        0 => 0,
        1 => r.below(8),
        2 => r.below(400),
        _ => r.below(if cfg!(miri) { 60 } else { 3000 }),
    };
    let mut len = dir_end + tail;
    if !cfg!(miri) && r.chance(1, 40) {
        len = *r.pick(&[0xffff, 0x1_0000, 0x1_0001, 0x00ff_ffff, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_0000_0000 + 200, 0x1_4000_0000, 0x2_0000_0000]);
    }
    let size: u32 = match r.below(12) {
        0..=5 => len.min(0xffff_ffff) as u32,
        6 => (len as u32).wrapping_sub(r.range(-3, 3) as u32),
        7 => r.below(len.min(0xffff_ffff) + 1) as u32,
        8 => 0xffff_ffff,
        9 => *r.pick(&[0, 1, 127, 128, 131, 132, 133, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe]),
        10 => (len + r.below(5000)).min(0xffff_ffff) as u32,
        _ => d.u32(r),
    };
    h[0..4].copy_from_slice(&size.to_be_bytes());
    let bound = u64::from(size).min(len);
    let mut v = Vec::with_capacity(dir_end as usize + 8);
    v.extend_from_slice(&h);
    v.extend_from_slice(&(count as u32).to_be_bytes());
    let mut used: Vec<u32> = vec![];
    let mut prev: Vec<(u32, u32)> = vec![];
    let alias = *r.pick(&[0u64, 1, 2, 5, 9]);
    // directories all of whose entries are recorded
    let inside = r.chance(1, 3);
    for _ in 0..entries {
        let sig = tag_sig(r, d, &used);
        let (mut o, mut s) = match r.below(if inside { 6 } else { 14 }) {
            0..=4 => {
                let o = r.below(bound + 1);
                (o, r.below(bound - o + 1))
            }
            5 => {
                let o = r.below(bound + 1);
                (o, bound - o)
            }
            6 => {
                let o = r.below(bound + 2);
                (o, bound + 1 - o)
            }
            7 => (bound, r.below(2)),
            8 => (bound + r.below(2), 0),
            9 => {
                // the sum only fits modulo 2^32
                let s = 1 + r.below(0xffff_ffff);
                (0x1_0000_0000 - s + r.below(bound.min(s - 1) + 1).min(s - 1), s)
            }
            10 => *r.pick(&[(0, 0), (0, 0xffff_ffff), (0xffff_ffff, 0), (0xffff_ffff, 1), (0xffff_ffff, 0xffff_ffff), (0x8000_0000, 0x8000_0000), (0x7fff_ffff, 0x7fff_ffff), (1, 0xffff_ffff)]),
            11 => (u64::from(d.u32(r)), u64::from(d.u32(r))),
            12 => (r.below(bound + 1), u64::from(d.u32(r))),
            _ => (128 + r.below(400), r.below(100)),
        };
        if !prev.is_empty() && r.below(10) < alias && !(inside && alias == 9) {
            let (po, ps) = *r.pick(&prev);
            match r.below(12) {
                0 => (o, s) = (po.into(), (ps ^ 1).into()),
                1 => (o, s) = (u64::from(po) ^ 1, ps.into()),
                2 => (o, s) = (ps.into(), po.into()),
                3 => (o, s) = (u64::from(po) + 1, u64::from(ps).wrapping_sub(1) & 0xffff_ffff),
                _ => (o, s) = (po.into(), ps.into()),
            }
        }
        let (o, s) = (o as u32, s as u32);
        used.push(sig);
        prev.push((o, s));
        v.extend_from_slice(&sig.to_be_bytes());
        v.extend_from_slice(&o.to_be_bytes());
        v.extend_from_slice(&s.to_be_bytes());
    }
    let mut c = Content { head: v, len };
    if hostile && r.chance(1, 16) {
        c.len = c.len.min(r.below(dir_end + 2));
    }
    if (c.head.len() as u64) > c.len {
        c.head.truncate(c.len as usize);
    }
    // some data after the directory, so that reading past it shows
    let more = (c.len - c.head.len() as u64).min(24) as usize;
    let at = c.head.len();
    c.head.resize(at + more, 0);
    if want == Want::Any || r.chance(1, 2) {
        r.fill(&mut c.head[at..]);
    }
    c
}
