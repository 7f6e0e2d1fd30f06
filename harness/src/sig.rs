//! C19: signature conversions, against the definition "the first four bytes, padded with spaces".
use crate::rt::*;
use lcms2::types::Signature;
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::Mutex;

fn number(s: Signature) -> u32 {
    s.into()
}
fn bytes(s: Signature) -> [u8; 4] {
    s.into()
}
fn text(s: Signature) -> String {
    valid(s.into())
}
/// Under a sanitizer: a text that is no text is an invalid value, whatever it says.
fn valid(s: String) -> String {
    if std::str::from_utf8(s.as_bytes()).is_err() && ["ASAN_OPTIONS", "MSAN_OPTIONS", "TSAN_OPTIONS"].iter().any(|v| std::env::var_os(v).is_some()) {
        eprintln!("ERROR: TextSanitizer: the library made a text that is not UTF-8: {:02x?}", s.as_bytes());
        std::process::exit(77);
    }
    s
}
fn pad(b: &[u8]) -> [u8; 4] {
    std::array::from_fn(|i| b.get(i).copied().unwrap_or(b' '))
}
/// Written out by hand: which four-byte sequences are UTF-8.
fn utf8(b: &[u8; 4]) -> bool {
    let mut i = 0;
    while i < 4 {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xe1..=0xef => (2, 0x80, 0xbf),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        for k in 1..=n {
            let Some(x) = b.get(i + k) else { return false };
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if *x < l || *x > h {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
fn check_text(rec: &mut Rec, b: [u8; 4]) {
    let s = Signature::from(&b);
    let want: &[u8] = if utf8(&b) { &b } else { b"    " };
    if let Some(t) = rec.lib("text", || hex(&b), || text(s)) {
        if t.as_bytes() != want {
            rec.violate("text", format!("signature {} as text is {:?} (bytes {}), expected bytes {}", hex(&b), t, hex(t.as_bytes()), hex(want)), hex(&b));
        }
    }
}
fn check_debug(rec: &mut Rec, b: [u8; 4], seen: &mut HashMap<String, [u8; 4]>) {
    let s = Signature::from(&b);
    if let Some(d) = rec.lib("debug", || hex(&b), || format!("{s:?}")) {
        match seen.get(&d) {
            Some(o) if *o != b => rec.violate("debug", format!("signatures {} and {} both print as {d:?}", hex(&b), hex(o)), hex(&b)),
            _ => {
                if seen.len() < 400_000 {
                    seen.insert(d, b);
                }
            }
        }
    }
    if let Some(d) = rec.lib("debug", || hex(&b), || format!("{s:#?}")) {
        if d.is_empty() {
            rec.violate("debug", "empty debug output", hex(&b));
        }
    }
}
/// Every way to build a signature from this slice.
fn check_slice(rec: &mut Rec, v: &[u8]) {
    let want = pad(v);
    rec.case(hash(v));
    let mut all: Vec<(&str, Signature)> = vec![];
    let det = || hex(v);
    if let Some(s) = rec.lib("slice", det, || Signature::from(v)) {
        all.push(("slice", s));
    }
    match v.len() {
        1 => all.extend(rec.lib("array", det, || Signature::from(<&[u8; 1]>::try_from(v).unwrap())).map(|s| ("array of 1", s))),
        2 => all.extend(rec.lib("array", det, || Signature::from(<&[u8; 2]>::try_from(v).unwrap())).map(|s| ("array of 2", s))),
        3 => all.extend(rec.lib("array", det, || Signature::from(<&[u8; 3]>::try_from(v).unwrap())).map(|s| ("array of 3", s))),
        4 => {
            all.extend(rec.lib("array", det, || Signature::from(<&[u8; 4]>::try_from(v).unwrap())).map(|s| ("array of 4", s)));
            all.extend(rec.lib("new", det, || Signature::new(<&[u8; 4]>::try_from(v).unwrap())).map(|s| ("new", s)));
            all.extend(rec.lib("number", det, || Signature::from(u32::from_be_bytes(v.try_into().unwrap()))).map(|s| ("number", s)));
        }
        _ => {}
    }
    if let Ok(t) = std::str::from_utf8(v) {
        rec.count("texts", 1);
        all.extend(rec.lib("text", det, || Signature::from(t)).map(|s| ("text", s)));
    }
    for (how, s) in &all {
        if bytes(*s) != want || number(*s) != u32::from_be_bytes(want) {
            rec.violate(format!("build:{how}"), format!("{how} {} gives a signature of bytes {} and number {:#010x}, expected {}", hex(v), hex(&bytes(*s)), number(*s), hex(&want)), hex(v));
        }
        for (how2, s2) in &all {
            if s != s2 || !(s == s2) {
                rec.violate("eq", format!("{how} and {how2} of {} differ", hex(v)), hex(v));
            }
        }
    }
}

pub fn c19(o: &Opts, rec: &mut Rec) {
    // all 2^32 numbers
    let step: u64 = o.step(1 << 26, 1009, 127);
    const BLOCK: u64 = 1 << 20;
    par(o, rec, 0x1901, (1u64 << 32) / BLOCK, |rec, _rng, first, n| {
        let mut k = first * BLOCK;
        k += (step - k % step) % step;
        let end = (first + n) * BLOCK;
        enter(rec.worker, "signature from a number", &(k as u32).to_be_bytes());
        let mut done = 0;
        while k < end {
            let v = k as u32;
            let b = v.to_be_bytes();
            let s = Signature::from(black_box(v));
            let t = Signature::from(black_box(&b));
            let u = Signature::from(black_box(v ^ (1 << (v.wrapping_mul(0x9E37_79B9) >> 27))));
            let w = Signature::from(black_box(v.swap_bytes()));
            if number(s) != v || bytes(s) != b || s != t || Signature::new(&b) != s || u == s || (w == s) != (v == v.swap_bytes()) {
                rec.violate("number", format!("signature from {v:#010x}: number {:#010x}, bytes {}, equal to that of its bytes: {}, equal to a one-bit neighbour: {}", number(s), hex(&bytes(s)), s == t, u == s), hex(&b));
                return;
            }
            k += step;
            done += 1;
        }
        rec.enumerate(done);
        rec.count("numbers", done);
    });
    // slices and texts
    par(o, rec, 0x1902, o.n(200, 400_000, 6_000_000), |rec, rng, _f, n| {
        let mut seen = HashMap::new();
        for _ in 0..n {
            let v: Vec<u8> = match rng.below(5) {
                0 => {
                    let mut v = vec![0; rng.below(9) as usize];
                    rng.fill(&mut v);
                    v
                }
                1 => rng.pick(&o.dict.texts).as_bytes().to_vec(),
                2 => (0..rng.below(8)).map(|_| rng.range(0x20, 0x7e) as u8).collect(),
                3 => {
                    // characters of one to four bytes, so that byte four cuts some of them
                    let n = rng.below(5);
                    (0..n)
                        .map(|_| match rng.below(4) {
                            0 => char::from(rng.range(1, 127) as u8),
                            1 => char::from_u32(rng.range(0x80, 0x7ff) as u32).unwrap(),
                            2 => char::from_u32(rng.range(0x800, 0xd7ff) as u32).unwrap(),
                            _ => char::from_u32(rng.range(0x10000, 0x10ffff) as u32).unwrap(),
                        })
                        .collect::<String>()
                        .into_bytes()
                }
                _ => vec![*rng.pick(&[0u8, 0x20, 0xff, 0x80, b'a']); *rng.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16, 255, 256, 257, 300, if cfg!(miri) { 17 } else { 65536 }, 65537 >> if cfg!(miri) { 12 } else { 0 }])],
            };
            enter(rec.worker, "signature from a slice", &v);
            check_slice(rec, &v);
            let b = pad(&v);
            check_text(rec, b);
            check_debug(rec, b, &mut seen);
            let mut b2 = b;
            b2[rng.below(4) as usize] ^= 1 << rng.below(8);
            check_debug(rec, b2, &mut seen);
            check_text(rec, b2);
            rec.sample(|| format!("bytes {} -> {:?}", hex(&v), Signature::from(v.as_slice())));
            if enough() {
                return;
            }
        }
    });
    // four bytes of an interesting set: text and debug
    let set: &[u8] = if o.tier == Tier::Mini {
        &[0, b' ', b'"', 0x80, 0xc3, 0xff]
    } else {
        &[0, 1, b'\n', b' ', b'"', b'\'', b'0', b'5', b'8', b'9', b'a', b'f', b'\\', b'n', b'u', b'{', b'}', 0x7f, 0x80, 0xbf, 0xc2, 0xcc, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xff]
    };
    let k = set.len() as u64;
    let all = Mutex::new(HashMap::<String, [u8; 4]>::new());
    par(o, rec, 0x1903, k * k * k * k, |rec, _rng, first, n| {
        let mut mine = HashMap::new();
        for i in first..first + n {
            let b: [u8; 4] = std::array::from_fn(|j| set[(i / k.pow(j as u32) % k) as usize]);
            enter(rec.worker, "signature text", &b);
            check_text(rec, b);
            let mut small = HashMap::new();
            check_debug(rec, b, &mut small);
            mine.extend(small);
        }
        rec.enumerate(n);
        rec.count("texts and debug outputs", n);
        let mut g = all.lock().unwrap();
        for (d, b) in mine {
            if let Some(o) = g.insert(d.clone(), b) {
                if o != b {
                    rec.violate("debug", format!("signatures {} and {} both print as {d:?}", hex(&b), hex(&o)), hex(&b));
                }
            }
        }
    });
    let d = Signature::default();
    rec.case(19);
    if bytes(d) != *b"    " || d != Signature::from("") || d != Signature::from(&[][..]) {
        rec.violate("default", format!("the default signature is {d:?}, not four spaces"), String::new());
    }
    // text of every signature that holds characters of more than one byte, and of one in 13 of the
    // ASCII ones; of all 2^32 when there is time
    if o.tier != Tier::Mini {
        let all = o.full && o.tier == Tier::Thorough;
        par(o, rec, 0x1904, 1 << 12, |rec, _rng, first, n| {
            let mut done = 0;
            for v in (first << 20..(first + n) << 20).map(|v| v as u32) {
                let b = v.to_be_bytes();
                let ascii = v & 0x8080_8080 == 0;
                if all || (ascii && v % 13 == 0) || (!ascii && std::str::from_utf8(&b).is_ok()) {
                    check_text(rec, b);
                    done += 1;
                }
            }
            rec.enumerate(done);
            rec.count(if all { "texts of all signatures" } else { "texts of well-formed signatures" }, done);
        });
    }
}
