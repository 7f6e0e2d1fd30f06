//! C30: equality and debug output of the plain values; C31: the kind that plugin data reports.
use crate::dict::Dict;
use crate::plugin;
use crate::rt::*;
use lcms2::plugins::*;
use lcms2::state::ErrorCode;
use lcms2::types::*;
use std::fmt::Debug;

/// One value per kind, built field by field from its bytes (big endian, in field order).
fn be16(b: &[u8], i: usize) -> u16 {
    u16::from_be_bytes([b[i], b[i + 1]])
}
fn be32(b: &[u8], i: usize) -> u32 {
    u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}
fn be64(b: &[u8], i: usize) -> u64 {
    u64::from(be32(b, i)) << 32 | u64::from(be32(b, i + 4))
}
fn sig(b: &[u8], i: usize) -> Signature {
    Signature::from(be32(b, i))
}
fn date(b: &[u8]) -> DateTimeNumber {
    DateTimeNumber { year: be16(b, 0), month: be16(b, 2), day: be16(b, 4), hours: be16(b, 6), minutes: be16(b, 8), seconds: be16(b, 10) }
}
fn xyz(b: &[u8]) -> EncodedXYZNumber {
    EncodedXYZNumber { x: be32(b, 0) as i32, y: be32(b, 4) as i32, z: be32(b, 8) as i32 }
}
fn id(b: &[u8], how: u64) -> ProfileID {
    let v: [u8; 16] = b[..16].try_into().unwrap();
    match how % 3 {
        0 => ProfileID { id8: v },
        1 => ProfileID { id16: std::array::from_fn(|i| u16::from_ne_bytes([v[2 * i], v[2 * i + 1]])) },
        _ => ProfileID { id32: std::array::from_fn(|i| u32::from_ne_bytes(v[4 * i..4 * i + 4].try_into().unwrap())) },
    }
}
fn header(b: &[u8], how: u64) -> ICCHeader {
    ICCHeader {
        size: be32(b, 0),
        cmm_id: sig(b, 4),
        version: be32(b, 8),
        device_class: sig(b, 12),
        color_space: sig(b, 16),
        pcs: sig(b, 20),
        date: date(&b[24..]),
        magic: sig(b, 36),
        platform: sig(b, 40),
        flags: be32(b, 44),
        manufacturer: sig(b, 48),
        model: be32(b, 52),
        attributes: be64(b, 56),
        rendering_intent: be32(b, 64),
        illuminant: xyz(&b[68..]),
        creator: sig(b, 80),
        profile_id: id(&b[84..], how),
        reserved: b[100..128].try_into().unwrap(),
    }
}
fn entry(b: &[u8]) -> TagEntry {
    TagEntry { sig: sig(b, 0), offset: be32(b, 4), size: be32(b, 8) }
}

/// Compares two values that are known to be the same or not.
fn pair<T: PartialEq + Debug + Copy>(rec: &mut Rec, name: &str, a: T, b: T, same: bool, det: &dyn Fn() -> String) {
    rec.count(if same { "pairs that are equal" } else { "pairs that differ" }, 1);
    let r = rec.lib(name, || det(), || (a == b, b == a, a != b, a == { a }, b == { b }, format!("{a:?}"), format!("{b:?}"), format!("{a:#?}") == format!("{b:#?}")));
    let Some((e1, e2, ne, ra, rb, da, db, alt)) = r else { return };
    if e1 != same || e2 != same || ne == same {
        rec.violate(format!("{name} equality"), format!("{name}: {da} and {db} are {}, compared they give {e1}, the other way {e2}, as different {ne}", if same { "the same" } else { "different" }), det());
    }
    if !ra || !rb {
        rec.violate(format!("{name} reflexive"), format!("{name}: {da} or {db} does not equal its copy"), det());
    }
    if (da == db) != same || alt != same {
        rec.violate(format!("{name} debug"), format!("{name}: {} values print as {da} and {db}", if same { "equal" } else { "different" }), det());
    }
}
/// All kinds from the same bytes; the shorter ones from one place of them.
fn all(rec: &mut Rec, a: &[u8; 128], b: &[u8; 128], at: usize, how: (u64, u64)) {
    let det = || format!("{} against {}, from byte {at}", hex(a), hex(b));
    pair(rec, "header", header(a, how.0), header(b, how.1), a == b, &det);
    let i = at.min(112);
    let eq = |n: usize| a[i..i + n] == b[i..i + n];
    let (x, y) = (&a[i..], &b[i..]);
    pair(rec, "profile ID", id(x, how.0), id(y, how.1), eq(16), &det);
    pair(rec, "tag entry", entry(x), entry(y), eq(12), &det);
    pair(rec, "date", date(x), date(y), eq(12), &det);
    pair(rec, "encoded XYZ", xyz(x), xyz(y), eq(12), &det);
    pair(rec, "signature", sig(x, 0), sig(y, 0), eq(4), &det);
    rec.case(hash(a) ^ hash(b).rotate_left(17) ^ at as u64);
}
fn base(rng: &mut Rng, d: &Dict) -> [u8; 128] {
    let mut b = [0u8; 128];
    match rng.below(6) {
        0 => {}
        1 => b = [255; 128],
        2 => b = [rng.below(256) as u8; 128],
        3 => b = crate::gen::header(rng, d),
        4 => {
            // words that the source names
            for i in (0..128).step_by(4) {
                b[i..i + 4].copy_from_slice(&if rng.chance(1, 2) { d.sig(rng) } else { d.u32(rng) }.to_be_bytes());
            }
        }
        _ => rng.fill(&mut b),
    }
    b
}
fn other(rng: &mut Rng, a: &[u8; 128], d: &Dict) -> [u8; 128] {
    let mut b = *a;
    let near = |rng: &mut Rng| {
        let i = rng.below(128) as usize;
        let j = if rng.chance(1, 2) { rng.below(128) as usize } else { (i + 1 + rng.below(16) as usize) % 128 };
        (i, j)
    };
    match rng.below(10) {
        0 => {}
        1 => b[rng.below(128) as usize] ^= 1 << rng.below(8),
        2 => b[rng.below(128) as usize] = rng.below(256) as u8,
        3 => {
            // what a sum does not see
            let (i, j) = near(rng);
            b[i] = b[i].wrapping_add(1);
            b[j] = b[j].wrapping_sub(1);
        }
        4 => {
            // what a parity does not see
            let (i, j) = near(rng);
            let m = 1 << rng.below(8);
            b[i] ^= m;
            b[j] ^= m;
        }
        5 => {
            let (i, j) = near(rng);
            b.swap(i, j);
        }
        6 => {
            // two fields exchanged
            let (i, j) = (4 * rng.below(32) as usize, 4 * rng.below(32) as usize);
            for k in 0..4 {
                b.swap(i + k, j + k);
            }
        }
        7 => {
            let i = 4 * rng.below(32) as usize;
            b[i..i + 4].copy_from_slice(&d.u32(rng).to_be_bytes());
        }
        8 => {
            // upper and lower case, spaces and zeros
            let i = rng.below(128) as usize;
            b[i] = match b[i] {
                32 => 0,
                0 => 32,
                c => c ^ 0x20,
            };
        }
        _ => b = base(rng, d),
    }
    b
}
fn triple(rng: &mut Rng, d: &Dict) -> [f64; 3] {
    std::array::from_fn(|_| match rng.below(5) {
        0 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::EPSILON]),
        1 => d.f64(rng),
        2 => rng.uni(-2.0, 2.0),
        3 => f64::from_bits(rng.u64()),
        _ => (rng.u32() as i32 as f64) / 65536.0,
    })
}
fn floats(rec: &mut Rec, a: [f64; 3], b: [f64; 3]) {
    let v = |a: [f64; 3]| CIEXYZ { X: a[0], Y: a[1], Z: a[2] };
    let det = || format!("{a:?} against {b:?}");
    let same = a.iter().zip(&b).all(|(x, y)| x == y);
    rec.case(hash(det().as_bytes()));
    rec.count(if same { "pairs that are equal" } else { "pairs that differ" }, 1);
    let Some((e1, e2, ne, da, db)) = rec.lib("CIEXYZ", det, || (v(a) == v(b), v(b) == v(a), v(a) != v(b), format!("{:?}", v(a)), format!("{:?}", v(b)))) else { return };
    if e1 != same || e2 != same || ne == same {
        rec.violate("CIEXYZ equality", format!("CIEXYZ: {da} and {db} are {}, compared they give {e1}, the other way {e2}, as different {ne}", if same { "the same" } else { "different" }), det());
    }
    // what prints alike is alike (zeros may print their sign, all NaN print the same)
    let alike = a.iter().zip(&b).all(|(x, y)| x == y || x.is_nan() && y.is_nan());
    if da == db && !alike {
        rec.violate("CIEXYZ debug", format!("CIEXYZ: different values print as {da}"), det());
    }
}
const CODES: [ErrorCode; 14] = [
    ErrorCode::Undefined,
    ErrorCode::File,
    ErrorCode::Range,
    ErrorCode::Internal,
    ErrorCode::Null,
    ErrorCode::Read,
    ErrorCode::Seek,
    ErrorCode::Write,
    ErrorCode::UnknownExtension,
    ErrorCode::ColorSpaceCheck,
    ErrorCode::AlreadyDefined,
    ErrorCode::BadSignature,
    ErrorCode::CorruptionDetected,
    ErrorCode::NotSuitable,
];

pub fn c30(o: &Opts, rec: &mut Rec) {
    // error codes: completely
    for (i, a) in CODES.iter().enumerate() {
        for (j, b) in CODES.iter().enumerate() {
            let det = || format!("{a:?} and {b:?}");
            let Some(r) = rec.lib("error codes", det, || (a == b, a.cmp(b), a.partial_cmp(b), format!("{a:?}") == format!("{b:?}"), rt_hash(a) == rt_hash(b))) else { return };
            if r != (i == j, i.cmp(&j), Some(i.cmp(&j)), i == j, i == j) {
                rec.violate("error codes", format!("{}: equality, order, debug output and hash are {r:?}", det()), det());
            }
            rec.enumerate(1);
        }
    }
    // every single bit of a header, and of each kind at each place
    par(o, rec, 0x30, 1024, |rec, rng, first, n| {
        let w = rec.worker;
        for bit in first..first + n {
            let at = bit as usize / 8;
            for k in 0..o.n(1, 40, 4000) {
                let a = match k {
                    0 => [0; 128],
                    1 => [255; 128],
                    2 => *b"ABCDabcd0123mntrRGB XYZ acspMSFT".repeat(4).first_chunk().unwrap(),
                    _ => base(rng, &o.dict),
                };
                let mut b = a;
                b[at] ^= 1 << (bit % 8);
                enter(w, "values that differ in one bit", &b);
                let back = rng.below(16) as usize;
                all(rec, &a, &b, at.saturating_sub(back), (rng.u64(), rng.u64()));
                rec.count("single bits changed", 1);
                if enough() || o.over_budget() {
                    break;
                }
            }
        }
        leave(w);
    });
    par(o, rec, 0x3030, o.n(60, 2_000_000, 100_000_000), |rec, rng, _first, n| {
        let w = rec.worker;
        for _ in 0..n {
            let a = base(rng, &o.dict);
            let b = other(rng, &a, &o.dict);
            enter(w, "values compared", &b);
            let at = rng.below(113) as usize;
            all(rec, &a, &b, at, (rng.u64(), rng.u64()));
            let x = triple(rng, &o.dict);
            let mut y = x;
            match rng.below(6) {
                0 => {}
                1 => y[rng.below(3) as usize] = triple(rng, &o.dict)[0],
                2 => {
                    let i = rng.below(3) as usize;
                    y[i] = f64::from_bits(y[i].to_bits() ^ 1 << rng.below(64));
                }
                3 => y.swap(rng.below(3) as usize, rng.below(3) as usize),
                4 => {
                    let i = rng.below(3) as usize;
                    y[i] = -y[i];
                }
                _ => y = triple(rng, &o.dict),
            }
            floats(rec, x, y);
            rec.sample(|| format!("{:?} against {:?}", sig(&a, 4), sig(&b, 4)));
            if enough() || o.over_budget() {
                break;
            }
        }
        leave(w);
    });
}
fn rt_hash(c: &ErrorCode) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

pub fn c31(o: &Opts, rec: &mut Rec) {
    let names = ["interpolation", "parametric curves", "formatter", "optimization", "transform", "rendering intent", "tag type", "tag", "multi process element"];
    let check = |rec: &mut Rec, p: &PluginType, is: usize, det: &dyn Fn() -> String| {
        let Some(r) = rec.lib("predicates", || det(), || {
            [
                p.is_interpolation(),
                p.is_parametric_curves(),
                p.is_formatter(),
                p.is_optimization(),
                p.is_transform(),
                p.is_rendering_intent(),
                p.is_tag_type(),
                p.is_tag(),
                p.is_multi_process_element(),
            ]
        }) else {
            return;
        };
        rec.count(&format!("data of kind {}", names[is]), 1);
        for (i, (got, name)) in r.iter().zip(names).enumerate() {
            if *got != (i == is) {
                rec.violate("kind", format!("data for {} says {got} when asked whether it is for {name}", names[is]), det());
            }
        }
    };
    let mut k = 0u64;
    for n in 0..=255u8 {
        let p = plugin::data(n);
        k += 1;
        check(rec, &p, n as usize % 6, &|| format!("data {n}"));
        rec.enumerate(1);
    }
    par(o, rec, 0x31, o.n(40, 1_000_000, 30_000_000), |rec, rng, _first, n| {
        let w = rec.worker;
        for _ in 0..n {
            let kind = rng.below(6) as usize;
            let p = random_data(kind, rng, &o.dict);
            enter(w, "plugin data", names[kind].as_bytes());
            let det = || describe(&p);
            rec.case(hash(det().as_bytes()) ^ kind as u64);
            check(rec, &p, kind, &det);
            // as part of a chain that is registered, and afterwards
            if rng.chance(1, 8) {
                let kind2 = *rng.pick(&plugin::KINDS);
                let chain = Plugin { magic: Signature::from(plugin::MAGIC), expected_version: rng.below(2132) as u32, r#type: Signature::from(kind2), next: None, data: p };
                let mut c = lcms2::state::Context::new(None);
                let _ = rec.lib("registration", String::new, || c.init_plugin(&chain));
                check(rec, &chain.data, kind, &|| format!("after registration as {kind2:08x}: {}", describe(&chain.data)));
                rec.count("data checked after a registration", 1);
            }
            if enough() || o.over_budget() {
                break;
            }
        }
        leave(w);
    });
    rec.count("fixed data", k);
}
fn random_data(kind: usize, rng: &mut Rng, d: &Dict) -> PluginType {
    match kind {
        1 => {
            let PluginType::ParametricCurve { evaluator, .. } = plugin::data(1) else { unreachable!() };
            let mut num = if rng.chance(1, 2) { rng.below(24) as u32 } else { d.u32(rng) };
            if rng.chance(1, 8) {
                num = 0;
            }
            let zero = rng.chance(1, 6);
            PluginType::ParametricCurve {
                num_functions: num,
                function_types: std::array::from_fn(|_| if zero { 0 } else { d.u32(rng) }),
                parameter_count: std::array::from_fn(|_| if zero { 0 } else { rng.below(16) as u32 }),
                evaluator,
            }
        }
        5 => {
            let PluginType::RenderingIntent { link, .. } = plugin::data(5) else { unreachable!() };
            let n = *rng.pick(&[0u64, 1, 2, 31, 32, 127, 128, 255, 256, 257, 4096]);
            let description: String = (0..n.min(rng.below(5000) + 1)).map(|_| char::from_u32(rng.below(0x2000) as u32).unwrap_or('x')).collect();
            PluginType::RenderingIntent { intent: Signature::from(if rng.chance(1, 2) { rng.below(16) as u32 } else { d.sig(rng) }), link, description }
        }
        k => plugin::data((k as u64 + 6 * rng.below(42)) as u8),
    }
}
fn describe(p: &PluginType) -> String {
    match p {
        PluginType::ParametricCurve { num_functions, function_types, parameter_count, .. } => format!("curves {num_functions} {function_types:?} {parameter_count:?}"),
        PluginType::RenderingIntent { intent, description, .. } => format!("intent {:08x} {description:?}", u32::from(*intent)),
        PluginType::Interpolation { .. } => "interpolation".into(),
        PluginType::Formatter { .. } => "formatter".into(),
        PluginType::Optimization { .. } => "optimization".into(),
        PluginType::Transform { factory } => format!("transform {factory:?}"),
        _ => "other".into(),
    }
}
