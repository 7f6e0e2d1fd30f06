//! C28: header and tag-entry images.
use crate::rt::*;
use lcms2::types::{DateTimeNumber, EncodedXYZNumber, ICCHeader, ProfileID, Signature, TagEntry};

const LE: bool = cfg!(feature = "le");
fn g16(b: &[u8], at: usize) -> u16 {
    let v = [b[at], b[at + 1]];
    if LE { u16::from(v[1]) << 8 | u16::from(v[0]) } else { u16::from(v[0]) << 8 | u16::from(v[1]) }
}
fn g32(b: &[u8], at: usize) -> u32 {
    (0..4).fold(0, |a, i| a << 8 | u32::from(b[at + if LE { 3 - i } else { i }]))
}
fn g64(b: &[u8], at: usize) -> u64 {
    (0..8).fold(0, |a, i| a << 8 | u64::from(b[at + if LE { 7 - i } else { i }]))
}
fn n(s: Signature) -> u64 {
    u64::from(u32::from(s))
}
/// name, value in the header, value in the image
fn fields(h: &ICCHeader, b: &[u8; 128]) -> Vec<(&'static str, u64, u64)> {
    let d: DateTimeNumber = h.date;
    let i: EncodedXYZNumber = h.illuminant;
    vec![
        ("size", h.size.into(), g32(b, 0).into()),
        ("CMM", n(h.cmm_id), g32(b, 4).into()),
        ("version", h.version.into(), g32(b, 8).into()),
        ("class", n(h.device_class), g32(b, 12).into()),
        ("colour space", n(h.color_space), g32(b, 16).into()),
        ("PCS", n(h.pcs), g32(b, 20).into()),
        ("year", d.year.into(), g16(b, 24).into()),
        ("month", d.month.into(), g16(b, 26).into()),
        ("day", d.day.into(), g16(b, 28).into()),
        ("hours", d.hours.into(), g16(b, 30).into()),
        ("minutes", d.minutes.into(), g16(b, 32).into()),
        ("seconds", d.seconds.into(), g16(b, 34).into()),
        ("magic", n(h.magic), g32(b, 36).into()),
        ("platform", n(h.platform), g32(b, 40).into()),
        ("flags", h.flags.into(), g32(b, 44).into()),
        ("manufacturer", n(h.manufacturer), g32(b, 48).into()),
        ("model", h.model.into(), g32(b, 52).into()),
        ("attributes", h.attributes, g64(b, 56)),
        ("rendering intent", h.rendering_intent.into(), g32(b, 64).into()),
        ("illuminant X", (i.x as u32).into(), g32(b, 68).into()),
        ("illuminant Y", (i.y as u32).into(), g32(b, 72).into()),
        ("illuminant Z", (i.z as u32).into(), g32(b, 76).into()),
        ("creator", n(h.creator), g32(b, 80).into()),
    ]
}
fn image(rng: &mut Rng, o: &Opts) -> [u8; 128] {
    let mut b = [0u8; 128];
    match rng.below(5) {
        0 => rng.fill(&mut b),
        1 => b[rng.below(128) as usize] = 1 << rng.below(8),
        2 => {
            b.fill(0xff);
            b[rng.below(128) as usize] ^= 1 << rng.below(8);
        }
        3 => b = crate::gen::header(rng, &o.dict),
        _ => {
            let k = rng.below(256) as u8;
            for (i, x) in b.iter_mut().enumerate() {
                *x = (i as u8).wrapping_add(k);
            }
        }
    }
    b
}
fn header(rec: &mut Rec, b: [u8; 128]) {
    rec.case(hash(&b));
    let det = || hex(&b);
    enter(rec.worker, "header image", &b);
    let Some(h) = rec.lib("decode header", det, || ICCHeader::vp_from_bytes(b)) else { return };
    for (name, got, want) in fields(&h, &b) {
        if got != want {
            rec.violate(format!("field:{name}"), format!("decoded {name} is {got:#x}, the image has {want:#x}"), det());
        }
    }
    // SAFETY of the read: all bytes of a profile ID are initialised
    let id: [u8; 16] = unsafe { h.profile_id.id8 };
    if id != b[84..100] || h.reserved != b[100..128] {
        rec.violate("field:raw", format!("decoded profile ID {} and reserved bytes {} differ from the image's", hex(&id), hex(&h.reserved)), det());
    }
    let Some(back) = rec.lib("encode header", det, || h.vp_to_bytes()) else { return };
    if back != b {
        rec.violate("image", format!("decoding and encoding a header gives {}", hex(&back)), det());
    }
    rec.count("header images", 1);
    rec.sample(|| format!("{} -> {h:?}", hex(&b)));
}
fn tag(rec: &mut Rec, b: [u8; 12]) {
    rec.case(hash(&b));
    let det = || hex(&b);
    enter(rec.worker, "tag image", &b);
    let Some(t) = rec.lib("decode tag", det, || TagEntry::vp_from_bytes(b)) else { return };
    if (u32::from(t.sig), t.offset, t.size) != (g32(&b, 0), g32(&b, 4), g32(&b, 8)) {
        rec.violate("tag", format!("tag image {} decodes as {t:?}", hex(&b)), det());
    }
    let Some(back) = rec.lib("encode tag", det, || t.vp_to_bytes()) else { return };
    if back != b {
        rec.violate("tag image", format!("decoding and encoding a tag gives {}", hex(&back)), det());
    }
    rec.count("tag images", 1);
}
fn value(rec: &mut Rec, rng: &mut Rng, o: &Opts) {
    let s = |rng: &mut Rng| Signature::from(o.dict.sig(rng));
    let mut id = [0u8; 16];
    rng.fill(&mut id);
    let mut reserved = [0u8; 28];
    rng.fill(&mut reserved);
    let d = if rng.chance(1, 2) { crate::gen::date(rng) } else { std::array::from_fn(|_| o.dict.u16(rng)) };
    let h = ICCHeader {
        size: o.dict.u32(rng),
        cmm_id: s(rng),
        version: o.dict.u32(rng),
        device_class: s(rng),
        color_space: s(rng),
        pcs: s(rng),
        date: DateTimeNumber { year: d[0], month: d[1], day: d[2], hours: d[3], minutes: d[4], seconds: d[5] },
        magic: s(rng),
        platform: s(rng),
        flags: o.dict.u32(rng),
        manufacturer: s(rng),
        model: o.dict.u32(rng),
        attributes: o.dict.u64(rng),
        rendering_intent: o.dict.u32(rng),
        illuminant: EncodedXYZNumber { x: o.dict.u32(rng) as i32, y: o.dict.u32(rng) as i32, z: o.dict.u32(rng) as i32 },
        creator: s(rng),
        profile_id: ProfileID { id8: id },
        reserved,
    };
    let det = || format!("{h:?}");
    enter(rec.worker, "header value", &id);
    let Some(b) = rec.lib("encode header", det, || h.vp_to_bytes()) else { return };
    for (name, want, got) in fields(&h, &b) {
        if got != want {
            rec.violate(format!("encode:{name}"), format!("encoded {name} is {got:#x}, the value has {want:#x}"), det());
        }
    }
    if b[84..100] != id || b[100..128] != reserved {
        rec.violate("encode:raw", format!("encoded profile ID or reserved bytes differ: {}", hex(&b)), det());
    }
    rec.case(hash(&b));
    let Some(back) = rec.lib("decode header", det, || ICCHeader::vp_from_bytes(b)) else { return };
    if back != h {
        rec.violate("value", format!("encoding and decoding gives {back:?}"), det());
    }
    // equality of headers is equality of all their fields
    let mut b2 = b;
    b2[rng.below(128) as usize] ^= 1 << rng.below(8);
    if let Some(other) = rec.lib("decode header", det, || ICCHeader::vp_from_bytes(b2)) {
        if other == h {
            rec.violate("eq", "headers whose images differ in one bit compare equal", format!("{} {}", hex(&b), hex(&b2)));
        }
    }
    let t = TagEntry { sig: s(rng), offset: o.dict.u32(rng), size: o.dict.u32(rng) };
    let det = || format!("{t:?}");
    let Some(b) = rec.lib("encode tag", det, || t.vp_to_bytes()) else { return };
    if (u32::from(t.sig), t.offset, t.size) != (g32(&b, 0), g32(&b, 4), g32(&b, 8)) {
        rec.violate("encode tag", format!("{t:?} is encoded as {}", hex(&b)), det());
    }
    if rec.lib("decode tag", det, || TagEntry::vp_from_bytes(b)).is_some_and(|x| x != t) {
        rec.violate("tag value", "encoding and decoding a tag changes it", det());
    }
    rec.count("values", 1);
}
pub fn c28(o: &Opts, rec: &mut Rec) {
    rec.count(if LE { "little-endian configuration" } else { "big-endian configuration" }, 1);
    // every single bit, and every single byte value
    for at in 0..128 {
        for v in 1..=255u8 {
            if o.tier == Tier::Mini && (v.count_ones() != 1 || at % 3 != 0) {
                continue;
            }
            let mut b = [0u8; 128];
            b[at] = v;
            header(rec, b);
            if at < 12 {
                let mut b = [0u8; 12];
                b[at] = v;
                tag(rec, b);
            }
        }
    }
    leave(0);
    par(o, rec, 0x28, o.n(60, 3_000_000, 120_000_000), |rec, rng, _f, n| {
        for _ in 0..n {
            let b = image(rng, o);
            header(rec, b);
            let mut t = [0u8; 12];
            t.copy_from_slice(&b[b.len() - 12 - rng.below(116) as usize..][..12]);
            if rng.chance(1, 2) {
                rng.fill(&mut t);
            }
            tag(rec, t);
            value(rec, rng, o);
            if enough() {
                return;
            }
        }
    });
}
