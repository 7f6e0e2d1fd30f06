//! C02, C03 and the hooked part of C09: what an opened profile recorded.
use crate::bed::Bed;
use crate::gen::{content, header, real_profile, Want};
use crate::model::{self, Content, MProfile};
use crate::prof::open_by;
use crate::rt::*;
#[cfg(lcms2_vp = "probe")]
use chrono::{Datelike, Timelike};
use lcms2::state::Context;
use lcms2::types::{Profile, Signature};

fn u(s: Signature) -> u32 {
    s.into()
}
/// Without the accessors: the debug output has to show each value somewhere, as a number or as the signature's own output.
#[cfg(not(lcms2_vp = "probe"))]
pub fn header_fields(p: &Profile, m: &MProfile) -> Result<(), String> {
    let d = format!("{p:?}");
    let has = |s: String| {
        d.match_indices(&s).any(|(i, _)| {
            let part = |c: Option<char>| c.is_some_and(|c| c.is_ascii_alphanumeric());
            !part(d[..i].chars().next_back()) && !part(d[i + s.len()..].chars().next())
        })
    };
    for (n, v) in [("version", u64::from(m.version)), ("rendering intent", m.intent.into()), ("flags", m.flags.into()), ("manufacturer", m.manufacturer.into()), ("model", m.model.into()), ("attributes", m.attributes), ("creator", m.creator.into())] {
        if !has(v.to_string()) && !has(format!("{:?}", Signature::from(v as u32))) {
            return Err(format!("{n} should be {v}, which the debug output does not show: {}", &d[..d.len().min(2000)]));
        }
    }
    for (n, v) in [("device class", m.class), ("colour space", m.space), ("PCS", m.pcs)] {
        if !d.contains(&format!("{:?}", Signature::from(v))) && !has(v.to_string()) {
            return Err(format!("{n} should be {v:#x}, which the debug output does not show: {}", &d[..d.len().min(2000)]));
        }
    }
    Ok(())
}
#[cfg(not(lcms2_vp = "probe"))]
pub fn tag_fields(p: &Profile, m: &MProfile) -> Result<(), String> {
    crate::bed::check_tags(p, m)
}
#[cfg(not(lcms2_vp = "probe"))]
pub fn fresh(p: &Profile) -> Result<(), String> {
    let (a, b) = (p.get_tag_count(), p.get_tag_signature(0));
    if (a, u(b)) != (0, 0x2020_2020) {
        return Err(format!("it has {a} tags, the first one {b:?}"));
    }
    Ok(())
}
#[cfg(lcms2_vp = "probe")]
pub fn header_fields(p: &Profile, m: &MProfile) -> Result<(), String> {
    let q = p.vp_probe();
    let d = [q.created.year() as i64, q.created.month().into(), q.created.day().into(), q.created.hour().into(), q.created.minute().into(), q.created.second().into()];
    let w: [i64; 6] = m.date.map(i64::from);
    let f: [(&str, u64, u64); 10] = [
        ("version", q.version.into(), m.version.into()),
        ("device class", u(q.device_class).into(), m.class.into()),
        ("colour space", u(q.color_space).into(), m.space.into()),
        ("PCS", u(q.pcs).into(), m.pcs.into()),
        ("rendering intent", q.rendering_intent.into(), m.intent.into()),
        ("flags", q.flags.into(), m.flags.into()),
        ("manufacturer", q.manufacturer.into(), m.manufacturer.into()),
        ("model", q.model.into(), m.model.into()),
        ("attributes", q.attributes, m.attributes),
        ("creator", q.creator.into(), m.creator.into()),
    ];
    for (n, got, want) in f {
        if got != want {
            return Err(format!("{n} is {got:#x}, the file has {want:#x}"));
        }
    }
    if d != w || q.created.nanosecond() != 0 {
        return Err(format!("creation date is {:?}, the file has {:?}", q.created, m.date));
    }
    if q.profile_id != m.id {
        return Err(format!("profile ID is {:x?}, the file has {:x?}", q.profile_id, m.id));
    }
    if q.is_write {
        return Err("a profile opened for reading is marked writable".into());
    }
    Ok(())
}
#[cfg(lcms2_vp = "probe")]
pub fn tag_fields(p: &Profile, m: &MProfile) -> Result<(), String> {
    crate::bed::check_tags(p, m)?;
    let q = p.vp_probe();
    let n = m.tags.len();
    if q.tag_count != n {
        return Err(format!("recorded tag count {} of {n}", q.tag_count));
    }
    for (i, t) in m.tags.iter().enumerate() {
        if (u(q.tag_names[i]), q.tag_offsets[i] as u64, q.tag_sizes[i] as u64) != (t.sig, t.offset.into(), t.size.into()) {
            return Err(format!("tag {i} is recorded as {:?} offset {} size {}, the file has {:#x} {} {}", q.tag_names[i], q.tag_offsets[i], q.tag_sizes[i], t.sig, t.offset, t.size));
        }
    }
    for i in n..q.tag_names.len() {
        if q.tag_names[i] != Signature::default() || q.tag_offsets[i] != 0 || q.tag_sizes[i] != 0 || q.tag_linked[i].is_some() {
            return Err(format!("slot {i} past the {n} tags is not at its default: {:?} {} {} {:?}", q.tag_names[i], q.tag_offsets[i], q.tag_sizes[i], q.tag_linked[i]));
        }
    }
    Ok(())
}
#[cfg(lcms2_vp = "probe")]
pub fn fresh(p: &Profile) -> Result<(), String> {
    let (q, d) = (p.vp_probe(), Profile::new().vp_probe());
    if !q.is_write {
        return Err("it is not writable".into());
    }
    // created now, in universal time (as long as the clock was not set back meanwhile)
    use std::time::{Duration, SystemTime, UNIX_EPOCH};
    let at = UNIX_EPOCH + Duration::from_nanos(q.created.timestamp().max(0) as u64 * 1_000_000_000 + u64::from(q.created.timestamp_subsec_nanos()));
    let (began, now) = (crate::fsmon::BEGAN.with(|b| b.get()), SystemTime::now());
    if let Some(began) = began.filter(|b| *b <= now) {
        // dates in files have whole seconds: leave room for rounding to them
        if at + Duration::from_secs(2) < began || at > now + Duration::from_secs(2) {
            return Err(format!("its creation date is {:?}, it was opened at {began:?} (now: {now:?})", q.created));
        }
    }
    let mut e = d.clone();
    e.created = q.created;
    e.is_write = q.is_write;
    if q != e {
        return Err(format!("its fields are not the defaults: {q:?}"));
    }
    if q.version != 0x0210_0000 || q.flags != 0 || q.attributes != 0 || q.rendering_intent != 0 || q.manufacturer != 0 || q.model != 0 || q.creator != 0 || q.profile_id != [0; 16] || [q.device_class, q.color_space, q.pcs].iter().any(|s| u(*s) != 0x2020_2020) {
        return Err(format!("its header fields are not the defaults of an empty profile: {q:?}"));
    }
    if q.tag_count != 0 || q.tag_names.iter().any(|s| u(*s) != 0x2020_2020) || q.tag_linked.iter().any(|l| l.is_some()) || q.tag_sizes.iter().chain(&q.tag_offsets).any(|x| *x != 0) {
        return Err(format!("its tag slots are not at their defaults: {q:?}"));
    }
    Ok(())
}

fn run(rec: &mut Rec, bed: &Bed, ctx: &mut Context, entry: u64, c: &Content, what: fn(&Profile, &MProfile) -> Result<(), String>) {
    let Ok(m) = model::open(c) else { return };
    bed.put(c);
    enter(rec.worker, "opening a profile", &c.head);
    match rec.lib("open", || c.describe(), || open_by(entry, ctx, &bed.path)) {
        Some(Ok(p)) => {
            rec.count("profiles compared", 1);
            rec.count("tags recorded", m.tags.len() as u64);
            rec.count("entries out of bounds", u64::from(c.be32(128)) - m.tags.len() as u64);
            if let Some(Err(e)) = rec.lib("queries", || c.describe(), || what(&p, &m)) {
                rec.violate("field", e, c.describe());
            }
        }
        Some(Err(e)) => rec.violate("open", format!("a well-formed profile is rejected with {e:?}"), c.describe()),
        None => {}
    }
}

pub fn c02(o: &Opts, rec: &mut Rec) {
    let real = real_profile();
    par(o, rec, 0x02, o.n(60, 1_600_000, 40_000_000), |rec, rng, _f, n| {
        let bed = Bed::new(&o.scratch, &format!("c02-{}", rec.worker));
        let mut ctx = Context::new(None);
        for k in 0..n {
            let c = if k % 3 == 0 {
                content(rng, &o.dict, &real, Want::Good)
            } else {
                // header only
                let mut h = header(rng, &o.dict).to_vec();
                h.extend_from_slice(&0u32.to_be_bytes());
                Content::new(h)
            };
            rec.case(hash(&c.head[..128.min(c.head.len())]));
            let e = rng.below(2);
            run(rec, &bed, &mut ctx, e, &c, header_fields);
            if enough() {
                break;
            }
        }
        leave(rec.worker);
        rec.sample(|| "random 128-byte headers with the magic and a valid date; all recorded header fields compared".into());
    });
    // every value of every byte, in several backgrounds
    par(o, rec, 0x0202, 128 * o.n(0, 12, 200), |rec, rng, first, n| {
        let bed = Bed::new(&o.scratch, &format!("c02b-{}", rec.worker));
        let mut ctx = Context::new(None);
        for j in first..first + n {
            let at = (j % 128) as usize;
            let mut h = header(rng, &o.dict).to_vec();
            h.extend_from_slice(&0u32.to_be_bytes());
            for v in 0..=255 {
                h[at] = v;
                let c = Content::new(h.clone());
                if model::open(&c).is_ok() {
                    rec.enumerate(1);
                    run(rec, &bed, &mut ctx, 1, &c, header_fields);
                }
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
    // every valid day of chosen years, and every second of a day
    par(o, rec, 0x0203, o.n(1, 600, 65_536), |rec, rng, first, n| {
        let bed = Bed::new(&o.scratch, &format!("c02d-{}", rec.worker));
        let mut ctx = Context::new(None);
        for j in first..first + n {
            let y = if o.tier == Tier::Thorough { j as u16 } else if j < 250 { 1900 + j as u16 } else { rng.below(65536) as u16 };
            let mut h = header(rng, &o.dict).to_vec();
            h.extend_from_slice(&0u32.to_be_bytes());
            let mut c = Content::new(h);
            c.put16(24, y);
            for m in 1..=12 {
                for d in 1..=model::days_in(y.into(), m) {
                    if o.tier == Tier::Mini && d % 9 != 0 {
                        continue;
                    }
                    c.put16(26, m as u16);
                    c.put16(28, d as u16);
                    c.put16(30, rng.below(24) as u16);
                    c.put16(32, rng.below(60) as u16);
                    c.put16(34, rng.below(60) as u16);
                    rec.enumerate(1);
                    rec.count("dates", 1);
                    run(rec, &bed, &mut ctx, 1, &c, header_fields);
                }
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
}

pub fn c03(o: &Opts, rec: &mut Rec) {
    let real = real_profile();
    par(o, rec, 0x03, o.n(60, 1_000_000, 40_000_000), |rec, rng, _f, n| {
        let bed = Bed::new(&o.scratch, &format!("c03-{}", rec.worker));
        let mut ctx = Context::new(None);
        for _ in 0..n {
            let c = content(rng, &o.dict, &real, Want::Tags);
            rec.case(c.hash());
            let e = rng.below(2);
            run(rec, &bed, &mut ctx, e, &c, tag_fields);
            if c.len > 0xffff_ffff {
                rec.count("files of 4 GiB and more", 1);
            }
            if c.be32(128) == 100 {
                rec.count("full directories", 1);
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
        rec.sample(|| "random directories of 0..=100 entries around the bound, wrapped sums, aliases, sparse files up to 8 GiB".into());
    });
    // one entry on a grid of boundary values, for every relation of header size and file length
    let lens: &[u64] = &[144, 145, 200, 1000, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_0000_0100, 0x1_4000_0000];
    par(o, rec, 0x0303, if o.tier == Tier::Mini { 1 } else { lens.len() as u64 }, |rec, rng, first, n| {
        let bed = Bed::new(&o.scratch, &format!("c03g-{}", rec.worker));
        let mut ctx = Context::new(None);
        for j in first..first + n {
            let len = lens[j as usize];
            let mut sizes: Vec<u32> = vec![0, 1, 143, 144, 145, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
            for k in -2i64..=2 {
                sizes.push((len as i64 + k) as u32);
                sizes.push((len as i64 / 2 + k) as u32);
            }
            for hs in sizes {
                let l = u64::from(hs).min(len);
                let mut pts: Vec<u64> = vec![0, 1, 2, 127, 128, 131, 132, 143, 144, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
                for k in 0..4 {
                    pts.push(l.wrapping_add(k).wrapping_sub(2) & 0xffff_ffff);
                    pts.push((l / 2).wrapping_add(k).wrapping_sub(2) & 0xffff_ffff);
                    pts.push((0x1_0000_0000 - l).wrapping_add(k).wrapping_sub(2) & 0xffff_ffff);
                }
                let mut c = Content { head: header(rng, &o.dict).to_vec(), len };
                c.put32(0, hs);
                c.head.extend_from_slice(&1u32.to_be_bytes());
                c.head.extend_from_slice(b"desc");
                c.head.extend_from_slice(&[0; 8]);
                for &a in &pts {
                    for &b in &pts {
                        if o.tier == Tier::Mini && rng.below(40) != 0 {
                            continue;
                        }
                        c.put32(136, a as u32);
                        c.put32(140, b as u32);
                        rec.enumerate(1);
                        rec.count("boundary grid points", 1);
                        run(rec, &bed, &mut ctx, 1, &c, tag_fields);
                    }
                }
                if enough() {
                    break;
                }
            }
        }
        leave(rec.worker);
    });
}
