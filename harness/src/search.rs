//! C05: links between tags and the lookup of tags.
use crate::bed::Bed;
use crate::gen::{content, header, real_profile, Want};
use crate::model::{self, Content, MProfile};
use crate::prof::open_by;
use crate::rt::*;
use lcms2::state::Context;
use lcms2::types::{Profile, Signature};

fn check(rec: &mut Rec, rng: &mut Rng, p: &Profile, m: &MProfile, c: &Content) {
    let det = || c.describe();
    let Some(tags) = rec.lib("tags", det, || p.vp_tags()) else { return };
    let n = m.tags.len();
    if tags.len() != n {
        return rec.violate("tags", format!("{} tags recorded, {n} in bounds", tags.len()), det());
    }
    let mut distinct = true;
    let mut seen = std::collections::HashSet::new();
    for (i, t) in m.tags.iter().enumerate() {
        let link = tags[i].1.map(u32::from);
        if link != t.link {
            return rec.violate("link", format!("tag {i} ({:#x}, offset {}, size {}) has link {link:x?}, expected {:x?}", t.sig, t.offset, t.size, t.link), det());
        }
        rec.count(if link.is_some() { "linked tags" } else { "unlinked tags" }, 1);
        distinct &= seen.insert(t.sig);
    }
    let mut probes: Vec<u32> = m.tags.iter().map(|t| t.sig).collect();
    if probes.len() > 12 {
        for _ in 0..12 {
            let k = rng.below(probes.len() as u64) as usize;
            probes.swap_remove(k);
            if probes.len() <= 12 {
                break;
            }
        }
    }
    probes.extend([0x2020_2020, 0, rng.u32(), m.tags.last().map_or(1, |t| t.sig ^ 1)]);
    for s in probes {
        let first = m.tags.iter().position(|t| t.sig == s);
        let sig = Signature::from(s);
        let det = || format!("searching {s:#010x} in {}", c.describe());
        match rec.lib("search", det, || p.vp_search_tag(sig, false)) {
            Some(g) if g == first => rec.count("direct searches", 1),
            Some(g) => rec.violate("first", format!("searching {s:#010x} finds {g:?}, the first tag with it is {first:?}"), det()),
            None => {}
        }
        let Some(g) = rec.lib("search", det, || p.vp_search_tag(sig, true)) else { continue };
        rec.count("searches following links", 1);
        match (first, g) {
            (None, None) => {}
            (Some(f), Some(g)) => {
                if g >= n || tags[g].1.is_some() {
                    rec.violate("end", format!("searching {s:#010x} with links ends at tag {g} of {n}, which is linked or does not exist"), det());
                } else if distinct && (m.tags[g].offset, m.tags[g].size) != (m.tags[f].offset, m.tags[f].size) {
                    rec.violate("data", format!("searching {s:#010x} with links ends at tag {g}, whose data are not those of tag {f}"), det());
                }
                if m.tags[f].link.is_some() {
                    rec.count("searches that followed a link", 1);
                }
            }
            // a search for a linked tag with links could also come up empty only if the link named a missing tag
            _ => rec.violate("found", format!("searching {s:#010x} with links finds {g:?}, without {first:?}"), det()),
        }
    }
}

pub fn c05(o: &Opts, rec: &mut Rec) {
    let real = real_profile();
    par(o, rec, 0x05, o.n(60, 700_000, 24_000_000), |rec, rng, _f, n| {
        let bed = Bed::new(&o.scratch, &format!("c05-{}", rec.worker));
        let mut ctx = Context::new(None);
        for k in 0..n {
            let c = if k % 2 == 0 { content(rng, &o.dict, &real, Want::Tags) } else { aliased(rng, o) };
            let Ok(m) = model::open(&c) else { continue };
            bed.put(&c);
            enter(rec.worker, "opening a profile", &c.head);
            rec.case(c.hash());
            let e = rng.below(2);
            match rec.lib("open", || c.describe(), || open_by(e, &mut ctx, &bed.path)) {
                Some(Ok(p)) => {
                    enter(rec.worker, "looking up tags", &c.head);
                    check(rec, rng, &p, &m, &c)
                }
                Some(Err(e)) => rec.violate("open", format!("a well-formed profile is rejected with {e:?}"), c.describe()),
                None => {}
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
        rec.sample(|| "directories over a small pool of offsets, sizes and signatures, up to 100 entries".into());
    });
    // all small directories over two signatures, two offsets, two sizes (some out of bounds)
    let depth = if o.tier == Tier::Mini { 2 } else if o.tier == Tier::Quick { 4 } else { 5 };
    let opts: Vec<(u32, u32, u32)> = (0..12).map(|k| ([0x6465_7363, 0x7774_7074, 0x2020_2020][k % 3], [10, 20][k / 3 % 2], [5, 6][k / 6])).collect();
    let total = (12u64).pow(depth);
    par(o, rec, 0x0505, total, |rec, rng, first, n| {
        let bed = Bed::new(&o.scratch, &format!("c05s-{}", rec.worker));
        let mut ctx = Context::new(None);
        for j in first..first + n {
            let mut c = Content::new(header(rng, &o.dict).to_vec());
            c.put32(0, 4000);
            c.head.extend_from_slice(&depth.to_be_bytes());
            let mut x = j;
            for _ in 0..depth {
                let (s, a, b) = opts[(x % 12) as usize];
                x /= 12;
                for v in [s, a, b] {
                    c.head.extend_from_slice(&v.to_be_bytes());
                }
            }
            c.len = c.head.len() as u64;
            let Ok(m) = model::open(&c) else { continue };
            bed.put(&c);
            enter(rec.worker, "small directories", &c.head);
            rec.enumerate(1);
            rec.count("small directories", 1);
            match rec.lib("open", || c.describe(), || open_by(1, &mut ctx, &bed.path)) {
                Some(Ok(p)) => check(rec, rng, &p, &m, &c),
                Some(Err(e)) => rec.violate("open", format!("a well-formed profile is rejected with {e:?}"), c.describe()),
                None => {}
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
}

fn aliased(rng: &mut Rng, o: &Opts) -> Content {
    let n = if rng.chance(1, 6) { 100 } else { rng.below(101) as u32 };
    let pool = 1 + rng.below(8);
    let distinct = rng.chance(3, 4);
    let mut c = Content::new(header(rng, &o.dict).to_vec());
    c.put32(0, 5000);
    c.head.extend_from_slice(&n.to_be_bytes());
    let base = rng.u32();
    for i in 0..n {
        let sig = if distinct { base.wrapping_add(i.wrapping_mul(0x0101_0107)) } else { base.wrapping_add(rng.below(1 + u64::from(n) / 2) as u32) };
        let off = 200 + 10 * rng.below(pool) as u32;
        let size = match rng.below(12) {
            0 => 0x7000_0000,
            k => 4 + (k as u32 % 2) * 3,
        };
        for v in [sig, off, size] {
            c.head.extend_from_slice(&v.to_be_bytes());
        }
    }
    c.len = c.head.len() as u64 + 300;
    c
}
