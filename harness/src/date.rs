//! C20: dates, against a day-by-day calendar counted here.
use crate::model::days_in;
use crate::rt::*;
use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use lcms2::types::DateTimeNumber;

fn icc(d: [u16; 6]) -> DateTimeNumber {
    DateTimeNumber { year: d[0], month: d[1], day: d[2], hours: d[3], minutes: d[4], seconds: d[5] }
}
fn fields(d: &NaiveDateTime) -> [i64; 6] {
    [d.year().into(), d.month().into(), d.day().into(), d.hour().into(), d.minute().into(), d.second().into()]
}
fn wide(d: [u16; 6]) -> [i64; 6] {
    d.map(i64::from)
}
fn both(rec: &mut Rec, d: [u16; 6]) -> Option<NaiveDateTime> {
    let n = icc(d);
    let c = rec.lib("ICC to calendar", || format!("{d:?}"), || NaiveDateTime::from(n))?;
    if fields(&c) != wide(d) || c.nanosecond() != 0 {
        rec.violate("forward", format!("ICC date {d:?} became {c:?}"), format!("{d:?}"));
    }
    let back = rec.lib("calendar to ICC", || format!("{c:?}"), || DateTimeNumber::from(c))?;
    if back != n {
        rec.violate("back", format!("ICC date {d:?} came back as {back:?}"), format!("{d:?}"));
    }
    Some(c)
}

pub fn c20(o: &Opts, rec: &mut Rec) {
    let years: u64 = if o.tier == Tier::Mini { 3 } else { 65536 };
    par(o, rec, 0x2001, years, |rec, rng, first, n| {
        let mut prev: Option<NaiveDateTime> = None;
        for y in first..first + n {
            for m in 1..=12u16 {
                for d in 1..=days_in(y as u32, m.into()) as u16 {
                    let t = match rng.below(4) {
                        0 => [0, 0, 0],
                        1 => [23, 59, 59],
                        _ => [rng.below(24) as u16, rng.below(60) as u16, rng.below(60) as u16],
                    };
                    let v = [y as u16, m, d, t[0], t[1], t[2]];
                    enter(rec.worker, "date", format!("{v:?}").as_bytes());
                    let c = both(rec, v);
                    rec.enumerate(1);
                    // this day comes after the day before
                    if let (Some(p), Some(c)) = (prev, c) {
                        if !(p < c) || (c.date() - p.date()).num_days() != 1 {
                            rec.violate("order", format!("{p:?} is not followed by {c:?}"), format!("{v:?}"));
                        }
                    }
                    prev = c;
                    if enough() {
                        return;
                    }
                }
            }
        }
    });
    let days_seen = rec.enumerated;
    rec.count("days", days_seen);
    // every second of some days
    let days: Vec<[u16; 3]> = vec![[2023, 1, 1], [2024, 2, 29], [1999, 12, 31], [0, 1, 1], [1, 1, 1], [65535, 12, 31], [1900, 2, 28], [2000, 2, 29], [32768, 6, 30]];
    let nd = o.n(1, days.len() as u64, days.len() as u64 * 8);
    par(o, rec, 0x2002, nd * 24, |rec, rng, first, n| {
        for k in first..first + n {
            let d = if (k / 24) < days.len() as u64 { days[(k / 24) as usize] } else { let x = crate::gen::date(rng); [x[0], x[1], x[2]] };
            let h = (k % 24) as u16;
            let mut prev: Option<NaiveDateTime> = None;
            for s in 0..3600u16 {
                if o.tier == Tier::Mini && s % 97 != 0 {
                    continue;
                }
                let v = [d[0], d[1], d[2], h, s / 60, s % 60];
                enter(rec.worker, "time", format!("{v:?}").as_bytes());
                let c = both(rec, v);
                rec.case(hash(&v.map(|x| x.to_be_bytes()).concat()));
                if let (Some(p), Some(c)) = (prev, c) {
                    if !(p < c) {
                        rec.violate("order", format!("{p:?} is not before {c:?}"), format!("{v:?}"));
                    }
                }
                prev = c;
                rec.count("seconds", 1);
            }
        }
    });
    // calendar dates with a fraction, leap seconds included
    par(o, rec, 0x2003, o.n(100, 2_000_000, 60_000_000), |rec, rng, _f, n| {
        for _ in 0..n {
            let v = crate::gen::date(rng);
            let leap = rng.chance(1, 4);
            let nano = match rng.below(4) {
                0 => 0,
                1 => 999_999_999,
                _ => rng.below(1_000_000_000) as u32,
            };
            let sec = if leap { 59 } else { u32::from(v[5]) };
            let nano = if leap { nano + 1_000_000_000 } else { nano };
            let Some(t) = NaiveTime::from_hms_nano_opt(v[3].into(), v[4].into(), sec, nano) else { continue };
            let c = NaiveDate::from_ymd_opt(v[0].into(), v[1].into(), v[2].into()).unwrap().and_time(t);
            enter(rec.worker, "fraction", format!("{c:?}").as_bytes());
            rec.case(hash(format!("{c:?}").as_bytes()));
            rec.count(if leap { "leap seconds" } else { "fractions" }, 1);
            let want = icc([v[0], v[1], v[2], v[3], v[4], sec as u16]);
            if let Some(got) = rec.lib("calendar to ICC", || format!("{c:?}"), || DateTimeNumber::from(c)) {
                if got != want {
                    rec.violate("fraction", format!("calendar date {c:?} became {got:?}, expected {want:?}"), format!("{c:?}"));
                }
            }
            rec.sample(|| format!("{c:?} -> {want:?}"));
            if enough() {
                return;
            }
        }
    });
    // order, over pairs far apart and one field apart
    par(o, rec, 0x2004, o.n(100, 400_000, 10_000_000), |rec, rng, _f, n| {
        for _ in 0..n {
            let a = crate::gen::date(rng);
            let mut b = if rng.chance(1, 2) { crate::gen::date(rng) } else { a };
            let i = rng.below(6) as usize;
            b[i] = crate::gen::date(rng)[i];
            if !crate::model::valid_date(&b) {
                continue;
            }
            enter(rec.worker, "order", format!("{a:?} {b:?}").as_bytes());
            rec.count("pairs", 1);
            rec.case(hash(format!("{a:?}{b:?}").as_bytes()));
            if let (Some(x), Some(y)) = (both(rec, a), both(rec, b)) {
                if x.cmp(&y) != a.cmp(&b) {
                    rec.violate("order", format!("{a:?} and {b:?} compare {:?}, their calendar dates {:?}", a.cmp(&b), x.cmp(&y)), format!("{a:?} {b:?}"));
                }
            }
            if enough() {
                return;
            }
        }
    });
}
