//! C24 (plugin chains) and C25 (contexts), and the plugin generator shared with C10.
use crate::dict::Dict;
use crate::rt::*;
use lcms2::io::AccessMode;
use lcms2::plugins::*;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::{Profile, Signature};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spec {
    pub magic: u32,
    pub version: u32,
    pub kind: u32,
    pub data: u8,
}
pub const MAGIC: u32 = u32::from_be_bytes(*b"acpp");
pub const KINDS: [u32; 9] = [
    u32::from_be_bytes(*b"zfmH"),
    u32::from_be_bytes(*b"inpH"),
    u32::from_be_bytes(*b"typH"),
    u32::from_be_bytes(*b"tagH"),
    u32::from_be_bytes(*b"frmH"),
    u32::from_be_bytes(*b"intH"),
    u32::from_be_bytes(*b"parH"),
    u32::from_be_bytes(*b"mpeH"),
    u32::from_be_bytes(*b"optH"),
];
pub fn valid(s: &Spec) -> bool {
    s.magic == MAGIC && s.version <= lcms2::LCMS_VERSION && KINDS.contains(&s.kind)
}
fn interp(_: u32, _: u32, _: u32) -> InterpFunction {
    InterpFunction::InterpFn16(|_, _, _| {})
}
fn format(_: Signature, _: FormatterDirection, _: FormatterPrecision) -> Formatter {
    Formatter::Fmt16(|_, _, _, _| Box::new([]))
}
fn curve(_: i32, _: &[f64], r: f64) -> f64 {
    r
}
pub fn data(k: u8) -> PluginType {
    // what is inside is not the registration's business
    let v = u32::from(k / 6);
    let n = [u32::MAX, 0, 1, 2, 10, 19, 20, 21, 32, 255, 256, 4096, 0x8000_0000][v as usize % 13];
    match k % 6 {
        0 => PluginType::Interpolation { interpolation_factory: interp },
        1 => PluginType::ParametricCurve {
            num_functions: n,
            function_types: std::array::from_fn(|i| if v % 2 == 0 { 7 } else { i as u32 * v }),
            parameter_count: std::array::from_fn(|i| if v % 3 == 0 { u32::MAX } else { i as u32 % v }),
            evaluator: curve,
        },
        2 => PluginType::Formatter { formatters_factory: format },
        3 => PluginType::Optimization { optimizer: |_, _| None },
        4 => PluginType::Transform { factory: if v % 2 == 0 { TransformFactories::Legacy(|_, _, _| None) } else { TransformFactories::Modern(|_, _, _| None) } },
        _ => PluginType::RenderingIntent {
            intent: Signature::from(if v % 3 == 0 { v } else { u32::MAX - v }),
            link: |_, _, _, _, _, _, _| unreachable!(),
            description: "\u{e9}".repeat([0, 1, 127, 128, 300][v as usize % 5]),
        },
    }
}
/// The data that goes with a type, where one can be built from outside the library.
pub fn data_for(kind: u32) -> u8 {
    match KINDS.iter().position(|k| *k == kind) {
        Some(0) => 4,
        Some(1) => 0,
        Some(4) => 2,
        Some(5) => 5,
        Some(6) => 1,
        Some(8) => 3,
        _ => 0,
    }
}
pub fn build(specs: &[Spec]) -> Plugin {
    let mut next: Option<Arc<Plugin>> = None;
    for s in specs[1..].iter().rev() {
        next = Some(Arc::new(one(s, next)));
    }
    one(&specs[0], next)
}
fn one(s: &Spec, next: Option<Arc<Plugin>>) -> Plugin {
    Plugin { magic: Signature::from(s.magic), expected_version: s.version, r#type: Signature::from(s.kind), next, data: data(s.data) }
}
pub fn good(rng: &mut Rng) -> Spec {
    let v = lcms2::LCMS_VERSION;
    let kind = *rng.pick(&KINDS);
    Spec {
        magic: MAGIC,
        version: match rng.below(5) {
            0 => v,
            1 => v - 1,
            2 => 0,
            3 => rng.below(u64::from(v) + 1) as u32,
            _ => 2000,
        },
        kind,
        data: if rng.chance(3, 4) { data_for(kind) + 6 * rng.below(42) as u8 } else { rng.below(252) as u8 },
    }
}
pub fn bad(rng: &mut Rng, d: &Dict) -> Spec {
    let mut s = good(rng);
    let v = lcms2::LCMS_VERSION;
    if rng.chance(2, 5) {
        s.magic = match rng.below(6) {
            0 => MAGIC ^ (1 << rng.below(32)),
            1 => MAGIC.swap_bytes(),
            2 => u32::from_be_bytes(*b"acsp"),
            3 => 0,
            4 => *rng.pick(&KINDS),
            _ => d.sig(rng),
        };
    }
    if rng.chance(2, 5) {
        s.version = match rng.below(6) {
            0 | 1 => v + 1,
            2 => u32::MAX,
            3 => 0x8000_0000 + rng.below(3) as u32,
            4 => v + rng.below(1000) as u32,
            _ => d.u32(rng),
        };
    }
    if rng.chance(2, 5) {
        s.kind = match rng.below(6) {
            0 => *rng.pick(&KINDS) ^ (1 << rng.below(32)),
            1 => rng.pick(&KINDS).swap_bytes(),
            2 => MAGIC,
            3 => 0,
            4 => rng.u32(),
            _ => d.sig(rng),
        };
    }
    s
}
pub fn chain(rng: &mut Rng, d: &Dict) -> Vec<Spec> {
    let n = match rng.below(if cfg!(miri) { 8 } else { 10 }) {
        0..=2 => 1,
        3..=7 => 1 + rng.below(5) as usize,
        8 => 1 + rng.below(20) as usize,
        _ => 1 + rng.below(300) as usize,
    };
    let mut c: Vec<Spec> = (0..n).map(|_| good(rng)).collect();
    if rng.chance(2, 3) {
        for _ in 0..1 + rng.below(2) {
            let at = match rng.below(4) {
                0 => 0,
                1 | 2 => n - 1,
                _ => rng.below(n as u64) as usize,
            };
            c[at] = bad(rng, d);
        }
    }
    if rng.chance(1, 10) && n > 1 {
        // the same plugin twice
        let a = rng.below(n as u64) as usize;
        let b = rng.below(n as u64) as usize;
        c[a] = c[b];
    }
    c
}
pub fn describe(c: &[Spec]) -> String {
    let f = c.iter().position(|s| !valid(s));
    format!("chain of {} plugins, first offending one {f:?}: {:x?}", c.len(), &c[..c.len().min(8)])
}

/// A context with a handler of its own (where the hook is there).
fn armed(data: Option<Vec<u8>>) -> Context {
    #[allow(unused_mut)]
    let mut c = Context::new(data.map(Vec::into_boxed_slice));
    #[cfg(lcms2_vp = "errors")]
    c.vp_set_error_handler(crate::errors::H[1]);
    c
}
fn judge(rec: &mut Rec, ctx: &mut Context, c: &[Spec]) {
    judge_one(rec, ctx, c);
    // it stays usable: its data and its handler are still there
    if cfg!(lcms2_vp = "errors") {
        let data = ctx.get_user_data().map(|b| b.to_vec());
        calls();
        rec.lib("signal_error", || describe(c), || ctx.signal_error(ErrorCode::Range, "x"));
        let seen = calls();
        if seen != [(1, data, ErrorCode::Range)] {
            rec.violate("unusable", format!("after a registration the context's handler is not called as before: {seen:x?}"), describe(c));
        }
        rec.count("contexts used afterwards", 1);
    }
}
fn judge_one(rec: &mut Rec, ctx: &mut Context, c: &[Spec]) {
    let p = build(c);
    let data = ctx.get_user_data().map(|b| b.to_vec());
    let det = || describe(c);
    let before = show(&ctx);
    let Some(r) = rec.lib("init_plugin", det, || ctx.init_plugin(&p)) else { return };
    let first = c.iter().find(|s| !valid(s));
    match (first, r) {
        (None, Ok(())) => rec.count("chains accepted", 1),
        (Some(f), Err(text)) => {
            rec.count("chains rejected", 1);
            if c.iter().position(|s| !valid(s)) == Some(c.len() - 1) {
                rec.count("rejected for the last plugin", 1);
            }
            // the text is the one that the offending plugin gets when it is registered alone
            let alone = build(&[*f]);
            match rec.lib("init_plugin", det, || Context::new(None).init_plugin(&alone)) {
                Some(Err(t)) if t == text => {}
                Some(t) => rec.violate("text", format!("the chain is rejected with {text:?}; its first offending plugin alone gives {t:?}"), det()),
                None => {}
            }
            if text.is_empty() || (f.magic == MAGIC && KINDS.contains(&f.kind) && !text.contains(&f.version.to_string())) {
                rec.violate("describes", format!("the text {text:?} does not describe the offending plugin"), det());
            }
            if f.magic == MAGIC && f.version <= lcms2::LCMS_VERSION {
                let b = f.kind.to_be_bytes();
                if b.iter().all(|c| c.is_ascii_alphanumeric()) && !text.contains(std::str::from_utf8(&b).unwrap()) {
                    rec.violate("describes", format!("the text {text:?} does not name the unknown type"), det());
                }
            }
            let after = show(&ctx);
            if after != before || ctx.get_user_data().map(|b| b.to_vec()) != data {
                rec.violate("changed", format!("a rejected chain changed the context from {before} to {after}"), det());
            }
        }
        (None, Err(t)) => rec.violate("rejected", format!("a valid chain is rejected: {t:?}"), det()),
        (Some(_), Ok(())) => rec.violate("accepted", "a chain with an invalid plugin is accepted", det()),
    }
}

pub fn c24(o: &Opts, rec: &mut Rec) {
    par(o, rec, 0x24, o.n(60, 700_000, 20_000_000), |rec, rng, _f, n| {
        let mut ctx = armed(Some(vec![1, 2]));
        for k in 0..n {
            if k % 64 == 0 {
                ctx = armed(Some(vec![3; (k / 64 % 5) as usize]));
            }
            let c = chain(rng, &o.dict);
            enter(rec.worker, "registering plugins", describe(&c).as_bytes());
            rec.case(c.iter().fold(0, |a, s| hash(&[s.magic.to_be_bytes(), s.version.to_be_bytes(), s.kind.to_be_bytes()].concat()) ^ u64::rotate_left(a, 9)));
            judge(rec, &mut ctx, &c);
            if enough() {
                break;
            }
        }
        leave(rec.worker);
        rec.sample(|| "sequences of up to 64 registrations on one context, chains of 1 to 300 plugins with 0 to 2 defects".into());
    });
    // every defect at every position of short chains; every known type; versions around the library's
    let v = lcms2::LCMS_VERSION;
    let mut rng = Rng::new(o.seed, 0x2424);
    let mut ctx = armed(None);
    let good1 = Spec { magic: MAGIC, version: v, kind: KINDS[0], data: 4 };
    for n in 1..=if o.tier == Tier::Mini { 2 } else { 10usize } {
        for at in 0..n {
            for kind in KINDS {
                for ver in [v, v + 1, 0, 1, v - 1, v + 2, 2 * v, 0x7fff_ffff, 0x8000_0000, u32::MAX].into_iter().take(if o.tier == Tier::Mini { 2 } else { 10 }) {
                    for magic in [MAGIC, MAGIC + 1, 0] {
                        let mut c = vec![good1; n];
                        c[at] = Spec { magic, version: ver, kind, data: data_for(kind) };
                        rec.enumerate(1);
                        judge(rec, &mut ctx, &c);
                    }
                }
            }
            for bit in if o.tier == Tier::Mini { 30..32 } else { 0..32 } {
                for kind in KINDS {
                    let mut c = vec![good1; n];
                    c[at] = Spec { kind: kind ^ (1 << bit), data: data_for(kind), ..good1 };
                    rec.enumerate(1);
                    judge(rec, &mut ctx, &c);
                }
            }
        }
    }
    if o.tier != Tier::Mini {
        for ver in 0..=8000u32 {
            rec.enumerate(1);
            judge(rec, &mut ctx, &[Spec { version: ver, ..good1 }]);
        }
        // long chains, and shared tails
        for n in [1000usize, 2000] {
            for at in [0, n / 2, n - 2, n - 1, n] {
                let mut c: Vec<Spec> = (0..n).map(|_| good(&mut rng)).collect();
                if at < n {
                    c[at].kind ^= 0x100;
                }
                rec.enumerate(1);
                judge(rec, &mut ctx, &c);
            }
        }
        deep_chains(o, rec);
        worn(o, rec);
        for b in 0..2u32 {
            let tail = Arc::new(build(&[good1, Spec { magic: MAGIC + b, ..good1 }]));
            let mk = || Plugin { magic: Signature::from(MAGIC), expected_version: v, r#type: Signature::from(KINDS[6]), next: Some(tail.clone()), data: data(1) };
            for p in [mk(), mk()] {
                rec.enumerate(1);
                if let Some(r) = rec.lib("init_plugin", String::new, || ctx.init_plugin(&p)) {
                    if r.is_ok() != (b == 0) {
                        rec.violate("shared", format!("a chain with a shared tail gives {r:?}"), format!("defect in the tail: {b}"));
                    }
                }
            }
        }
    }
}

/// One context that sees more registrations than any counter of 16 bits holds: all accepted, all rejected, and mixed.
fn worn(o: &Opts, rec: &mut Rec) {
    par(o, rec, 0x2427, 6, |rec, rng, first, n| {
        for k in first..first + n {
            let mut ctx = armed(Some(vec![k as u8; 3]));
            let bad = Spec { magic: MAGIC, version: lcms2::LCMS_VERSION + 1 + k as u32, kind: KINDS[k as usize], data: data_for(KINDS[k as usize]) };
            enter(rec.worker, "many registrations on one context", &[k as u8]);
            let (g, b) = (build(&[good(rng)]), build(&[bad]));
            let total = o.n(10, 220_000, 5_000_000);
            for i in 0..total {
                let is_good = match k % 3 {
                    0 => true,
                    1 => false,
                    _ => rng.chance(1, 2),
                };
                let Some(r) = rec.lib("init_plugin", || format!("registration {i} on one context"), || ctx.init_plugin(if is_good { &g } else { &b })) else { return };
                if r.is_ok() != is_good {
                    rec.violate("worn", format!("registration {i} on one context gives {r:?}, the plugin is {}", if is_good { "valid" } else { "too new" }), String::new());
                    return;
                }
                if cfg!(lcms2_vp = "errors") && i % 512 == 0 {
                    calls();
                }
            }
            calls();
            // in the end it still takes what is valid and rejects the rest
            for _ in 0..20 {
                let c = chain(rng, &o.dict);
                judge(rec, &mut ctx, &c);
            }
            rec.count("registrations on one context", total);
            rec.enumerate(1);
        }
        leave(rec.worker);
    });
}

/// Chains of more plugins than any counter of 16 bits holds, on a stack on which a recursive implementation is at home.
fn deep_chains(o: &Opts, rec: &mut Rec) {
    if cfg!(lcms2_vp = "errors") && o.tier == Tier::Quick {
        return;
    }
    let mut cases = vec![];
    for n in [300usize, 5_000, 70_000].into_iter().take(if cfg!(miri) { 1 } else { 3 }) {
        for at in [n, n - 1, n / 2, 0] {
            cases.push((n, at));
        }
    }
    let seed = o.seed;
    let results = std::thread::Builder::new()
        .stack_size(if cfg!(miri) { 1 << 22 } else { 1 << 30 })
        .spawn(move || {
            let mut rng = Rng::new(seed, 0x2425);
            let mut out = vec![];
            for (n, at) in cases {
                let mut c: Vec<Spec> = (0..n).map(|_| good(&mut rng)).collect();
                if at < n {
                    c[at].version = lcms2::LCMS_VERSION + 1;
                }
                let mut p = build(&c);
                let r = guarded(|| Context::new(None).init_plugin(&p));
                // taken apart one by one: dropping the chain at once recurses
                let mut next = p.next.take();
                while let Some(a) = next {
                    next = Arc::try_unwrap(a).ok().and_then(|mut p| p.next.take());
                }
                out.push((n, at, r));
            }
            out
        })
        .expect("thread")
        .join();
    let Ok(results) = results else {
        rec.violate("deep", "registering a long chain ends its thread", String::new());
        return;
    };
    for (n, at, r) in results {
        rec.enumerate(1);
        rec.count("long chains", 1);
        match r {
            Ok(r) if r.is_ok() == (at == n) => {}
            r => rec.violate("deep", format!("a chain of {n} plugins, {}, gives {r:?}", if at < n { format!("the one at {at} too new") } else { "all valid".into() }), format!("{n} {at}")),
        }
    }
}

// ---------------------------------------------------------------- contexts
fn fresh_data(rng: &mut Rng) -> Option<Vec<u8>> {
    if rng.chance(1, 5) {
        return None;
    }
    let n = match rng.below(5) {
        0 => 0,
        1 => 1,
        2 => rng.below(16),
        3 => rng.below(300),
        _ => 4096,
    };
    let mut v = vec![0; n as usize];
    match rng.below(3) {
        0 => {}
        1 => v.fill(0xff),
        _ => rng.fill(&mut v),
    }
    Some(v)
}
/// Data of any length, with words of the source in it.
pub fn any_data(rng: &mut Rng, d: &Dict) -> Option<Vec<u8>> {
    if !d.texts.is_empty() && rng.chance(1, 3) {
        // a word and its argument
        let mut v = rng.pick(&d.texts).as_bytes().to_vec();
        let small = rng.chance(1, 2);
        for _ in 0..rng.below(6) {
            v.push(if small { rng.below(4) as u8 } else { rng.u64() as u8 });
        }
        return Some(v);
    }
    let mut v = fresh_data(rng)?;
    if rng.chance(1, 2) {
        if rng.chance(1, 2) {
            v.truncate(rng.below(12) as usize);
        }
        for _ in 0..1 + rng.below(3) {
            match rng.below(3) {
                0 if !d.texts.is_empty() => v.extend_from_slice(rng.pick(&d.texts).as_bytes()),
                1 => v.extend_from_slice(&d.u32(rng).to_be_bytes()),
                _ => v.extend_from_slice(&d.sig(rng).to_be_bytes()),
            }
        }
        if rng.chance(1, 2) {
            v.reverse();
        }
    } else if rng.chance(1, 8) {
        let n = d.size(rng, 70_000);
        v.resize(n, 7);
    }
    Some(v)
}
thread_local! {
    static LAST: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Data of its own, or data close to what an earlier context got.
fn user_data(rng: &mut Rng) -> Option<Vec<u8>> {
    if rng.chance(2, 5) {
        let mut v = LAST.with(|l| l.borrow().clone());
        let n = v.len() as u64;
        if n > 0 {
            match rng.below(6) {
                0 => {}
                1 => drop(v.pop()),
                2 => v.push(0),
                3 => {
                    let (a, b) = (rng.below(n) as usize, rng.below(n) as usize);
                    v.swap(a, b);
                }
                _ => {
                    let at = if rng.chance(1, 3) { n - 1 } else { rng.below(n) };
                    v[at as usize] ^= 1 << rng.below(8);
                }
            }
            return Some(v);
        }
    }
    let v = fresh_data(rng);
    if let Some(v) = v.as_ref().filter(|v| v.len() < 300 || rng.chance(1, 4)) {
        LAST.with(|l| l.replace(v.clone()));
    }
    v
}
struct Live {
    ctx: Context,
    data: Option<Vec<u8>>,
    debug: String,
    /// the error handler that was installed (needs the hook)
    handler: Option<usize>,
}
/// Calls of installed error handlers since the last look: which one, with which context's data, and the code.
#[cfg(lcms2_vp = "errors")]
fn calls() -> Vec<(usize, Option<Vec<u8>>, ErrorCode)> {
    crate::errors::take().into_iter().map(|c| (c.handler, c.ctx, c.code)).collect()
}
#[cfg(not(lcms2_vp = "errors"))]
fn calls() -> Vec<(usize, Option<Vec<u8>>, ErrorCode)> {
    vec![]
}
fn install(l: &mut Live, rng: &mut Rng) {
    #[cfg(lcms2_vp = "errors")]
    if rng.chance(3, 4) {
        let h = rng.below(4) as usize;
        l.ctx.vp_set_error_handler(crate::errors::H[h]);
        l.handler = Some(h);
        l.debug = show(&l.ctx);
    }
    let _ = (l, rng);
}
/// (the interpreter takes seconds to format a context)
fn show(c: &Context) -> String {
    if cfg!(miri) { String::new() } else { format!("{c:?}") }
}
fn fresh(rng: &mut Rng) -> Live {
    let data = user_data(rng);
    let ctx = Context::new(data.clone().map(Vec::into_boxed_slice));
    let debug = show(&ctx);
    let mut l = Live { ctx, data, debug, handler: None };
    install(&mut l, rng);
    l
}
pub const CODES: [ErrorCode; 14] = [
    ErrorCode::Undefined, ErrorCode::File, ErrorCode::Range, ErrorCode::Internal, ErrorCode::Null, ErrorCode::Read, ErrorCode::Seek,
    ErrorCode::Write, ErrorCode::UnknownExtension, ErrorCode::ColorSpaceCheck, ErrorCode::AlreadyDefined, ErrorCode::BadSignature,
    ErrorCode::CorruptionDetected, ErrorCode::NotSuitable,
];

/// Very many contexts alive at once, long lines of clones, and large data.
fn many_contexts(o: &Opts, rec: &mut Rec) {
    let mut rng = Rng::new(o.seed, 0x2507);
    enter(0, "many contexts", b"");
    let data = |k: u64| -> Option<Box<[u8]>> {
        match k % 7 {
            0 => None,
            1 => Some(k.to_be_bytes().into()),
            2 => Some([&k.to_le_bytes()[..], &[0; 9]].concat().into()),
            3 => Some((k as u16).to_be_bytes().into()),
            _ => Some(format!("context number {k}").into_bytes().into()),
        }
    };
    let check = |rec: &mut Rec, all: &[(u64, Context)], when: &str| {
        for (k, c) in all {
            rec.count("contexts checked", 1);
            let got = rec.lib("get_user_data", String::new, || c.get_user_data().map(|d| d.to_vec()));
            let want = data(*k).map(|d| d.into_vec());
            if got != Some(want.clone()) {
                rec.violate("many", format!("{when}: context {k} of {} returns user data {got:x?}, it was created with {want:x?}", all.len()), String::new());
            }
        }
    };
    let rounds = o.n(1, 3, 12);
    for round in 0..rounds {
        let n = o.n(20, if round == 0 { 70_000 } else { 3_000 }, 140_000);
        let mut all: Vec<(u64, Context)> = vec![];
        for k in 0..n {
            if let Some(c) = rec.lib("new", String::new, || Context::new(data(k))) {
                all.push((k, c));
            }
        }
        rec.case(round ^ 0x2507_0000);
        rec.count("contexts alive at once", n);
        check(rec, &all, "after creating them");
        // drop many, in an order of their own; report with some; create others
        for i in (1..all.len()).rev() {
            all.swap(i, rng.below(i as u64 + 1) as usize);
        }
        all.truncate(all.len() / 3 + 1);
        check(rec, &all, "after dropping others");
        for (k, c) in all.iter_mut().step_by(17) {
            let code = CODES[*k as usize % CODES.len()];
            rec.lib("signal_error", String::new, || c.signal_error(code, "one of many"));
        }
        for k in n..n + n / 10 {
            if let Some(c) = rec.lib("new", String::new, || Context::new(data(k))) {
                all.push((k, c));
            }
        }
        let some: Vec<(u64, Context)> = all.iter().step_by(11).filter_map(|(k, c)| Some((*k, rec.lib("clone", String::new, || c.clone())?))).collect();
        check(rec, &all, "after creating others");
        drop(all);
        check(rec, &some, "after dropping the originals");
    }
    // clones of clones
    for first in 0..o.n(1, 14, 70) {
        let Some(mut c) = rec.lib("new", String::new, || Context::new(data(first))) else { continue };
        let mut back = vec![];
        let n = o.n(5, 400, 3000);
        for k in 0..n {
            let Some(next) = rec.lib("clone", String::new, || c.clone()) else { break };
            let old = std::mem::replace(&mut c, next);
            if k % 5 == 0 {
                back.push((first, old));
            }
        }
        rec.case(first ^ 0x2508_0000);
        rec.count("generations of clones", n);
        back.push((first, c));
        check(rec, &back, "generations of clones");
    }
    // one context with a long life
    for k in 0..o.n(1, 4, 12) {
        let Some(mut c) = rec.lib("new", String::new, || Context::new(data(k + 1))) else { continue };
        let Some(twin) = rec.lib("clone", String::new, || c.clone()) else { continue };
        let n = o.n(20, 200_000, 2_000_000);
        let (g, b) = (build(&[good(&mut rng)]), build(&[Spec { magic: 0, version: 0, kind: 0, data: 0 }]));
        for i in 0..n {
            let r = match (k + i) % 4 {
                0 => rec.lib("init_plugin", String::new, || drop(c.init_plugin(&g))),
                1 => rec.lib("init_plugin", String::new, || drop(c.init_plugin(&b))),
                2 => rec.lib("signal_error", String::new, || c.signal_error(CODES[i as usize % CODES.len()], "again")),
                _ => rec.lib("clone", String::new, || drop(c.clone())),
            };
            if r.is_none() {
                break;
            }
            if i % 512 == 0 {
                calls();
                check(rec, &[(k + 1, c.clone())], "a clone of a context with a long life");
            }
            let same = rec.lib("get_user_data", String::new, || c.get_user_data() == twin.get_user_data());
            if same != Some(true) {
                rec.violate("long life", format!("after {i} uses the context's user data is {:x?}, at first it was {:x?}", c.get_user_data(), twin.get_user_data()), String::new());
                break;
            }
        }
        rec.case(k ^ 0x2509_0000);
        rec.count("uses of one context", n);
        check(rec, &[(k + 1, c), (k + 1, twin)], "after a long life");
    }
    // large data
    for k in 0..o.n(2, 60, 400) {
        let n = match k % 4 {
            0 => 1usize << rng.below(if cfg!(miri) { 10 } else { 26 }),
            1 => (1usize << rng.below(if cfg!(miri) { 10 } else { 26 })) + 1,
            _ => o.dict.size(&mut rng, if cfg!(miri) { 1000 } else { 3_000_000 }),
        };
        let mut v = vec![0u8; n];
        if cfg!(miri) || n < 4096 {
            rng.fill(&mut v);
        } else {
            for (i, b) in v.iter_mut().enumerate() {
                *b = (i ^ i >> 8 ^ i >> 16) as u8 ^ k as u8;
            }
        }
        let h = hash(&v);
        rec.case(h ^ n as u64);
        rec.count("largest user data (thousand bytes)", 0);
        if let Some(m) = rec.counters.get_mut("largest user data (thousand bytes)") {
            *m = (*m).max(n as u64 / 1000);
        }
        let ok = rec.lib("large data", || n.to_string(), || {
            let a = Context::new(Some(v.into_boxed_slice()));
            let b = a.clone();
            let x = a.get_user_data().map(|d| (d.len(), hash(d)));
            drop(a);
            (x, b.get_user_data().map(|d| (d.len(), hash(d))))
        });
        if ok != Some((Some((n, h)), Some((n, h)))) {
            rec.violate("large", format!("user data of {n} bytes comes back as {ok:?} (length and hash of it and of a clone's), it was {:?}", (n, h)), n.to_string());
        }
        if enough() {
            break;
        }
    }
    leave(0);
}

pub fn c25(o: &Opts, rec: &mut Rec) {
    let files = samples(o);
    let files = &files;
    par(o, rec, 0x25, o.n(10, 60_000, 1_500_000), |rec, rng, _f, n| {
        let out = std::path::Path::new(&o.scratch).join(format!("c25-{}.out", rec.worker));
        for _ in 0..n {
            let mut live: Vec<Live> = vec![fresh(rng)];
            let mut script = vec![];
            let steps = 3 + rng.below(25);
            let plain = show(&Context::new(None));
            for _ in 0..steps {
                let i = if live.is_empty() { 0 } else { rng.below(live.len() as u64) as usize };
                enter(rec.worker, "history of contexts", script.join(";").as_bytes());
                let det = || format!("{script:?}");
                let op = if live.is_empty() { 0 } else { rng.below(if cfg!(lcms2_vp = "errors") { 12 } else { 10 }) };
                let mut done = None;
                calls();
                // the context in use, and the code its handler must be called with
                let mut user: Option<(Option<usize>, Option<Vec<u8>>, Option<ErrorCode>)> = None;
                match op {
                    0 => {
                        if live.len() < 8 {
                            live.push(fresh(rng));
                            script.push("new".to_string());
                        }
                    }
                    1 | 2 => {
                        if live.len() < 8 {
                            if let Some(ctx) = rec.lib("clone", det, || live[i].ctx.clone()) {
                                let debug = show(&ctx);
                                if debug != live[i].debug {
                                    rec.violate("clone", format!("a clone differs from its original: {debug} / {}", live[i].debug), det());
                                }
                                let (data, handler) = (live[i].data.clone(), live[i].handler);
                                live.push(Live { ctx, data, debug, handler });
                                script.push(format!("clone {i}"));
                            }
                        }
                    }
                    10 => {
                        install(&mut live[i], rng);
                        script.push(format!("install handler {:?} in {i}", live[i].handler));
                    }
                    3 => {
                        let l = live.swap_remove(i);
                        done = rec.lib("drop", det, || drop(l));
                        script.push(format!("drop {i}"));
                    }
                    4 | 5 => {
                        let f = rng.pick(files);
                        user = Some((live[i].handler, live[i].data.clone(), None));
                        done = rec.lib("open", det, || drop(Profile::open_from_file_thr(&mut live[i].ctx, f, AccessMode::Read)));
                        script.push(format!("open {} with {i}", f.file_name().unwrap().to_string_lossy()));
                    }
                    6 => {
                        done = rec.lib("open", det, || drop(Profile::open_from_file_thr(&mut live[i].ctx, &out, AccessMode::Write)));
                        script.push(format!("open for writing with {i}"));
                    }
                    7 => {
                        let c = chain(rng, &o.dict);
                        let p = build(&c);
                        user = Some((live[i].handler, live[i].data.clone(), None));
                        let r = rec.lib("init_plugin", det, || live[i].ctx.init_plugin(&p).is_ok());
                        script.push(format!("register {} plugins with {i}", c.len()));
                        if r == Some(true) {
                            // a successful registration may show in this context, and in no other
                            live[i].debug = show(&live[i].ctx);
                        }
                    }
                    8 | 11 => {
                        let code = *rng.pick(&CODES);
                        user = Some((live[i].handler, live[i].data.clone(), Some(code)));
                        done = rec.lib("signal_error", det, || live[i].ctx.signal_error(code, "text"));
                        script.push(format!("signal {code:?} with {i}"));
                    }
                    _ => {
                        let f = rng.pick(files);
                        done = rec.lib("open", det, || drop(Profile::open_from_file(f, AccessMode::Read)));
                        script.push("open with the global context".to_string());
                    }
                }
                let _ = done;
                if cfg!(lcms2_vp = "errors") {
                    let seen = calls();
                    let det = || format!("{script:?}");
                    match &user {
                        None if !seen.is_empty() => rec.violate("handler", format!("an operation that reports nothing, or not here, called error handlers: {seen:x?}"), det()),
                        Some((Some(h), data, Some(code))) if seen != [(*h, data.clone(), *code)] => {
                            rec.violate("handler", format!("reporting {code:?} with a context that has handler {h} and data {data:x?} made the calls {seen:x?}"), det())
                        }
                        Some((h, data, _)) if seen.iter().any(|c| Some(c.0) != *h || c.1 != *data) => {
                            rec.violate("handler", format!("an operation with a context that has handler {h:?} and data {data:x?} made the calls {seen:x?}"), det())
                        }
                        _ => {}
                    }
                    rec.count("calls of installed handlers", seen.len() as u64);
                }
                for (k, l) in live.iter().enumerate() {
                    let det = || format!("{script:?}");
                    match rec.lib("get_user_data", det, || l.ctx.get_user_data().map(|b| b.to_vec())) {
                        Some(d) if d == l.data => {}
                        Some(d) => rec.violate("data", format!("context {k} returns user data {d:x?}, it was created with {:x?}", l.data), det()),
                        None => {}
                    }
                    let now = show(&l.ctx);
                    if now != l.debug {
                        rec.violate("debug", format!("context {k} changed from {} to {now}", l.debug), det());
                    }
                    rec.count("contexts checked", 1);
                }
                rec.count("operations", 1);
            }
            rec.case(hash(script.join(";").as_bytes()));
            rec.sample(|| script.join("; "));
            let d = show(&Context::new(None));
            if d != plain {
                rec.violate("new", format!("a new context differs from earlier ones: {d} / {plain}"), format!("{script:?}"));
            }
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
    many_contexts(o, rec);
    // contexts used by several threads, and moved between them
    let rounds = o.n(1, 60, 1000);
    for round in 0..rounds {
        let mut rng = Rng::new(o.seed, 0x2525 + round);
        let mut all: Vec<Live> = (0..8).map(|_| fresh(&mut rng)).collect();
        let base = fresh(&mut rng);
        let results: Vec<(Vec<String>, Vec<Live>)> = std::thread::scope(|s| {
            let mut hs = vec![];
            for t in 0..4u64 {
                let mut mine: Vec<Live> = all.drain(..2).collect();
                let base = &base;
                hs.push(s.spawn(move || {
                    let mut rng = Rng::new(o.seed ^ 0x77, round * 8 + t);
                    let mut bad = vec![];
                    for _ in 0..if o.tier == Tier::Mini { 3 } else { 60 } {
                        let f = rng.pick(files);
                        let c = base.ctx.clone();
                        if c.get_user_data().map(|b| b.to_vec()) != base.data {
                            bad.push("a clone taken while others work has other data".to_string());
                        }
                        for l in &mut mine {
                            let _ = guarded(|| Profile::open_from_file_thr(&mut l.ctx, f, AccessMode::Read).is_ok()).map_err(|e| bad.push(e));
                            if l.ctx.get_user_data().map(|b| b.to_vec()) != l.data {
                                bad.push("a context lost its data while other threads work".into());
                            }
                        }
                        drop(c);
                    }
                    (bad, mine)
                }));
            }
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        rec.enumerate(1);
        rec.count("multi-threaded rounds", 1);
        for (bad, mine) in results {
            for b in bad {
                rec.violate("threads", b, format!("round {round}"));
            }
            for l in mine {
                if l.ctx.get_user_data().map(|b| b.to_vec()) != l.data || show(&l.ctx) != l.debug {
                    rec.violate("moved", "a context that another thread used changed", format!("round {round}"));
                }
            }
        }
    }
}

/// Sample files: a good profile, one of each defect, and a missing one.
pub fn samples(o: &Opts) -> Vec<std::path::PathBuf> {
    let d = std::path::Path::new(&o.scratch).join("samples");
    let _ = std::fs::create_dir(&d);
    let mut rng = Rng::new(o.seed, 0x5a);
    let real = crate::gen::real_profile();
    let mut v = vec![];
    let mut put = |n: &str, b: &[u8]| {
        let p = d.join(n);
        std::fs::write(&p, b).expect("scratch");
        v.push(p);
    };
    let mut full = real.head.clone();
    full.resize(2000, 3);
    put("good", &full);
    let mut x = full.clone();
    x[36] = b'X';
    put("bad-magic", &x);
    let mut x = full.clone();
    x[26] = 9;
    put("bad-date", &x);
    let mut x = full.clone();
    x[130] = 9;
    put("too-many", &x);
    put("short", &full[..90]);
    put("short-dir", &full[..150]);
    put("empty", b"");
    let mut z = crate::gen::structured(&mut rng, &o.dict, crate::gen::Want::Tags);
    z.head.resize(3000, 1);
    put("structured", &z.head);
    v.push(d.join("missing"));
    v
}
