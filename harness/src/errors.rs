//! C10 (and the hooked part of C25): which error handler is called, how often, and with what.
use crate::bed::Bed;
use crate::gen::{content, real_profile, structured, Want};
use crate::model::{self, Content, BAD_DATE, BAD_MAGIC, TOO_MANY};
use crate::plugin::{build, chain, describe, valid, CODES};
use crate::prof::open_by;
use crate::rt::*;
use lcms2::io::AccessMode;
use lcms2::state::{Context, ErrorCode};
use lcms2::types::Profile;
use std::cell::{Cell, RefCell};

#[derive(Debug, Clone, PartialEq)]
pub struct Call {
    pub handler: usize,
    pub ctx: Option<Vec<u8>>,
    pub code: ErrorCode,
    pub text: String,
}
thread_local! {
    static LOG: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
    static SWAPPED: Cell<bool> = const { Cell::new(false) };
}
fn log(handler: usize, ctx: &Context, code: ErrorCode, text: String) {
    LOG.with(|l| l.borrow_mut().push(Call { handler, ctx: ctx.get_user_data().map(|b| b.to_vec()), code, text }));
}
fn h0(c: &mut Context, k: ErrorCode, t: String) {
    log(0, c, k, t)
}
fn h1(c: &mut Context, k: ErrorCode, t: String) {
    log(1, c, k, t)
}
fn h2(c: &mut Context, k: ErrorCode, t: String) {
    log(2, c, k, t)
}
fn h3(c: &mut Context, k: ErrorCode, t: String) {
    log(3, c, k, t)
}
/// Replaces itself by handler 0 in the context it is given: that is the context in use, no copy of it.
fn h4(c: &mut Context, k: ErrorCode, t: String) {
    log(4, c, k, t);
    c.vp_set_error_handler(h0);
    SWAPPED.with(|s| s.set(true));
}
#[cfg(lcms2_vp = "global")]
fn h_global(c: &mut Context, k: ErrorCode, t: String) {
    log(GLOBAL, c, k, t)
}
const GLOBAL: usize = 99;
/// Whether the global context has a recording handler.
fn hook_global() -> bool {
    #[cfg(lcms2_vp = "global")]
    Context::vp_set_global_error_handler(h_global);
    cfg!(lcms2_vp = "global")
}
/// What an open through the global context has to report.
fn judge_global(rec: &mut Rec, hooked: bool, ok: bool, d: u8, calls: &[Call], det: &dyn Fn() -> String) {
    rec.count("opens with the global context", 1);
    if calls.iter().any(|c| c.handler != GLOBAL || c.ctx.is_some()) {
        rec.violate("other", format!("an open with the global context is reported to another context: {calls:?}"), det());
    } else if !hooked {
    } else if ok {
        if !calls.is_empty() {
            rec.violate("success", format!("a successful open with the global context is reported: {calls:?}"), det());
        }
    } else if d & (BAD_MAGIC | BAD_DATE | TOO_MANY) != 0 {
        if calls.len() != 1 {
            rec.violate("count", format!("a rejection with the global context is reported {} times: {calls:?}", calls.len()), det());
        } else if !codes(d).contains(&calls[0].code) {
            rec.violate("code", format!("reported with code {:?} to the global context, the defects present have {:?}", calls[0].code, codes(d)), det());
        }
        rec.count("rejections reported to the global context", calls.len() as u64);
    }
}
pub const H: [fn(&mut Context, ErrorCode, String); 5] = [h0, h1, h2, h3, h4];
pub fn take() -> Vec<Call> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
struct Live {
    ctx: Context,
    id: Vec<u8>,
    handler: Option<usize>,
}

/// The codes that a rejection for these defects may be reported with.
fn codes(d: u8) -> Vec<ErrorCode> {
    [(BAD_MAGIC, ErrorCode::BadSignature), (TOO_MANY, ErrorCode::Range), (BAD_DATE, ErrorCode::CorruptionDetected)].iter().filter(|x| d & x.0 != 0).map(|x| x.1).collect()
}
fn expect(rec: &mut Rec, l: &Live, calls: &[Call], codes: &[ErrorCode], text: Option<&str>, det: &dyn Fn() -> String) {
    if l.handler.is_none() {
        // the default handler records nothing
        if !calls.is_empty() {
            rec.violate("other", format!("an operation on a context without handler called another's handler: {calls:?}"), det());
        }
        rec.count("operations under the default handler", 1);
        return;
    }
    if calls.len() != 1 {
        return rec.violate("count", format!("the rejection is reported {} times: {calls:?}", calls.len()), det());
    }
    let c = &calls[0];
    if Some(c.handler) != l.handler || c.ctx.as_ref() != Some(&l.id) {
        rec.violate("whose", format!("reported to handler {} with context {:x?}; the context in use is {:x?} with handler {:?}", c.handler, c.ctx, l.id, l.handler), det());
    }
    if !codes.contains(&c.code) {
        rec.violate("code", format!("reported with code {:?}, the defects present have {codes:?}", c.code), det());
    }
    if text.is_some_and(|t| t != c.text) {
        rec.violate("text", format!("reported with text {:?}, returned {text:?}", c.text), det());
    }
    rec.count(&format!("reported {:?}", c.code), 1);
}

fn defective(rng: &mut Rng, o: &Opts) -> Content {
    let mut c = structured(rng, &o.dict, Want::Good);
    let k = rng.below(8);
    if k & 1 != 0 || k == 0 {
        c.put32(36, 0x6163_7370 ^ (1 << rng.below(32)));
    }
    if k & 2 != 0 {
        for (i, v) in crate::gen::bad_date(rng).iter().enumerate() {
            c.put16(24 + 2 * i, *v);
        }
    }
    if k & 4 != 0 {
        let n = *rng.pick(&[101, 102, 127, 128, 255, 256, 1000, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
        c.put32(128, n);
    }
    if rng.chance(1, 10) {
        c.len = c.len.min(128 + rng.below(40));
        c.head.truncate(c.len as usize);
    }
    c
}

fn history(o: &Opts, rec: &mut Rec, rng: &mut Rng, real: &Content, bed: &Bed, hooked: bool) {
    let mut live: Vec<Live> = vec![];
    let mut script: Vec<String> = vec![];
    let mut next = 0u32;
    for _ in 0..6 + rng.below(30) {
        let op = rng.below(12);
        if live.is_empty() || op == 0 && live.len() < 6 {
            next += 1;
            let id = next.to_be_bytes().to_vec();
            let mut ctx = Context::new(Some(id.clone().into()));
            let handler = if rng.chance(1, 8) { None } else { Some(rng.below(5) as usize) };
            if let Some(h) = handler {
                ctx.vp_set_error_handler(H[h]);
            }
            script.push(format!("new context {next} with handler {handler:?}"));
            live.push(Live { ctx, id, handler });
            continue;
        }
        let i = rng.below(live.len() as u64) as usize;
        enter(rec.worker, "history of reports", script.join(";").as_bytes());
        take();
        let name = u32::from_be_bytes(live[i].id.clone().try_into().unwrap());
        match op {
            1 if live.len() < 6 => {
                let (ctx, id, handler) = (live[i].ctx.clone(), live[i].id.clone(), live[i].handler);
                script.push(format!("clone {name}"));
                live.push(Live { ctx, id, handler });
            }
            2 => {
                let h = rng.below(5) as usize;
                live[i].ctx.vp_set_error_handler(H[h]);
                live[i].handler = Some(h);
                script.push(format!("set handler {h} on one context {name}"));
            }
            3 => {
                drop(live.swap_remove(i));
                script.push(format!("drop {name}"));
            }
            4 => {
                let code = *rng.pick(&CODES);
                let text = format!("text {}", rng.u32());
                script.push(format!("signal {code:?} on {name}"));
                let det = || format!("{script:?}");
                rec.lib("signal_error", det, || live[i].ctx.signal_error(code, text.clone()));
                expect(rec, &live[i], &take(), &[code], Some(&text), &det);
            }
            5 | 6 => {
                let c = chain(rng, &o.dict);
                let p = build(&c);
                script.push(format!("register on {name}: {}", describe(&c)));
                let det = || format!("{script:?}");
                let r = rec.lib("init_plugin", det, || live[i].ctx.init_plugin(&p));
                let calls = take();
                match r {
                    Some(Err(t)) => expect(rec, &live[i], &calls, &[ErrorCode::UnknownExtension], Some(&t), &det),
                    Some(Ok(())) => {
                        rec.count("successful operations", 1);
                        if !calls.is_empty() {
                            rec.violate("success", format!("a successful registration is reported: {calls:?}"), det());
                        }
                        if !c.iter().all(valid) {
                            rec.count("invalid chain accepted (C24)", 1);
                        }
                    }
                    None => {}
                }
            }
            7 => {
                // for writing, and missing files: nothing to report, or at most to the context in use
                script.push(format!("open for writing on {name}"));
                let det = || format!("{script:?}");
                let p = bed.path.with_extension("out");
                if let Some(Ok(_)) = rec.lib("open", det, || Profile::open_from_file_thr(&mut live[i].ctx, &p, AccessMode::Write)) {
                    let calls = take();
                    rec.count("successful operations", 1);
                    if !calls.is_empty() {
                        rec.violate("success", format!("a successful open for writing is reported: {calls:?}"), det());
                    }
                }
            }
            k => {
                let c = match rng.below(4) {
                    0 => content(rng, &o.dict, real, Want::Any),
                    1 => structured(rng, &o.dict, Want::Good),
                    _ => defective(rng, o),
                };
                bed.put(&c);
                let d = model::defects(&c);
                let global = k == 8 && rng.chance(1, 2);
                script.push(format!("open content with defects {d:#b} on {}", if global { "the global context".into() } else { name.to_string() }));
                let det = || format!("{script:?}; last content {}", c.describe());
                let Some(r) = rec.lib("open", det, || open_by(u64::from(!global), &mut live[i].ctx, &bed.path).map(|_| ())) else { continue };
                let calls = take();
                if global {
                    judge_global(rec, hooked, r.is_ok(), d, &calls, &det);
                } else if r.is_ok() {
                    rec.count("successful operations", 1);
                    if !calls.is_empty() {
                        rec.violate("success", format!("a successful open is reported: {calls:?}"), det());
                    }
                } else if d & (BAD_MAGIC | BAD_DATE | TOO_MANY) != 0 {
                    expect(rec, &live[i], &calls, &codes(d), None, &det);
                } else if calls.iter().any(|c| Some(c.handler) != live[i].handler || c.ctx.as_ref() != Some(&live[i].id)) {
                    rec.violate("other", format!("a truncated file is reported to another context: {calls:?}"), det());
                } else {
                    rec.count("truncated contents", 1);
                }
            }
        }
        rec.count("operations", 1);
        if SWAPPED.with(|s| s.replace(false)) && op != 3 {
            live[i].handler = Some(0);
            rec.count("handlers that replaced themselves", 1);
            script.push(format!("handler 4 has put handler 0 in its place on {name}"));
        }
        if enough() {
            break;
        }
    }
    rec.case(hash(script.join(";").as_bytes()));
    rec.sample(|| script.join("; "));
}

/// One context that sees very many rejections, of one kind or several, and reports every one of them.
fn worn(o: &Opts, rec: &mut Rec) {
    use crate::plugin::{build, good, Spec, MAGIC};
    par(o, rec, 0x1011, 8, |rec, rng, first, n| {
        let bed = Bed::new(&o.scratch, &format!("c10-worn-{}", rec.worker));
        for k in first..first + n {
            let id = vec![k as u8, 1, 2];
            let mut l = Live { ctx: Context::new(Some(id.clone().into())), id, handler: Some(k as usize % 4) };
            l.ctx.vp_set_error_handler(H[k as usize % 4]);
            let mut c = defective(rng, o);
            while model::defects(&c) & (BAD_MAGIC | BAD_DATE | TOO_MANY) == 0 || c.len < 140 {
                c = defective(rng, o);
            }
            bed.put(&c);
            let d = model::defects(&c);
            let g = build(&[good(rng)]);
            let b = build(&[Spec { magic: MAGIC, version: u32::MAX, kind: k as u32, data: 0 }]);
            let det = || format!("many rejections on one context, {}", c.describe());
            enter(rec.worker, "many rejections on one context", &c.head);
            take();
            // the same again and again, or one after the other
            let total = o.n(8, if k % 4 == 1 { 15_000 } else { 100_000 }, if k % 4 == 1 { 300_000 } else { 3_000_000 });
            for i in 0..total {
                let before = rec.violations.len();
                match if k % 4 == 3 { [0, 0, 0, 0, 0, 2, 2, 1][i as usize % 8] } else { k % 4 } {
                    1 => {
                        if rec.lib("open", det, || open_by(1, &mut l.ctx, &bed.path).is_ok()) == Some(false) {
                            expect(rec, &l, &take(), &codes(d), None, &det);
                        }
                    }
                    2 => {
                        rec.lib("init_plugin", det, || l.ctx.init_plugin(&g).is_ok());
                        let calls = take();
                        if !calls.is_empty() {
                            rec.violate("success", format!("registration {i} of a valid plugin is reported: {calls:?}"), det());
                        }
                    }
                    _ => {
                        if let Some(Err(t)) = rec.lib("init_plugin", det, || l.ctx.init_plugin(&b)) {
                            expect(rec, &l, &take(), &[ErrorCode::UnknownExtension], Some(&t), &det);
                        }
                    }
                }
                if rec.violations.len() > before {
                    break;
                }
            }
            rec.count("operations on one context", total);
            rec.enumerate(1);
        }
        leave(rec.worker);
    });
}

thread_local! {
    static DEEP: std::cell::RefCell<(u32, Vec<(u32, ErrorCode)>, std::path::PathBuf)> = const { std::cell::RefCell::new((0, Vec::new(), std::path::PathBuf::new())) };
}
/// A handler that makes the context reject something again, until it has done so often enough.
fn nesting(c: &mut Context, code: ErrorCode, _text: String) {
    use crate::plugin::{build, Spec};
    let (left, path) = DEEP.with(|d| {
        let mut d = d.borrow_mut();
        let left = d.0;
        d.1.push((left, code));
        d.0 = left.saturating_sub(1);
        (left, d.2.clone())
    });
    match left {
        0 => {}
        n if n % 3 == 0 => c.signal_error(ErrorCode::Seek, "nested"),
        n if n % 3 == 1 => drop(c.init_plugin(&build(&[Spec { magic: 0, version: 0, kind: 0, data: 0 }]))),
        _ => drop(open_by(1, c, &path)),
    }
}
/// Rejections while a rejection is being reported are reported as well.
fn nested(o: &Opts, rec: &mut Rec) {
    let bed = Bed::new(&o.scratch, "c10-nested");
    let mut rng = Rng::new(o.seed, 0x1012);
    for k in 0..o.n(2, 600, 20_000) {
        let mut c = structured(&mut rng, &o.dict, Want::Good);
        c.put32(36, c.be32(36) ^ (1 << (k % 32)));
        bed.put(&c);
        let depth = [0, 1, 2, 3, 4, 5, 9, 40][k as usize % 8];
        let mut ctx = Context::new(None);
        ctx.vp_set_error_handler(nesting);
        let first = (k / 8) % 3;
        let det = || format!("first rejection of kind {first}, {depth} more inside the handler");
        enter(0, "nested reports", &c.head);
        DEEP.with(|d| *d.borrow_mut() = (depth, vec![], bed.path.clone()));
        let bad_date = |d: u8| codes(d);
        let allowed = bad_date(model::defects(&c));
        rec.lib("nested", det, || match first {
            0 => ctx.signal_error(ErrorCode::Internal, "first"),
            1 => drop(ctx.init_plugin(&crate::plugin::build(&[crate::plugin::Spec { magic: 0, version: 0, kind: 0, data: 0 }]))),
            _ => drop(open_by(1, &mut ctx, &bed.path)),
        });
        let seen = DEEP.with(|d| d.borrow().1.clone());
        let ok = seen.len() as u32 == depth + 1
            && seen.iter().enumerate().all(|(i, (left, code))| {
                // what was rejected is what the handler before it did
                let by = if i == 0 { [0, 1, 2][first as usize] } else { (*left + 1) % 3 };
                *left == depth - i as u32
                    && match by {
                        0 => *code == if i == 0 { ErrorCode::Internal } else { ErrorCode::Seek },
                        1 => *code == ErrorCode::UnknownExtension,
                        _ => allowed.contains(code),
                    }
            });
        if !ok {
            rec.violate("nested", format!("of {} rejections, all but the first inside the handler, the handler saw {seen:?}", depth + 1), det());
        }
        rec.enumerate(1);
        rec.count("reports inside a handler", u64::from(depth));
    }
    leave(0);
}

pub fn c10(o: &Opts, rec: &mut Rec) {
    let hooked = hook_global();
    let real = real_profile();
    par(o, rec, 0x10, o.n(10, 60_000, 1_500_000), |rec, rng, _f, n| {
        let bed = Bed::new(&o.scratch, &format!("c10-{}", rec.worker));
        for _ in 0..n {
            history(o, rec, rng, &real, &bed, hooked);
            if enough() {
                break;
            }
        }
        leave(rec.worker);
    });
    worn(o, rec);
    nested(o, rec);
    // every combination of defects, every count just past the limit, every kind of impossible date
    let bed = Bed::new(&o.scratch, "c10-sweep");
    let mut rng = Rng::new(o.seed, 0x1010);
    for k in 1..8u8 {
        for count in (101..=300u32).chain([65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]) {
            if o.tier == Tier::Mini && count % 50 != 0 {
                continue;
            }
            let mut c = structured(&mut rng, &o.dict, Want::Good);
            if k & 1 != 0 {
                c.put32(36, c.be32(36) ^ (1 << (count % 32)));
            }
            if k & 2 != 0 {
                for (i, v) in crate::gen::bad_date(&mut rng).iter().enumerate() {
                    c.put16(24 + 2 * i, *v);
                }
            }
            if k & 4 != 0 {
                c.put32(128, count);
            }
            bed.put(&c);
            let d = model::defects(&c);
            let mut ctx = Context::new(Some(vec![9].into()));
            let h = (count % 4) as usize;
            ctx.vp_set_error_handler(H[h]);
            let mut l = Live { ctx, id: vec![9], handler: Some(h) };
            take();
            rec.enumerate(1);
            let det = || c.describe();
            enter(0, "reporting a rejection", &c.head);
            let r = rec.lib("open", det, || open_by(1, &mut l.ctx, &bed.path).is_ok());
            if r == Some(false) {
                expect(rec, &l, &take(), &codes(d), None, &det);
            } else if r == Some(true) {
                rec.violate("accepted", format!("content with defects {d:#b} opens"), det());
            }
            take();
            if let Some(ok) = rec.lib("open", det, || open_by(0, &mut l.ctx, &bed.path).is_ok()) {
                judge_global(rec, hooked, ok, d, &take(), &det);
            }
        }
    }
    leave(0);
}

/// C25 with configurable contexts: configuring one context never shows in another.
pub fn c25(o: &Opts, rec: &mut Rec) {
    par(o, rec, 0x2510, o.n(10, 100_000, 2_000_000), |rec, rng, _f, n| {
        for _ in 0..n {
            let mut live: Vec<Live> = vec![];
            let mut script: Vec<String> = vec![];
            for step in 0..3 + rng.below(16) {
                let i = rng.below(live.len().max(1) as u64) as usize;
                match if live.is_empty() { 0 } else { rng.below(5) } {
                    0 => {
                        let id = vec![step as u8; 1 + rng.below(9) as usize];
                        live.push(Live { ctx: Context::new(Some(id.clone().into())), id, handler: None });
                        script.push("new".into());
                    }
                    1 => {
                        let x = Live { ctx: live[i].ctx.clone(), id: live[i].id.clone(), handler: live[i].handler };
                        live.push(x);
                        script.push(format!("clone {i}"));
                    }
                    2 => {
                        drop(live.remove(i));
                        script.push(format!("drop {i}"));
                    }
                    _ => {
                        let h = rng.below(4) as usize;
                        live[i].ctx.vp_set_error_handler(H[h]);
                        live[i].handler = Some(h);
                        script.push(format!("handler {h} on {i}"));
                    }
                }
                for l in &mut live {
                    take();
                    let det = || format!("{script:?}");
                    rec.lib("signal_error", det, || l.ctx.signal_error(ErrorCode::Range, "x"));
                    let calls = take();
                    let ok = match l.handler {
                        None => calls.is_empty(),
                        Some(h) => calls == [Call { handler: h, ctx: Some(l.id.clone()), code: ErrorCode::Range, text: "x".into() }],
                    };
                    if !ok {
                        rec.violate("config", format!("a context with handler {:?} and data {:x?} makes the calls {calls:?}", l.handler, l.id), det());
                    }
                    rec.count("configurations checked", 1);
                }
            }
            rec.case(hash(script.join(";").as_bytes()));
            if enough() {
                break;
            }
        }
    });
}
