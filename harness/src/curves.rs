//! C21 to C23: parametric curves, against the documented formulas evaluated with an error bound.
use crate::rt::*;

pub type Set = <lcms2::plugins::ParametricCurvesCollection as IntoIterator>::Item;
pub const DECLARED: [(i32, u32); 10] = [(1, 1), (2, 3), (3, 4), (4, 5), (5, 7), (6, 4), (7, 5), (8, 5), (108, 1), (109, 1)];
const TOL: f64 = 0.0001;
const PLUS_INF: f64 = 1e22;
const EPS: f64 = f64::EPSILON;
/// How far a result may be from the formula, in units of the propagated rounding error.
const SLACK: f64 = 64.0;

/// A value together with a bound for its rounding error (exact operations have none).
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: f64,
    pub e: f64,
}
fn x(v: f64) -> V {
    V { v, e: 0.0 }
}
impl V {
    fn add(self, o: V) -> V {
        let v = self.v + o.v;
        // exact rounding error of the sum
        let bb = v - self.v;
        let err = (self.v - (v - bb)) + (o.v - bb);
        V { v, e: self.e + o.e + if err.is_finite() { err.abs() } else { v.abs() * EPS } }
    }
    fn neg(self) -> V {
        V { v: -self.v, e: self.e }
    }
    fn sub(self, o: V) -> V {
        self.add(o.neg())
    }
    fn mul(self, o: V) -> V {
        let v = self.v * o.v;
        let err = self.v.mul_add(o.v, -v);
        let tiny = if v != 0.0 && v.abs() < 1e-290 { 1e-300 } else { 0.0 };
        V { v, e: self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e + tiny + if err.is_finite() { err.abs() } else { v.abs() * EPS } }
    }
    fn div(self, o: V) -> V {
        let v = self.v / o.v;
        if o.e > o.v.abs() / 4.0 {
            return V { v, e: f64::INFINITY };
        }
        let err = (-v).mul_add(o.v, self.v) / o.v;
        let tiny = if v != 0.0 && v.abs() < 1e-290 { 1e-300 } else { 0.0 };
        V { v, e: (self.e + v.abs() * o.e) / o.v.abs() * 1.4 + tiny + if err.is_finite() { err.abs() } else { v.abs() * EPS } }
    }
    fn pow(self, y: V) -> V {
        let v = self.v.powf(y.v);
        if self.e == 0.0 && y.e == 0.0 && (self.v == 0.0 || self.v == 1.0 || y.v == 0.0 || y.v == 1.0) {
            return x(v);
        }
        if self.exact_pow(y) == Some(v) {
            return x(v);
        }
        if self.e > 0.0 && self.v.abs() <= self.e * 4.0 {
            return V { v, e: if y.v > 0.0 { (5.0 * self.e).powf(y.v) } else { f64::INFINITY } };
        }
        let rel = if self.e == 0.0 { 0.0 } else { y.v.abs() * self.e / self.v.abs() } + if y.e == 0.0 { 0.0 } else { self.v.abs().ln().abs() * y.e };
        V { v, e: if rel > 0.2 { f64::INFINITY } else { v.abs() * (1.3 * rel + 2.0 * EPS) + 1e-300 } }
    }
    /// The power where it is a number f64 can hold and rounding takes no part: every
    /// implementation that is good to one ulp returns it.
    fn exact_pow(self, y: V) -> Option<f64> {
        if self.e != 0.0 || y.e != 0.0 || !self.v.is_finite() || self.v.abs() > 1e30 || self.v.abs() < 1e-30 {
            return None;
        }
        if (2.0..=8.0).contains(&y.v) && y.v.fract() == 0.0 {
            let mut r = self;
            for _ in 1..y.v as i32 {
                r = r.mul(self);
            }
            return (r.e == 0.0).then_some(r.v);
        }
        if y.v == -1.0 {
            let r = x(1.0).div(self);
            return (r.e == 0.0).then_some(r.v);
        }
        if y.v == 0.5 && self.v > 0.0 {
            let r = x(self.v.sqrt());
            let sq = r.mul(r);
            return (sq.e == 0.0 && sq.v == self.v).then_some(r.v);
        }
        None
    }
    fn exp(self) -> V {
        let v = self.v.exp();
        V { v, e: if self.e > 0.2 { f64::INFINITY } else { v * (1.3 * self.e + 2.0 * EPS) + 1e-300 } }
    }
    fn ln(self) -> V {
        let v = self.v.ln();
        V { v, e: if self.e > self.v.abs() / 4.0 { f64::INFINITY } else { 1.4 * self.e / self.v.abs() + v.abs() * 2.0 * EPS } }
    }
    fn log10(self) -> V {
        let v = self.v.log10();
        V { v, e: if self.e > self.v.abs() / 4.0 { f64::INFINITY } else { 0.7 * self.e / self.v.abs() + v.abs() * 2.0 * EPS } }
    }
    /// a >= b, or None when rounding decides
    fn ge(self, o: V) -> Option<bool> {
        let d = self.e + o.e;
        if d != 0.0 && (self.v - o.v).abs() <= SLACK * d {
            None
        } else {
            Some(self.v >= o.v)
        }
    }
    fn gt(self, o: V) -> Option<bool> {
        o.ge(self).map(|b| !b)
    }
}
fn small(v: f64) -> bool {
    v.abs() < TOL
}
fn sigmoid_base(k: V, t: V) -> V {
    x(1.0).div(x(1.0).add(k.neg().mul(t).exp())).sub(x(0.5))
}

/// The documented curve. None: the branch depends on rounding.
pub fn formula(t: i32, p: &[f64], r: V) -> Option<V> {
    let z = x(0.0);
    let q = |i: usize| x(p[i]);
    Some(match t {
        1 | -1 => {
            if !r.ge(z)? {
                if small(p[0] - 1.0) { r } else { z }
            } else if t == 1 {
                r.pow(q(0))
            } else if small(p[0]) {
                x(PLUS_INF)
            } else {
                r.pow(x(1.0).div(q(0)))
            }
        }
        2 => {
            if small(p[1]) {
                return Some(z);
            }
            let e = q(1).mul(r).add(q(2));
            if r.ge(q(2).neg().div(q(1)))? && e.gt(z)? { e.pow(q(0)) } else { z }
        }
        -2 => {
            if small(p[0]) || small(p[1]) || !r.ge(z)? {
                return Some(z);
            }
            let v = r.pow(x(1.0).div(q(0))).sub(q(2)).div(q(1));
            if v.v.is_nan() {
                v
            } else if v.v < 0.0 {
                // clamped to zero
                V { v: 0.0, e: if v.v > -SLACK * v.e { v.e } else { 0.0 } }
            } else {
                v
            }
        }
        3 => {
            if small(p[1]) {
                return Some(z);
            }
            let d = q(2).neg().div(q(1));
            let d = if d.v < 0.0 { z } else { d };
            if r.ge(d)? {
                let e = q(1).mul(r).add(q(2));
                if e.v == 0.0 {
                    return None; // documented and implemented differently in lcms2
                }
                if e.gt(z)? { e.pow(q(0)).add(q(3)) } else { z }
            } else {
                q(3)
            }
        }
        -3 => {
            if small(p[1]) {
                return Some(z);
            }
            if r.ge(q(3))? {
                let e = r.sub(q(3));
                if e.v == 0.0 {
                    return None;
                }
                if e.gt(z)? { e.pow(x(1.0).div(q(0))).sub(q(2)).div(q(1)) } else { z }
            } else {
                q(2).neg().div(q(1))
            }
        }
        4 => {
            if r.ge(q(4))? {
                let e = q(1).mul(r).add(q(2));
                if e.gt(z)? { e.pow(q(0)) } else { z }
            } else {
                r.mul(q(3))
            }
        }
        -4 => {
            let e = q(1).mul(q(4)).add(q(2));
            let d = if e.ge(z)? { e.pow(q(0)) } else { z };
            if r.ge(d)? {
                if small(p[0]) || small(p[1]) { z } else { r.pow(x(1.0).div(q(0))).sub(q(2)).div(q(1)) }
            } else if small(p[3]) {
                z
            } else {
                r.div(q(3))
            }
        }
        5 => {
            if r.ge(q(4))? {
                let e = q(1).mul(r).add(q(2));
                if e.gt(z)? { e.pow(q(0)).add(q(5)) } else { q(5) }
            } else {
                r.mul(q(3)).add(q(6))
            }
        }
        -5 => {
            if r.ge(q(3).mul(q(4)).add(q(6)))? {
                let e = r.sub(q(5));
                if !e.ge(z)? || small(p[0]) || small(p[1]) { z } else { e.pow(x(1.0).div(q(0))).sub(q(2)).div(q(1)) }
            } else if small(p[3]) {
                z
            } else {
                r.sub(q(6)).div(q(3))
            }
        }
        6 => {
            let e = q(1).mul(r).add(q(2));
            if e.ge(z)? { e.pow(q(0)).add(q(3)) } else { q(3) }
        }
        -6 => {
            if small(p[1]) {
                return Some(z);
            }
            let e = r.sub(q(3));
            if e.ge(z)? { e.pow(x(1.0).div(q(0))).sub(q(2)).div(q(1)) } else { z }
        }
        7 => {
            let e = q(2).mul(r.pow(q(0))).add(q(3));
            if e.v.is_nan() {
                return Some(e);
            }
            if e.gt(z)? { q(1).mul(e.log10()).add(q(4)) } else { q(4) }
        }
        -7 => {
            if small(p[0]) || small(p[1]) || small(p[2]) {
                return Some(z);
            }
            let e = x(10.0).pow(r.sub(q(4)).div(q(1))).sub(q(3)).div(q(2));
            if e.v.is_nan() {
                return Some(e);
            }
            if !e.ge(z)? {
                return None; // no point of the curve is reversed here; lcms2 has no guard
            }
            e.pow(x(1.0).div(q(0)))
        }
        8 => q(0).mul(q(1).pow(q(2).mul(r).add(q(3)))).add(q(4)),
        -8 => {
            let d = r.sub(q(4));
            if !d.ge(z)? || small(p[0]) || small(p[2]) {
                return Some(z);
            }
            d.div(q(0)).ln().div(q(1).ln()).sub(q(3)).div(q(2))
        }
        108 => {
            if small(p[0]) {
                return Some(z);
            }
            let g = x(1.0).div(q(0));
            x(1.0).sub(x(1.0).sub(r).pow(g)).pow(g)
        }
        -108 => x(1.0).sub(x(1.0).sub(r.pow(q(0))).pow(q(0))),
        109 => {
            let c = x(0.5).div(sigmoid_base(q(0), x(1.0)));
            c.mul(sigmoid_base(q(0), x(2.0).mul(r).sub(x(1.0)))).add(x(0.5))
        }
        -109 => {
            let c = x(0.5).div(sigmoid_base(q(0), x(1.0)));
            let t = r.sub(x(0.5)).div(c);
            let b = x(1.0).div(t.add(x(0.5))).sub(x(1.0)).ln().neg().div(q(0));
            b.add(x(1.0)).div(x(2.0))
        }
        _ => z,
    })
}

fn params(rng: &mut Rng, d: &crate::dict::Dict, n: usize) -> Vec<f64> {
    let style = rng.below(6);
    (0..n)
        .map(|i| match style {
            // what real curves look like
            0 => match i {
                0 => rng.uni(0.3, 4.0),
                _ => rng.uni(-1.0, 2.0),
            },
            // dyadic numbers: sums and products are exact, so breakpoints are hit exactly
            1 => rng.range(-16, 16) as f64 / 8.0,
            2 => rng.range(0, 8) as f64 / 4.0,
            3 => {
                if rng.chance(1, 3) {
                    d.f64(rng)
                } else {
                    rng.uni(-2.0, 2.0)
                }
            }
            4 => *rng.pick(&[0.0, 1.0, -1.0, 2.0, 0.5, TOL, -TOL, 0.99 * TOL, -0.99 * TOL, 1.01 * TOL, 1.0 - 0.9 * TOL, 1.0 + 0.9 * TOL, 1.0 + 1.1 * TOL, 2.4, 1.0 / 2.4, 10.0, -0.0, 0.04045, 12.92]),
            _ => d.f64(rng),
        })
        .collect()
}
/// Inputs that matter for these parameters: breakpoints, their neighbours and ordinary ones.
fn inputs(rng: &mut Rng, d: &crate::dict::Dict, t: i32, p: &[f64]) -> f64 {
    let near = |rng: &mut Rng, v: f64| match rng.below(6) {
        0 | 1 => v,
        2 => f64::from_bits(v.to_bits().wrapping_add(1)),
        3 => f64::from_bits(v.to_bits().wrapping_sub(1)),
        4 => v + rng.uni(-1e-3, 1e-3),
        _ => v + rng.uni(-0.5, 0.5),
    };
    match rng.below(8) {
        0 | 1 => rng.uni(0.0, 1.0),
        2 => rng.uni(-1.0, 2.0),
        3 => rng.range(-16, 24) as f64 / 8.0,
        4 | 5 => {
            let g = |i: usize| p.get(i).copied().unwrap_or(0.0);
            let b = match t {
                2 | 3 => -g(2) / g(1),
                -3 => g(3),
                4 | 5 => g(4),
                -4 => (g(1) * g(4) + g(2)).powf(g(0)),
                -5 => g(3) * g(4) + g(6),
                6 => -g(2) / g(1),
                -6 => g(3),
                7 => (-g(3) / g(2)).powf(1.0 / g(0)),
                -7 => g(4),
                -8 => g(4),
                _ => *rng.pick(&[0.0, 1.0, 0.5]),
            };
            near(rng, b)
        }
        6 => *rng.pick(&[0.0, 1.0, 0.5, -0.0, -1.0, 1e-9, 1.0 - 1e-9, 1.0 + 1e-9, 1e22, -1e22, f64::MIN_POSITIVE]),
        _ => d.f64(rng),
    }
}
fn case_bytes(t: i32, p: &[f64], r: f64) -> Vec<u8> {
    let mut v = t.to_le_bytes().to_vec();
    for f in p.iter().chain([&r]) {
        v.extend_from_slice(&f.to_bits().to_le_bytes());
    }
    v
}
fn close(got: f64, want: V) -> Option<bool> {
    if want.v.is_nan() || want.e.is_nan() || want.e.is_infinite() {
        return None;
    }
    if want.v.is_infinite() {
        return Some(got == want.v || (got.abs() > 1e305 && got.signum() == want.v.signum()));
    }
    if got.is_infinite() && want.v.abs() + SLACK * want.e > 1e305 {
        return Some(got.signum() == want.v.signum());
    }
    let d = (got - want.v).abs();
    Some(got == want.v || d <= SLACK * want.e + 1e-300)
}

/// One comparison of the model with the C library's evaluator.
#[cfg(feature = "clib")]
pub fn against_c(rec: &mut Rec, rng: &mut Rng, o: &Opts, c: impl Fn(i32, &[f64], f64) -> f64) {
    let (id, np) = *rng.pick(&DECLARED);
    let t = if rng.chance(1, 2) { id } else { -id };
    let p = params(rng, &o.dict, np as usize);
    let r = inputs(rng, &o.dict, t, &p);
    rec.case(hash(&case_bytes(t, &p, r)));
    let (got, ours) = (c(t, &p, r), default_eval(t, &p, r));
    // lcms2 writes its infinity as a single-precision literal
    let got = if got == f64::from(1e22f32) { PLUS_INF } else { got };
    let same = got == ours || got.is_nan() && ours.is_nan();
    let det = || format!("type {t}, parameters {p:?}, input {r:?}: C gives {got:?}, the library {ours:?}, the formula {:?}", formula(t, &p, x(r)));
    if p.iter().any(|v| !v.is_finite()) || !r.is_finite() {
        return rec.count("non-finite", 1);
    }
    match formula(t, &p, x(r)) {
        None => rec.count(&format!("at a breakpoint, {}", if same { "C and the library agree" } else { "C and the library differ" }), 1),
        Some(w) => match close(got, w) {
            None => rec.count(&format!("undefined, {}", if same { "C and the library agree" } else { "C and the library differ" }), 1),
            Some(true) => rec.count("compared with C", 1),
            Some(false) => rec.violate(format!("value:{t}"), format!("type {t}: the model is not the C library's"), det()),
        },
    }
}
#[cfg(feature = "clib")]
fn default_eval(t: i32, p: &[f64], r: f64) -> f64 {
    (Set::default().evaluator)(t, p, r)
}

pub fn c21(o: &Opts, rec: &mut Rec) {
    par(o, rec, 0x2101, o.n(400, 24_000_000, 900_000_000), |rec, rng, _f, n| {
        let f = Set::default().evaluator;
        for _ in 0..n {
            let (id, np) = *rng.pick(&DECLARED);
            let t = if rng.chance(1, 2) { id } else { -id };
            let p = params(rng, &o.dict, np as usize);
            let r = inputs(rng, &o.dict, t, &p);
            let b = case_bytes(t, &p, r);
            enter(rec.worker, "evaluating a curve", &b);
            rec.case(hash(&b));
            let det = || format!("type {t}, parameters {p:?}, input {r:?}");
            let Some(got) = rec.lib("evaluator", det, || f(t, &p, r)) else { continue };
            if p.iter().any(|v| !v.is_finite()) || !r.is_finite() {
                rec.count("non-finite", 1);
                continue;
            }
            match formula(t, &p, x(r)) {
                None => rec.count("at a breakpoint, up to rounding", 1),
                Some(w) => match close(got, w) {
                    None => rec.count("undefined or ill-conditioned", 1),
                    Some(true) => {
                        rec.count(if t < 0 { "compared, reversed" } else { "compared, forward" }, 1);
                        rec.sample(|| format!("{} -> {got:?} (formula {:?} +- {:.1e})", det(), w.v, w.e));
                    }
                    Some(false) => rec.violate(format!("value:{t}"), format!("type {t} with parameters {p:?} at {r:?} gives {got:?}, the formula {:?} (error bound {:.1e})", w.v, w.e), det()),
                },
            }
            if enough() {
                return;
            }
        }
    });
    // unknown types: zero, whatever the parameters
    let known: Vec<i32> = DECLARED.iter().flat_map(|d| [d.0, -d.0]).collect();
    let step: u64 = o.step(1 << 26, 1021, 131);
    par(o, rec, 0x2102, 4096, |rec, _rng, first, n| {
        let f = Set::default().evaluator;
        let mut k = first << 20;
        k += (step - k % step) % step;
        let mut done = 0;
        enter(rec.worker, "unknown curve types from", &(k as u32).to_le_bytes());
        let r = guarded(|| {
            while k < (first + n) << 20 {
                let t = k as u32 as i32;
                if !(t.unsigned_abs() < 256 && known.contains(&t)) {
                    let v = f(std::hint::black_box(t), &[], 0.75);
                    if v != 0.0 {
                        return Some((t, v));
                    }
                }
                k += step;
                done += 1;
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some((t, v))) => rec.violate("unknown", format!("unknown curve type {t} gives {v:?}, not zero"), format!("{t}")),
            Err(m) => rec.violate("panic:unknown", format!("evaluating unknown curve type {} without parameters panics: {m}", k as u32 as i32), format!("{}", k as u32 as i32)),
        }
        rec.enumerate(done);
        rec.count("unknown types", done);
    });
    // and with parameters
    par(o, rec, 0x2103, o.n(100, 200_000, 4_000_000), |rec, rng, _f, n| {
        let f = Set::default().evaluator;
        for _ in 0..n {
            let t = match rng.below(3) {
                0 => rng.range(-130, 130) as i32,
                1 => o.dict.u32(rng) as i32,
                _ => *rng.pick(&[0, 9, -9, 107, 110, -107, -110, i32::MIN, i32::MAX, 1 << 8 | 1, 1 << 16 | 1]),
            };
            if DECLARED.iter().any(|d| d.0 == t || -d.0 == t) {
                continue;
            }
            let np = rng.below(11) as usize;
            let p = params(rng, &o.dict, np);
            let r = inputs(rng, &o.dict, 1, &p);
            rec.case(hash(&case_bytes(t, &p, r)));
            let det = || format!("type {t}, parameters {p:?}, input {r:?}");
            enter(rec.worker, "evaluating an unknown type", &case_bytes(t, &p, r));
            if let Some(v) = rec.lib("evaluator", det, || f(t, &p, r)) {
                if v != 0.0 {
                    rec.violate("unknown", format!("unknown curve type {t} gives {v:?}, not zero"), det());
                }
            }
        }
    });
}

/// Regular parameters of a type, and an input in the part of the curve that can be undone.
fn regular(rng: &mut Rng, id: i32) -> Option<(Vec<f64>, f64)> {
    let dyadic = rng.chance(1, 4);
    let pos = |rng: &mut Rng, lo: f64, hi: f64| if dyadic { (rng.uni(lo.max(0.25), hi) * 8.0).ceil() / 8.0 } else { (rng.uni(lo.ln(), hi.ln())).exp() };
    let any = |rng: &mut Rng, m: f64| if dyadic { rng.range(-8, 8) as f64 / 8.0 * m } else { rng.uni(-m, m) };
    let sign = |rng: &mut Rng| if rng.chance(1, 3) { -1.0 } else { 1.0 };
    let mut r = match rng.below(5) {
        0 => rng.below(9) as f64 / 8.0,
        1 => rng.uni(0.0, 0.1),
        2 => rng.uni(0.0, 4.0),
        _ => rng.unit(),
    };
    let p = match id {
        1 => vec![pos(rng, 0.05, 12.0) * sign(rng)],
        2 => vec![pos(rng, 0.1, 8.0), pos(rng, 2e-4, 5.0), any(rng, 1.0)],
        3 => vec![pos(rng, 0.1, 8.0), pos(rng, 2e-4, 5.0), any(rng, 1.0), any(rng, 2.0)],
        4 | 5 => {
            let (g, a, b, d) = (pos(rng, 0.1, 8.0), pos(rng, 2e-4, 5.0), any(rng, 1.0), rng.range(0, 16) as f64 / 16.0);
            let d = if dyadic || rng.chance(1, 3) { d } else { rng.unit() };
            let e = a * d + b;
            if e <= 0.0 {
                return None;
            }
            let g = if dyadic && rng.chance(1, 2) { *rng.pick(&[1.0, 2.0, 3.0, 4.0, 0.5]) } else { g };
            let top = e.powf(g);
            let mut p = vec![g, a, b, pos(rng, 2e-4, 20.0), d];
            if dyadic {
                // an exact breakpoint, with a step or without
                while p[3] * d > top {
                    p[3] /= 2.0;
                }
                if rng.chance(1, 3) && d > 0.0 && top / d * d == top {
                    p[3] = top / d;
                }
            }
            if p[3] < 2e-4 {
                return None;
            }
            if id == 4 {
                // the linear segment ends at or below the start of the other
                if !dyadic && p[3] * d > top * 0.999_999 {
                    p[3] = if rng.chance(1, 3) && d > 0.0 { top / d * 0.999_999 } else { p[3].min(top / d.max(1e-3)) * rng.uni(0.2, 0.999) };
                    if p[3] < 2e-4 {
                        return None;
                    }
                }
            } else {
                let e5 = any(rng, 1.0);
                let gap = if dyadic && rng.chance(1, 2) { *rng.pick(&[0.0, 0.125]) } else if rng.chance(1, 2) { 1e-9 } else { rng.uni(0.0, 0.5) };
                p.push(e5);
                p.push(top + e5 - p[3] * d - gap * (1.0 + top.abs() + p[3] * d));
            }
            if rng.chance(1, 3) {
                r = d;
            }
            p
        }
        6 => vec![pos(rng, 0.1, 8.0) * sign(rng), pos(rng, 2e-4, 5.0) * sign(rng), any(rng, 2.0), any(rng, 2.0)],
        7 => vec![pos(rng, 0.1, 6.0) * sign(rng), pos(rng, 2e-4, 5.0) * sign(rng), pos(rng, 2e-4, 5.0) * sign(rng), any(rng, 2.0), any(rng, 2.0)],
        8 => {
            let b = pos(rng, 0.05, 12.0);
            if (b - 1.0).abs() < 1e-3 {
                return None;
            }
            vec![pos(rng, 2e-4, 5.0), b, pos(rng, 2e-4, 5.0) * sign(rng), any(rng, 2.0), any(rng, 2.0)]
        }
        108 => {
            r = r.min(1.0);
            vec![pos(rng, 0.1, 8.0)]
        }
        _ => {
            r = r.min(1.0);
            vec![pos(rng, 1e-3, 25.0) * sign(rng)]
        }
    };
    // only where the curve is not constant
    let e = |i: usize, j: usize| p[i] * r + p[j];
    let ok = match id {
        2 | 3 | 6 => e(1, 2) > 0.0,
        4 | 5 => r < p[4] || e(1, 2) > 0.0,
        7 => p[2] * r.powf(p[0]) + p[3] > 0.0,
        _ => true,
    };
    ok.then_some((p, r))
}
pub fn c22(o: &Opts, rec: &mut Rec) {
    par(o, rec, 0x2201, o.n(400, 16_000_000, 600_000_000), |rec, rng, _f, n| {
        let f = Set::default().evaluator;
        for _ in 0..n {
            let id = rng.pick(&DECLARED).0;
            let Some((p, r)) = regular(rng, id) else { continue };
            let b = case_bytes(id, &p, r);
            enter(rec.worker, "curve there and back", &b);
            rec.case(hash(&b));
            let det = || format!("type {id}, parameters {p:?}, input {r:?}");
            let Some(y) = rec.lib("evaluator", det, || f(id, &p, r)) else { continue };
            let Some(back) = rec.lib("evaluator", det, || f(-id, &p, y)) else { continue };
            // how much of the input survives the rounding of the result in between
            let Some(m) = formula(id, &p, x(r)).filter(|m| m.v.is_finite()).and_then(|m| {
                let y = if m.e == 0.0 && m.v == y {
                    rec.count("results without any rounding", 1);
                    m
                } else {
                    V { v: m.v, e: m.e.max(m.v.abs() * EPS * 0.5) }
                };
                formula(-id, &p, y)
            }) else {
                rec.count("at a breakpoint, up to rounding", 1);
                continue;
            };
            if !m.e.is_finite() || m.e * SLACK > 1e-2 * (1.0 + r.abs()) {
                rec.count("ill-conditioned", 1);
                continue;
            }
            rec.count(&format!("type {id} undone"), 1);
            if !((back - r).abs() <= SLACK * m.e + 1e-12 * r.abs() + 1e-300) {
                rec.violate(format!("inverse:{id}"), format!("type {id} with parameters {p:?} maps {r:?} to {y:?}, and type {} maps that to {back:?} (error bound {:.1e})", -id, m.e), det());
            }
            rec.sample(|| format!("{} -> {y:?} -> {back:?}", det()));
            if enough() {
                return;
            }
        }
    });
    // fixed points
    par(o, rec, 0x2202, o.n(50, 400_000, 10_000_000), |rec, rng, _f, n| {
        let f = Set::default().evaluator;
        for _ in 0..n {
            let s = rng.chance(1, 2);
            let (id, p) = if s { (108, (rng.uni(0.1f64.ln(), 10f64.ln())).exp()) } else { (109, (rng.uni(1e-3f64.ln(), 30f64.ln())).exp() * if rng.chance(1, 3) { -1.0 } else { 1.0 }) };
            let pts: &[f64] = if s { &[0.0, 1.0] } else { &[0.0, 0.5, 1.0] };
            for &v in pts {
                for t in [id, -id] {
                    rec.case(hash(&case_bytes(t, &[p], v)));
                    rec.count("fixed points", 1);
                    let det = || format!("type {t}, parameter {p:?}, input {v:?}");
                    enter(rec.worker, "fixed point", &case_bytes(t, &[p], v));
                    let Some(got) = rec.lib("evaluator", det, || f(t, &[p], v)) else { continue };
                    // the inverse sigmoid is steep at the ends: its error comes from the formula's bound
                    let tol = match formula(t, &[p], x(v)) {
                        Some(m) if m.e.is_finite() => SLACK * m.e + 1e-9,
                        _ => continue,
                    };
                    if tol < 0.05 && !((got - v).abs() <= tol) {
                        rec.violate(format!("fixed:{t}"), format!("type {t} with parameter {p:?} maps {v} to {got:?}"), det());
                    }
                }
            }
        }
    });
    for (id, _) in DECLARED {
        if !rec.counters.contains_key(&format!("type {id} undone")) && o.tier != Tier::Mini && !enough() {
            rec.violate("observed", format!("no case of type {id} was observed"), String::new());
        }
    }
}

fn model_find(ids: &[i32], t: i32) -> Option<usize> {
    let a = i64::from(t).abs();
    ids.iter().position(|i| i64::from(*i) == a)
}
pub fn c23(o: &Opts, rec: &mut Rec) {
    let def = Set::default();
    let got: Vec<(i32, u32)> = def.curves.iter().map(|c| (c.function_curve_id, c.parameter_count)).collect();
    rec.case(23);
    let (mut a, mut b) = (got.clone(), DECLARED.to_vec());
    a.sort();
    b.sort();
    if a != b {
        rec.violate("declared", format!("the default set declares {got:?}, lcms2's declares {DECLARED:?}"), String::new());
    }
    let ids: Vec<i32> = got.iter().map(|c| c.0).collect();
    let step: u64 = o.step(1 << 26, 1021, 131);
    par(o, rec, 0x2301, 4096, |rec, _rng, first, n| {
        let def = Set::default();
        let mut k = first << 20;
        k += (step - k % step) % step;
        let mut done = 0;
        enter(rec.worker, "lookup of types from", &(k as u32).to_le_bytes());
        let r = guarded(|| {
            while k < (first + n) << 20 {
                let t = k as u32 as i32;
                let want = if t.unsigned_abs() < 1 << 16 { model_find(&ids, t) } else { None };
                let got = def.is_in_set(std::hint::black_box(t));
                if got != want {
                    return Some((t, got, want));
                }
                k += step;
                done += 1;
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some((t, got, want))) => rec.violate("lookup", format!("type {t} is found at {got:?} of the default set, expected {want:?}"), format!("{t}")),
            Err(m) => rec.violate("panic:lookup", format!("looking up type {} panics: {m}", k as u32 as i32), format!("{}", k as u32 as i32)),
        }
        rec.enumerate(done);
        rec.count("types looked up in the default set", done);
    });
    par(o, rec, 0x2302, o.n(100, 1_000_000, 30_000_000), |rec, rng, _f, n| {
        let one = Set::default();
        for _ in 0..n {
            let len = match rng.below(if cfg!(miri) { 6 } else { 60 }) {
                0 => 0,
                1 => 1,
                6 => rng.below(300),
                7 => o.dict.size(rng, 2_000) as u64,
                k if k % 6 == 2 => rng.below(40),
                _ => rng.below(8),
            };
            let mut s = one.clone();
            let c0 = one.curves[0].clone();
            s.curves.clear();
            let small = rng.chance(1, 2);
            for _ in 0..len {
                let mut c = c0.clone();
                c.function_curve_id = if small { rng.below(6) as i32 } else { match rng.below(4) {
                    0 => *rng.pick(&[0, 1, i32::MAX, i32::MAX - 1, 108, 109, 255, 256, 257, 65536, 65537]),
                    1 => rng.below(130) as i32,
                    _ => (rng.u32() >> 1) as i32,
                } };
                c.parameter_count = rng.below(12) as u32;
                s.curves.push(c);
            }
            let ids: Vec<i32> = s.curves.iter().map(|c| c.function_curve_id).collect();
            for _ in 0..6 {
                let mut t = if !ids.is_empty() && rng.chance(2, 3) { *rng.pick(&ids) } else { *rng.pick(&[0, 1, -1, i32::MIN, i32::MAX, -i32::MAX, 5, i32::MIN + 1]) };
                if rng.chance(1, 2) {
                    t = t.wrapping_neg();
                }
                if rng.chance(1, 8) {
                    t ^= 1 << rng.below(32);
                }
                rec.case(hash(format!("{ids:?}{t}").as_bytes()));
                let det = || format!("types {ids:?}, looking up {t}");
                enter(rec.worker, "lookup", &t.to_le_bytes());
                let want = model_find(&ids, t);
                if let Some(got) = rec.lib("is_in_set", det, || s.is_in_set(t)) {
                    rec.count(if want.is_some() { "found" } else { "not found" }, 1);
                    if got != want {
                        rec.violate("lookup", format!("{}: {got:?}, expected {want:?}", det()), det());
                    }
                }
                rec.sample(|| format!("{} -> {want:?}", det()));
            }
            if enough() {
                return;
            }
        }
    });
    // sets larger than any small index type
    if !cfg!(miri) {
        let c0 = Set::default().curves[0].clone();
        let mut rng = Rng::new(o.seed, 0x2305);
        for k in 0..o.n(1, 12, 100) {
            let len = *rng.pick(&[65_535u32, 65_536, 65_537, 70_000, 131_073, 1_000_000, (1 << 20) + 1]);
            let odd = rng.u32() | 1;
            let mut s = Set::default();
            // all different: multiples of an odd number, without the sign
            s.curves = (0..len).map(|i| { let mut c = c0.clone(); c.function_curve_id = (i.wrapping_mul(odd) & 0x7fff_ffff) as i32; c }).collect();
            for j in 0..40u32 {
                let at = match j { 0..=3 => len - 1 - j, 4 => 65_535.min(len - 1), 5 => 65_536.min(len - 1), 6 => 32_768, 7 => 0, 8 => 256, _ => rng.below(len.into()) as u32 };
                let t = s.curves[at as usize].function_curve_id;
                let t = if rng.chance(1, 2) { -t } else { t };
                rec.case(hash(format!("large set {k} {len} {odd} {at} {t}").as_bytes()));
                let det = || format!("a set of {len} curves, looking up {t}, which number {at} has");
                enter(0, "lookup in a large set", &t.to_le_bytes());
                if let Some(got) = rec.lib("is_in_set", det, || s.is_in_set(t)) {
                    rec.count("found in sets of more than 65000", u64::from(got == Some(at as usize)));
                    if got != Some(at as usize) {
                        rec.violate("large", format!("{}: {got:?}", det()), det());
                    }
                }
            }
        }
        leave(0);
    }
    // the declared number of parameters is what the evaluator uses
    par(o, rec, 0x2303, o.n(60, 2_000_000, 60_000_000), |rec, rng, _f, n| {
        let s = Set::default();
        for _ in 0..n {
            let c = rng.pick(&s.curves);
            let t = if rng.chance(1, 2) { c.function_curve_id } else { -c.function_curve_id };
            let np = c.parameter_count as usize;
            let p = params(rng, &o.dict, np);
            let r = inputs(rng, &o.dict, t, &p);
            let b = case_bytes(t, &p, r);
            rec.case(hash(&b));
            let det = || format!("type {t}, parameters {p:?}, input {r:?}");
            enter(rec.worker, "evaluating a curve", &b);
            let Some(y) = rec.lib("evaluator", det, || (s.evaluator)(t, &p, r)) else { continue };
            let mut more = p.clone();
            for _ in 0..1 + rng.below(12) {
                more.push(if rng.chance(1, 2) { f64::NAN } else { o.dict.f64(rng) });
            }
            let Some(y2) = rec.lib("evaluator", det, || (s.evaluator)(t, &more, r)) else { continue };
            rec.count("evaluated with exactly the declared parameters", 1);
            if y.to_bits() != y2.to_bits() && !(y.is_nan() && y2.is_nan()) {
                rec.violate("extra", format!("type {t} with {np} parameters {p:?} at {r:?} gives {y:?}, with further parameters {more:?} {y2:?}"), det());
            }
            if enough() {
                return;
            }
        }
    });
    // each declared parameter has an influence
    for c in &def.curves {
        for t in [c.function_curve_id, -c.function_curve_id] {
            for i in 0..c.parameter_count as usize {
                let mut rng = Rng::new(o.seed, 0x2304 + i as u64);
                let mut found = false;
                for _ in 0..20_000 {
                    let p: Vec<f64> = (0..c.parameter_count).map(|_| rng.uni(0.1, 2.0)).collect();
                    let mut q = p.clone();
                    q[i] = rng.uni(0.1, 2.0);
                    let r = rng.uni(0.0, 1.5);
                    let (Ok(a), Ok(b)) = (guarded(|| (def.evaluator)(t, &p, r)), guarded(|| (def.evaluator)(t, &q, r))) else { continue };
                    rec.case(hash(&case_bytes(t, &q, r)));
                    if (a - b).abs() > 1e-6 {
                        found = true;
                        break;
                    }
                }
                rec.count("parameters with an influence", found as u64);
                if !found {
                    rec.violate("influence", format!("parameter {i} of type {t} (declared with {}) never changes the curve", c.parameter_count), String::new());
                }
            }
        }
    }
}
