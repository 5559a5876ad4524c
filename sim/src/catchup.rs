//! C15: a node that stalls, crashes or sees its clock jump, and catches up over the missed ticks in one step.
//!
//! Oracle: the closed form of the law of motion (exact for integers, f64 with error bounds otherwise) at the tick the
//! node has reached.

use crate::elem::*;
use crate::harness::*;
use crate::polar::{max, ulp};
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::{self, SimFault, SimNum};
use mixed_num::*;

const BUDGET: u64 = 20_000_000;
const E64: f64 = f64::EPSILON;
pub const LAWS: &[&str] = &["integer power", "exponential", "power of two", "power of ten", "real power", "square root of the factor", "cube root of the factor", "hyperbolic", "rotation", "complex exponential"];
const POWI: u8 = 0;
const EXP: u8 = 1;
const EXP2: u8 = 2;
const EXP10: u8 = 3;
const POW: u8 = 4;
const SQRT: u8 = 5;
const CBRT: u8 = 6;
const HYP: u8 = 7;
const ROT: u8 = 8;

/// A number type with the laws it has.
trait Evo: Basic {
    const NLAWS: u8;
    /// The factor of d ticks (of d half or third ticks for the roots).
    fn factor(law: u8, a: Self, d: i64, way: u128) -> Self {
        let _ = law;
        if d >= 0 && way & 1 == 1 { trigonometry::powi(a, d as usize) } else { a.mixed_powi(d as i32) }
    }
    fn read(_kind: u8, x: Self) -> Self {
        x
    }
    fn whole(_up: bool, x: Self) -> Self {
        x
    }
    /// (cosh, sinh), (cos, sin) or the complex exponential of (x, y).
    fn pair(_law: u8, x: Self, y: Self, _way: u128) -> (Self, Self) {
        (x, y)
    }
}
macro_rules! only_powi { ($($t:ident)*) => { $( impl Evo for $t { const NLAWS: u8 = 1; } )* } }
only_powi!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize I8F0 I16F0 I32F0 I64F0 U8F5 U16F8 U32F16 U32F29 U64F32);
/// The argument of an exponential, exact for fixed point.
fn times<T: Elem>(r: T, d: i64) -> T {
    if T::KIND == 0 {
        return T::of(r.f() * d as f64);
    }
    match r.raw().checked_mul(d as i128).and_then(T::unraw) {
        Some(x) => x,
        None => harness_error("the argument does not fit"),
    }
}
macro_rules! with_exp { ($($t:ident)*) => { $( impl Evo for $t {
    const NLAWS: u8 = 2;
    fn factor(law: u8, a: Self, d: i64, way: u128) -> Self {
        match law {
            EXP => {
                let x = times(a, d);
                x.mixed_exp()
            }
            _ if d >= 0 && way & 1 == 1 => trigonometry::powi(a, d as usize),
            _ => a.mixed_powi(d as i32),
        }
    }
} )* } }
with_exp!(SimNum I8F3 I8F5 I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61);
macro_rules! with_all { ($($t:ident)*) => { $( impl Evo for $t {
    const NLAWS: u8 = 10;
    fn factor(law: u8, a: Self, d: i64, way: u128) -> Self {
        match law {
            EXP => times(a, d).mixed_exp(),
            EXP2 => times(a, d).mixed_exp2(),
            EXP10 => times(a, d).mixed_exp10(),
            POW => a.mixed_pow(d as $t),
            SQRT => {
                let f = a.mixed_powi(d.div_euclid(2) as i32);
                if d.rem_euclid(2) == 1 { f * a.mixed_sqrt() } else { f }
            }
            CBRT => {
                let mut f = a.mixed_powi(d.div_euclid(3) as i32);
                for _ in 0..d.rem_euclid(3) {
                    f = f * a.mixed_cbrt();
                }
                f
            }
            _ if d >= 0 && way & 1 == 1 => trigonometry::powi(a, d as usize),
            _ => a.mixed_powi(d as i32),
        }
    }
    fn read(kind: u8, x: Self) -> Self {
        match kind {
            0 => x.mixed_log(),
            1 => x.mixed_log2(),
            2 => x.mixed_log10(),
            3 => x.mixed_asinh(),
            4 => x.mixed_acosh(),
            5 => x.mixed_atanh(),
            6 => x.mixed_asin(),
            7 => x.mixed_acos(),
            8 => x.mixed_atan(),
            9 => x.mixed_tanh(),
            _ => x.mixed_tan(),
        }
    }
    fn whole(up: bool, x: Self) -> Self {
        if up { x.mixed_ceil() } else { x.mixed_floor() }
    }
    fn pair(law: u8, x: Self, y: Self, way: u128) -> (Self, Self) {
        match law {
            HYP => (y.mixed_cosh(), y.mixed_sinh()),
            ROT => {
                if way & 1 == 0 {
                    (y.mixed_cos(), y.mixed_sin())
                } else {
                    let (s, c) = y.mixed_sincos();
                    (c, s)
                }
            }
            _ => {
                let e = Cartesian::new(x, y).mixed_exp();
                (e.re, e.im)
            }
        }
    }
} )* } }
with_all!(f32 f64);

fn guarded<R>(fault: &mut u64, mut f: impl FnMut() -> R) -> Option<R> {
    let k = core::mem::take(fault);
    simnum::plan_fault(k);
    let (r, t, _) = rt::call(BUDGET, &mut f);
    simnum::plan_fault(0);
    stat(St::CALLS);
    log(t);
    match r {
        Ok(v) => Some(v),
        Err(e) if e.is::<SimFault>() => {
            stat(St::SIMFAULT);
            stat(St::RETRY);
            let (r, t, _) = rt::call(BUDGET, &mut f);
            log(t);
            r.ok()
        }
        Err(_) => {
            stat(St::PANICS);
            None
        }
    }
}

/// Largest base-2 logarithm the floats are taken to.
fn top<T: Elem>() -> f64 {
    if T::BITS == 32 { 60.0 } else { 300.0 }
}

/// What the factor of d ticks must be.
struct Want {
    f: f64,
    tol: f64,
    /// It certainly fits.
    fits: bool,
    exact: Option<i128>,
}
fn want<T: Evo>(law: u8, a: T, d: i64) -> Option<Want> {
    let af = a.f();
    let n = d.unsigned_abs() as f64;
    if T::KIND == 1 {
        // Integers: the quotient 1/a is 0 beyond one.
        let r = if !T::SIGNED && T::BITS == 128 { i128::try_from(a.en()).ok()? } else { a.raw() };
        if d < 0 && r == 0 {
            return Some(Want { f: 0.0, tol: 0.0, fits: false, exact: None });
        }
        let b = if d < 0 { 1 / r } else { r };
        let mut v: Option<i128> = Some(1);
        let mut k = d.unsigned_abs();
        let mut q = Some(b);
        while k > 0 {
            if k & 1 == 1 {
                v = v.and_then(|v| q.and_then(|q| v.checked_mul(q)));
            }
            k >>= 1;
            if k > 0 {
                q = q.and_then(|q| q.checked_mul(q));
            }
        }
        if T::BITS == 128 && !T::SIGNED && v.is_none() {
            return None;
        }
        let top = if T::BITS == 128 { i128::MAX } else { T::max_raw() };
        let v = v.filter(|v| *v >= T::min_raw() && *v <= top);
        return Some(Want { f: v.unwrap_or(0) as f64, tol: 0.0, fits: v.is_some(), exact: v });
    }
    let u = ulp::<T>();
    if T::KIND == 2 && law == POWI {
        if d < 0 && af == 0.0 {
            return Some(Want { f: 0.0, tol: 0.0, fits: false, exact: None });
        }
        let m = max::<T>();
        // A reciprocal that the type holds is exact.
        let whole = T::FRAC <= 62 && a.raw() != 0 && (1i128 << (2 * T::FRAC)) % a.raw() == 0;
        let (b, eb) = if d < 0 { (1.0 / af, if whole { 0.0 } else { u + E64 / af.abs() }) } else { (af, 0.0) };
        let (mut p, mut e) = (b, eb);
        let mut fits = d == 0 || b.abs() + eb + u < m;
        if d == 0 {
            (p, e) = (1.0, 0.0);
            fits = m > 1.0;
        }
        for _ in 1..d.unsigned_abs() {
            e = b.abs() * e + p.abs() * eb + e * eb + u + 2.0 * E64 * p.abs();
            p *= b;
            fits &= p.abs() + e + u < m;
        }
        let tol = e + E64 * p.abs() * (n + 2.0);
        return if tol.is_finite() { Some(Want { f: p, tol, fits, exact: None }) } else { None };
    }
    let eps = T::EPS;
    let (l, tol) = match law {
        POWI => (n * af.abs().log2().abs(), eps * (2.0 * n + 6.0) + E64 * n),
        POW => (n * af.abs().log2().abs(), 8.0 * eps),
        SQRT => ((n / 2.0 + 1.0) * af.abs().log2().abs(), eps * (n + 10.0) + E64 * n),
        CBRT => ((n / 3.0 + 1.0) * af.abs().log2().abs(), eps * (n + 12.0) + E64 * n),
        EXP => (n * af.abs() * 1.4427, eps * (n * af.abs() + 6.0) + 2.0 * E64 * n * af.abs()),
        EXP2 => (n * af.abs(), eps * (n * af.abs() + 8.0) + 2.0 * E64 * n * af.abs()),
        _ => (n * af.abs() * 3.33, eps * (2.4 * n * af.abs() + 12.0) + 6.0 * E64 * n * af.abs()),
    };
    if T::KIND == 2 {
        // Exponential in fixed point.
        let x = a.raw().checked_mul(d as i128).and_then(T::unraw)?.f();
        let w = x.exp();
        let tol = 30.0 * u * w.max(1.0) + 32.0 * E64 * w.max(1.0);
        return Some(Want { f: w, tol, fits: w * 1.02 + 40.0 * u + tol < max::<T>() && max::<T>() > 3.5, exact: None });
    }
    if l > top::<T>() || !l.is_finite() {
        return None;
    }
    let f = closed::<T>(law, af, d);
    Some(Want { f, tol: tol * f.abs(), fits: true, exact: None })
}
/// The factor of d ticks in f64.
fn closed<T: Elem>(law: u8, a: f64, d: i64) -> f64 {
    let t = d as f64;
    match law {
        SQRT => a.powf(t / 2.0),
        CBRT => {
            let c = a.cbrt();
            c.powi(d as i32)
        }
        EXP => (a * t).exp(),
        EXP2 => (a * t).exp2(),
        EXP10 => 10f64.powf(a * t),
        _ => {
            let m = a.abs().powf(t);
            if a < 0.0 && d & 1 != 0 { -m } else { m }
        }
    }
}

struct Node<T> {
    law: u8,
    a: T,
    s0: T,
    y: T,
    t: i64,
    err: f64,
    exact: Option<i128>,
}
impl<T: Evo> Node<T> {
    fn show(&self) -> String {
        format!("{} law of {} with parameter {:?} and initial value {:?}", LAWS[self.law as usize], T::NAME, self.a.f(), self.s0.f())
    }
    fn factor(&self, d: i64, way: u128, fault: &mut u64) -> Option<(T, Want)> {
        let Some(w) = want(self.law, self.a, d) else {
            stat(St::SKIPPED);
            return None;
        };
        let (law, a) = (self.law, self.a);
        let got = guarded(fault, || T::factor(law, a, d, way));
        stat(St::CHECKED);
        let Some(g) = got else {
            if w.fits {
                fail("unexpected-panic", &format!("{}: the factor of {d} ticks panics although it is {:?}", self.show(), w.f));
            }
            stat(St::OVERFLOW);
            return None;
        };
        log128(g.en());
        let ok = match w.exact {
            Some(e) => g.en() == T::unraw(e).map_or(e as u128, |v| v.en()),
            None if T::KIND == 1 => false,
            None => (g.f() - w.f).abs() <= w.tol,
        };
        if T::KIND == 0 && matches!(law, EXP | EXP2 | EXP10) {
            // Of the rounded argument: without the error of the product.
            let x = times(a, d).f();
            let v = match law {
                EXP => x.exp(),
                EXP2 => x.exp2(),
                _ => 10f64.powf(x),
            };
            if !((g.f() - v).abs() <= (4.0 * T::EPS + 12.0 * E64) * v) {
                fail("wrong-factor", &format!("{}: the factor of {d} ticks is {:?}, true for the exponent {x:?} is {v:?}", self.show(), g.f()));
            }
        }
        if !ok {
            fail("wrong-factor", &format!("{}: the factor of {d} ticks is {:?}, true is {:?}, allowed error {:e}", self.show(), g.f(), w.f, w.tol));
        }
        Some((g, w))
    }
    /// Applies a factor. False when the state would not fit: the caller keeps the old one.
    fn apply(&mut self, d: i64, g: T, w: &Want) -> bool {
        let (y, _, _) = rt::call(BUDGET, || self.y * g);
        let Ok(y) = y else {
            stat(St::OVERFLOW);
            return false;
        };
        if T::KIND == 1 {
            if d < 0 && !(w.exact == Some(1) || w.exact == Some(-1)) {
                return false;
            }
            self.exact = self.exact.and_then(|e| w.exact.and_then(|f| e.checked_mul(f)));
        } else {
            if !y.f().is_finite() || T::KIND == 0 && (y.f() == 0.0 || y.f().abs().log2().abs() > top::<T>() * 1.5) {
                return false;
            }
            let (yo, gf) = (self.y.f().abs(), w.f.abs());
            self.err = yo * w.tol + gf * self.err + self.err * w.tol + ulp::<T>() + (2.0 * T::EPS + 4.0 * E64) * y.f().abs();
            if self.err.is_nan() {
                self.err = f64::INFINITY;
            }
        }
        self.y = y;
        self.t += d;
        true
    }
    fn truth(&self) -> f64 {
        self.s0.f() * closed::<T>(self.law, self.a.f(), self.t)
    }
    fn check(&self) {
        stat(St::CHECKED);
        log128(self.y.en());
        if T::KIND == 1 {
            if let Some(e) = self.exact {
                if self.y.en() != T::unraw(e).map_or(e as u128, |v| v.en()) {
                    fail("wrong-state", &format!("{}: at tick {} the state is {:?}, true is {e}", self.show(), self.t, self.y.f()));
                }
            }
            return;
        }
        let w = self.truth();
        let tol = self.err + w.abs() * E64 * (8.0 + 2.0 * (self.t as f64).abs());
        if !tol.is_finite() {
            // Nothing is known of a state that has been through a far too coarse factor.
            return;
        }
        if !((self.y.f() - w).abs() <= tol) {
            fail("wrong-state", &format!("{}: at tick {} the state is {:?}, true is {w:?}, allowed error {tol:e}", self.show(), self.t, self.y.f()));
        }
    }
    fn advance(&mut self, d: i64, way: u128, fault: &mut u64) -> bool {
        if T::KIND == 2 && self.law == EXP {
            // The argument itself must fit.
            if self.a.raw().checked_mul(d as i128).and_then(T::unraw).is_none() {
                stat(St::SKIPPED);
                return false;
            }
        }
        match self.factor(d, way, fault) {
            Some((g, w)) => {
                let ok = self.apply(d, g, &w);
                self.check();
                ok
            }
            None => false,
        }
    }
    /// The logarithm of the state, by which a node without a clock finds out the time.
    fn look(&self, kind: u8) {
        if T::NLAWS < 10 {
            return;
        }
        let (y, kind) = (self.y, kind % 3);
        let w = self.truth();
        if !(w > 0.0 && self.y.f() > 0.0) || self.err > 0.1 * w {
            return;
        }
        let Some(g) = guarded(&mut 0, || T::read(kind, y)) else { fail("unexpected-panic", &format!("{}: the logarithm of {:?} panics", self.show(), y.f())) };
        let l = match kind {
            0 => w.ln(),
            1 => w.log2(),
            _ => w.log10(),
        };
        let tol = 1.5 * (2.0 * self.err / w + E64 * (8.0 + 2.0 * (self.t as f64).abs())) + 6.0 * T::EPS * (1.0 + l.abs());
        stat(St::CHECKED);
        log128(g.en());
        if !((g.f() - l).abs() <= tol) {
            fail("wrong-time", &format!("{}: the {} of the state {:?} at tick {} is {:?}, true is {l:?}, allowed error {tol:e}", self.show(), ["natural logarithm", "base-2 logarithm", "base-10 logarithm"][kind as usize], y.f(), self.t, g.f()));
        }
    }
}

fn scalar<T: Evo>(p: &Plan, law: u8) {
    let Some(c) = find(p, "law") else { return };
    let (a, s0) = (T::de(c.n(1)), T::de(c.n(2)));
    if !(a.f().is_finite() && s0.f().is_finite()) || T::KIND == 0 && s0.f() == 0.0 {
        return;
    }
    if matches!(law, POW | SQRT) && a.f() <= 0.0 || T::KIND == 0 && a.f() == 0.0 && law != EXP && law != EXP2 && law != EXP10 {
        return;
    }
    if T::KIND == 0 && s0.f().abs().log2().abs() > 40.0 {
        return;
    }
    let mut n = Node::<T> { law, a, s0, y: s0, t: 0, err: 0.0, exact: if !T::SIGNED && T::BITS == 128 { i128::try_from(s0.en()).ok() } else if T::KIND == 1 { Some(s0.raw()) } else { None } };
    let mut saved = (s0, 0i64, 0.0, n.exact);
    let mut now = 0i64;
    let mut local = 0.0f64;
    let mut fault = 0;
    for r in p {
        stat(St::STEPS);
        let d = |i: usize| (r.n(i) & 0xffff) as u16 as i16 as i64;
        match r.k {
            "tick" => {
                for _ in 0..r.n(0) % 32 {
                    if !n.advance(1, r.n(1), &mut fault) {
                        break;
                    }
                }
                now = n.t;
            }
            "stall" | "jump" => {
                stat(if r.k == "jump" { St::CLOCKJUMP } else { St::STALL });
                n.advance(d(0), r.n(1), &mut fault);
                now = n.t;
            }
            "split" => {
                stat(St::STALL);
                if n.advance(d(0), r.n(2), &mut fault) {
                    n.advance(d(1), r.n(2) >> 1, &mut fault);
                }
                now = n.t;
            }
            "clock" => {
                // The local clock runs in quarters of a tick and is skewed.
                local += d(0) as f64 / 4.0;
                stat(St::CLOCKJUMP);
                let (up, x) = (r.n(1) & 1 == 1, T::of(local));
                if T::NLAWS < 10 || x.f() != local || local.abs() > 4000.0 {
                    local = 0.0;
                    continue;
                }
                let Some(k) = guarded(&mut 0, || T::whole(up, x)) else { fail("unexpected-panic", &format!("{}: whole ticks of {local}", T::NAME)) };
                let w = if up { local.ceil() } else { local.floor() };
                stat(St::CHECKED);
                if k.f() != w {
                    fail("wrong-ticks", &format!("{}: {} of the local time {local:?} is {:?}", T::NAME, if up { "mixed_ceil" } else { "mixed_floor" }, k.f()));
                }
                if n.advance(w as i64, r.n(1) >> 1, &mut fault) {
                    local -= w;
                }
                now = n.t;
            }
            "save" => saved = (n.y, n.t, n.err, n.exact),
            "crash" => {
                // Back from the checkpoint, then over the time since.
                stat(St::TASKCRASH);
                stat(St::RESTORE);
                (n.y, n.t, n.err, n.exact) = saved;
                let back = now + d(0).rem_euclid(64);
                if !n.advance(back - n.t, r.n(1), &mut fault) {
                    now = n.t;
                }
                now = n.t.max(now.min(n.t));
            }
            "flip" => {
                // A corrupted state is computed anew from the beginning.
                stat(St::BITFLIP);
                let t = n.t;
                (n.y, n.t, n.err) = (s0, 0, 0.0);
                n.exact = if T::KIND == 1 { if !T::SIGNED && T::BITS == 128 { i128::try_from(s0.en()).ok() } else { Some(s0.raw()) } } else { None };
                n.advance(t, r.n(0), &mut fault);
                now = n.t;
            }
            "look" => n.look(r.n(0) as u8),
            "fault" => fault = r.n(0) as u64 % 64,
            _ => {}
        }
        state(mix(n.y.en() as u64 ^ (T::BITS as u64) << 48 ^ (law as u64) << 56));
    }
    stat(St::SETTLED);
}

/// Two-component laws, floats only.
fn pair<T: Evo>(p: &Plan, law: u8) {
    let Some(c) = find(p, "law") else { return };
    let (a, b) = (T::de(c.n(1)), T::de(c.n(2)));
    if !(a.f().is_finite() && b.f().is_finite()) {
        return;
    }
    let (mut s, mut t, mut err) = ((T::of(1.0), T::of(0.0)), 0i64, 0.0f64);
    let mut saved = (s, t, err);
    let eps = T::EPS;
    let rate = |t: i64| if law > ROT { (a.f() * t as f64, b.f() * t as f64) } else { (0.0, b.f() * t as f64) };
    let truth = |x: f64, y: f64| match law {
        HYP => (y.cosh(), y.sinh()),
        ROT => (y.cos(), y.sin()),
        _ => (x.exp() * y.cos(), x.exp() * y.sin()),
    };
    let show = || format!("{} law of {} with rate ({:?}, {:?})", LAWS[law as usize], T::NAME, a.f(), b.f());
    let ok = |x: f64, y: f64| if law == HYP { y.abs() * 1.4427 < top::<T>() } else { x.abs() * 1.4427 < top::<T>() && y.abs() < 1e4 };
    let mut step = |s: &mut (T, T), t: &mut i64, err: &mut f64, d: i64, way: u128| -> bool {
        let (x, y) = (times(a, if law > ROT { d } else { 0 }), times(b, d));
        let n = rate(*t + d);
        if !ok(x.f(), y.f()) || !ok(n.0, n.1) || d.abs() > 5000 {
            stat(St::SKIPPED);
            return false;
        }
        let Some((fc, fs)) = guarded(&mut 0, || T::pair(law, x, y, way)) else { fail("unexpected-panic", &format!("{}: {d} ticks panic", show())) };
        let w = truth(x.f(), y.f());
        let size = if law == HYP { w.0 } else { x.f().exp().max(0.0) };
        // The arguments are compared as they are.
        let tol = 6.0 * eps * size;
        stat(St::CHECKED);
        log128(fc.en());
        log128(fs.en());
        let tols = if law == HYP { 6.0 * eps * w.1.abs() + 1e-300 } else { tol };
        if !((fc.f() - w.0).abs() <= tol && (fs.f() - w.1).abs() <= tols) {
            fail("wrong-factor", &format!("{}: the factor of {d} ticks is ({:?}, {:?}), true is {w:?}, allowed error {tol:e}", show(), fc.f(), fs.f()));
        }
        // Of the rounded rather than the exact argument.
        let slack = tol + size * (eps + E64) * (x.f().abs() + y.f().abs());
        let sign = if law == HYP { 1.0 } else { -1.0 };
        let m = T::of(sign);
        let (c0, s0) = *s;
        let (old, big) = (c0.f().abs() + s0.f().abs(), w.0.abs() + w.1.abs());
        if (old * big).log2() >= top::<T>() {
            // The products overflow before they cancel.
            stat(St::SKIPPED);
            return false;
        }
        let (q, _, _) = rt::call(BUDGET, || (c0 * fc + m * s0 * fs, s0 * fc + c0 * fs));
        let Ok(q) = q else { harness_error("float arithmetic panics") };
        *err = *err * (big + 2.0 * slack) + old * slack * 2.0 + 4.0 * eps * old * big;
        *s = q;
        *t += d;
        let r = rate(*t);
        let v = truth(r.0, r.1);
        let vs = if law == HYP { v.0 } else { r.0.exp() };
        let e = *err + vs * E64 * (4.0 + 2.0 * (r.0.abs() + r.1.abs()));
        stat(St::CHECKED);
        log128(q.0.en());
        log128(q.1.en());
        if !((q.0.f() - v.0).abs() <= e && (q.1.f() - v.1).abs() <= e) {
            fail("wrong-state", &format!("{}: at tick {} the state is ({:?}, {:?}), true is {v:?}, allowed error {e:e}", show(), *t, q.0.f(), q.1.f()));
        }
        true
    };
    for r in p {
        stat(St::STEPS);
        let d = |i: usize| (r.n(i) & 0xffff) as u16 as i16 as i64;
        match r.k {
            "tick" => {
                for _ in 0..r.n(0) % 32 {
                    step(&mut s, &mut t, &mut err, 1, r.n(1));
                }
            }
            "stall" | "jump" | "clock" => {
                stat(if r.k == "stall" { St::STALL } else { St::CLOCKJUMP });
                step(&mut s, &mut t, &mut err, d(0), r.n(1));
            }
            "split" => {
                stat(St::STALL);
                step(&mut s, &mut t, &mut err, d(0), r.n(2));
                step(&mut s, &mut t, &mut err, d(1), r.n(2) >> 1);
            }
            "save" => saved = (s, t, err),
            "crash" => {
                stat(St::TASKCRASH);
                stat(St::RESTORE);
                let now = t;
                (s, t, err) = saved;
                step(&mut s, &mut t, &mut err, now + d(0).rem_euclid(64) - saved.1, r.n(1));
            }
            "flip" => {
                stat(St::BITFLIP);
                let now = t;
                (s, t, err) = ((T::of(1.0), T::of(0.0)), 0, 0.0);
                step(&mut s, &mut t, &mut err, now, r.n(0));
            }
            "look" => {
                // The time read off the state.
                let (x, y) = rate(t);
                let (cf, sf) = (s.0.f(), s.1.f());
                let kind = r.n(0) as u8 % 4;
                let size = x.exp();
                // Below the normal numbers the resolution is absolute.
                let tiny = if eps > 1e-10 { 1e-44 } else { 1e-300 };
                let rel = err / size + E64 * (8.0 + 2.0 * (x.abs() + y.abs()));
                let (name, k, arg, want, tol) = match (law, kind) {
                    (HYP, 0) => ("mixed_asinh", 3, s.1, sf.asinh(), 8.0 * eps * sf.asinh().abs() + tiny),
                    (HYP, 1) if cf >= 1.0 => ("mixed_acosh", 4, s.0, cf.acosh(), 8.0 * eps * (1.0 + cf.acosh())),
                    (HYP, 2) => {
                        let q = T::of(sf / cf);
                        if !(q.f().abs() <= 0.999) {
                            continue;
                        }
                        ("mixed_atanh", 5, q, q.f().abs().atanh() * q.f().signum(), 8.0 * eps * q.f().abs().atanh() + tiny)
                    }
                    (HYP, _) => ("mixed_tanh", 9, T::of(y), T::of(y).f().tanh(), 6.0 * eps * T::of(y).f().tanh().abs() + tiny),
                    (_, 0) if size > 0.0 => {
                        let q = T::of((sf / size).clamp(-1.0, 1.0));
                        ("mixed_asin", 6, q, q.f().asin(), 8.0 * eps * q.f().asin().abs() + tiny)
                    }
                    (_, 1) if size > 0.0 => {
                        let q = T::of((cf / size).clamp(-1.0, 1.0));
                        ("mixed_acos", 7, q, q.f().acos(), 8.0 * eps * q.f().acos().abs() + tiny)
                    }
                    (_, 2) => {
                        let q = T::of(sf / cf);
                        if !q.f().is_finite() {
                            continue;
                        }
                        ("mixed_atan", 8, q, q.f().atan(), 6.0 * eps * q.f().atan().abs() + tiny)
                    }
                    (_, 3) => {
                        let q = T::of(y);
                        let w = q.f().tan();
                        ("mixed_tan", 10, q, w, 8.0 * eps * w.abs() + tiny)
                    }
                    _ => continue,
                };
                let Some(g) = guarded(&mut 0, || T::read(k, arg)) else { fail("unexpected-panic", &format!("{}: {name} of {:?} panics", show(), arg.f())) };
                stat(St::CHECKED);
                log128(g.en());
                if !((g.f() - want).abs() <= tol) {
                    fail("wrong-time", &format!("{}: {name} of {:?} is {:?}, true is {want:?}, allowed error {tol:e}", show(), arg.f(), g.f()));
                }
                // And against the clock, where that determines it well.
                let clock = match (law, kind) {
                    (HYP, 0) => Some((y, 2.0 * (err + E64 * (8.0 + y.abs())) / y.cosh() + 8.0 * eps * (1.0 + y.abs()))),
                    (HYP, 1) if y.abs() > 1.0 => Some((y.abs(), 4.0 * err / y.sinh().abs() + 16.0 * eps * (1.0 + y.abs()))),
                    (HYP, 3) => None,
                    (ROT, 2) if y.abs() < 1.4 && size > 0.0 => Some((y, 30.0 * rel + 16.0 * eps)),
                    _ => None,
                };
                if let Some((w, tol)) = clock {
                    if err < 0.05 * y.cosh().min(1.0) && !((g.f() - w).abs() <= tol) {
                        fail("wrong-time", &format!("{}: {name} of the state says {:?} at {w:?}, allowed error {tol:e}", show(), g.f()));
                    }
                }
            }
            _ => {}
        }
        state(mix(s.0.en() as u64 ^ (T::BITS as u64) << 48 ^ (law as u64) << 56));
    }
    stat(St::SETTLED);
}

fn run<T: Evo>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let law = (find(p, "law").map_or(0, |r| r.n(0)) % T::NLAWS as u128) as u8;
        if law >= HYP { pair::<T>(p, law) } else { scalar::<T>(p, law) }
    })]);
}

struct Ty {
    name: &'static str,
    kind: u8,
    signed: bool,
    laws: u8,
    max: fn() -> f64,
    of: fn(f64) -> u128,
    gen: fn(&mut Rng, Style) -> u128,
    run: fn(&Plan),
}
fn of<T: Elem>(x: f64) -> u128 {
    T::of(x).en()
}
macro_rules! tys { ($($t:ident)*) => { const TYS: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, kind: <$t as Elem>::KIND, signed: <$t as Elem>::SIGNED, laws: <$t as Evo>::NLAWS, max: max::<$t>, of: of::<$t>, gen: <$t as Elem>::gen, run: run::<$t> } ),* ]; } }
tys!(f32 f64 SimNum i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize I8F0 I16F0 I32F0 I64F0 I8F3 I8F5 I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);

pub struct Catchup;
impl Prop for Catchup {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn runs(&self) -> (u64, u64) {
        (300_000, 6_000_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let t = if r.chance(2, 5) { r.below(3) as usize } else { r.below(TYS.len() as u64) as usize };
        let ty = &TYS[t];
        let law = if ty.kind == 0 { r.below(ty.laws as u64) as u8 } else { u8::from(ty.laws > 1 && r.chance(1, 3)) };
        // How much one tick changes.
        let pace = *r.pick(&[0.001, 0.02, 0.2, 1.0, 3.0]);
        let q = (r.f64() - 0.5) * 2.0 * pace;
        let sgn = if ty.signed && r.chance(1, 3) { -1.0 } else { 1.0 };
        let (a, s0) = match law {
            _ if ty.kind == 1 || ty.name.ends_with("F0") => (if r.chance(1, 6) { (ty.gen)(r, Style::Wild) } else { (ty.of)(sgn * r.below(12) as f64) }, if r.chance(1, 6) { (ty.gen)(r, Style::Wild) } else { (ty.of)(1.0 + r.below(5) as f64) }),
            EXP | EXP2 | EXP10 => ((ty.of)(q), (ty.of)(1.0)),
            POW | SQRT => ((ty.of)(q.exp()), (ty.of)(1.0 + r.f64())),
            HYP..=u8::MAX => ((ty.of)((r.f64() - 0.5) * pace), (ty.of)(q)),
            _ if r.chance(1, 10) => ((ty.gen)(r, Style::Wild), (ty.of)(1.0)),
            _ => ((ty.of)(sgn * q.exp()), (ty.of)(((r.f64() + 0.2) * 2.0).min((ty.max)() * 0.4))),
        };
        let mut p = vec![rec("type", &[t as u128]), rec("law", &[law as u128, a, s0])];
        let far = if pace < 0.01 { 2000 } else if pace < 0.5 { 100 } else { 12 };
        let some = |r: &mut Rng| match r.below(6) {
            0 => 0,
            1 => 1,
            2 => r.range(-3, 3) as i16 as u16 as u128,
            3 => r.below(far) as u128,
            _ => r.below(1 + far / 4) as u128,
        };
        for _ in 0..r.range(2, 14) {
            let w = r.below(4) as u128;
            let v = some(r);
            match r.below(13) {
                0 | 1 => p.push(rec("tick", &[r.below(20) as u128, w])),
                2 | 3 => p.push(rec("stall", &[v, w])),
                4 | 5 => p.push(rec("jump", &[(-(r.below(far) as i64)) as i16 as u16 as u128, w])),
                6 => {
                    let v2 = some(r);
                    p.push(rec("split", &[v, v2, w]))
                }
                7 => p.push(rec("clock", &[r.range(-40, 60) as i16 as u16 as u128, w])),
                8 => p.push(rec("save", &[])),
                9 => p.push(rec("crash", &[r.below(40) as u128, w])),
                10 => p.push(rec("flip", &[w])),
                11 if ty.name == "SimNum" => p.push(rec("fault", &[1 + r.below(12) as u128])),
                _ => p.push(rec("look", &[r.below(12) as u128])),
            }
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (TYS[(find(p, "type").map_or(0, |r| r.n(0)) % TYS.len() as u128) as usize].run)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        let d = |i: usize| (r.n(i) & 0xffff) as u16 as i16;
        match r.k {
            "type" => TYS[(r.n(0) % TYS.len() as u128) as usize].name.to_string(),
            "law" => format!("law of motion: {} (if the type has it); parameter and initial value", LAWS[(r.n(0) % 10) as usize]),
            "tick" => format!("{} ticks one by one", r.n(0) % 32),
            "stall" => format!("{} ticks missed, caught up in one step", d(0)),
            "jump" => format!("the clock jumps by {}", d(0)),
            "split" => format!("{} ticks missed, then {} more", d(0), d(1)),
            "clock" => format!("a skewed local clock adds {} quarters of a tick", d(0)),
            "save" => "checkpoint".into(),
            "crash" => format!("crash, {} ticks later restored from the checkpoint and caught up", d(0).rem_euclid(64)),
            "flip" => "the state is corrupted and computed anew from the beginning".into(),
            "fault" => format!("component operation {} fails, then the call is repeated", r.n(0)),
            "look" => "the time is read off the state".into(),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::SETTLED as usize] > 0 && r.stats[St::CHECKED as usize] > 3
    }
    fn rule(&self) -> &'static str {
        "each run: a node whose state follows one of ten laws of motion (integer powers in all 37 number types, exponentials also in signed fixed point, base 2 and 10 exponentials, real powers, roots, hyperbolic functions, rotations and the complex exponential in floats) is stalled, crashed and restored, corrupted, and given a jumping or skewed clock, and catches up over the missed ticks in one or several steps; after every step its factor and its state must be those of the node that never stalled, and the time read off the state by the inverse functions must be right. Non-trivial: more than three comparisons. Distinct: by plan."
    }
    fn stub(&self) -> &'static str {
        "the clock, the storage and the component type SimNum are simulated"
    }
}
