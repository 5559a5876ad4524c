//! C12: a gain-control loop and a power detector, run through drop-outs, spikes and corruption, then left to settle.
//!
//! Oracle: the true magnitude of every output sample (f64), the decibel values of the levels, and the settling of a
//! first-order loop with the loop's own constants.

use crate::elem::*;
use crate::harness::*;
use crate::polar::{mag_err, mag_fits, max, small, ulp};
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::{self, SimFault, SimNum};
use mixed_num::*;

const BUDGET: u64 = 20_000_000;

pub trait Level: Rooted {
    /// (to decibel, from decibel) of a magnitude and of a power.
    fn db(_x: Self, _kind: u8) -> Option<Self> {
        None
    }
}
macro_rules! level_float { ($($t:ident)*) => { $( impl Level for $t {
    fn db(x: Self, kind: u8) -> Option<Self> {
        Some(match kind {
            0 => x.mixed_mag2db(),
            1 => x.mixed_db2mag(),
            2 => x.mixed_pow2db(),
            _ => x.mixed_db2pow(),
        })
    }
} )* } }
level_float!(f32 f64);
macro_rules! level { ($($t:ident)*) => { $( impl Level for $t {} )* } }
level!(SimNum I8F3 I8F5 I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);

pub trait Loop: Level + Trig + MixedConv {}
/// Multiplication of a Cartesian by the component type itself.
pub trait MixedConv: Sized {
    fn scale(z: Cartesian<Self>, g: Self, way: u128) -> Cartesian<Self>;
}
macro_rules! looped { ($($t:ident)*) => { $(
    impl MixedConv for $t {
        fn scale(z: Cartesian<Self>, g: Self, way: u128) -> Cartesian<Self> {
            match way % 3 {
                0 => z * Cartesian::new(g, <$t as MixedZero>::mixed_zero()),
                1 => complex::mul_cartesian(Cartesian::new(g, <$t as MixedZero>::mixed_zero()), z),
                _ => Cartesian::new(z.re * g, z.im * g),
            }
        }
    }
    impl Loop for $t {}
)* } }
looped!(SimNum I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61);
macro_rules! looped_float { ($($t:ident)*) => { $(
    impl MixedConv for $t {
        fn scale(z: Cartesian<Self>, g: Self, way: u128) -> Cartesian<Self> {
            match way % 3 {
                0 => z * Cartesian::new(g, 0.0),
                1 => z * g,
                _ => complex::mul_cartesian(Cartesian::new(g, 0.0), z),
            }
        }
    }
    impl Loop for $t {}
)* } }
looped_float!(f32 f64);

enum Got<R> {
    Ok(R),
    Panic,
}
/// A library call; when a component operation fails it is repeated.
fn guarded<R>(fault: &mut u64, mut f: impl FnMut() -> R) -> Got<R> {
    let k = core::mem::take(fault);
    simnum::plan_fault(k);
    let (r, t, _) = rt::call(BUDGET, &mut f);
    simnum::plan_fault(0);
    stat(St::CALLS);
    log(t);
    match r {
        Ok(v) => Got::Ok(v),
        Err(e) if e.is::<SimFault>() => {
            stat(St::SIMFAULT);
            stat(St::RETRY);
            let (r, t, _) = rt::call(BUDGET, &mut f);
            log(t);
            r.map_or(Got::Panic, Got::Ok)
        }
        Err(_) => {
            stat(St::PANICS);
            Got::Panic
        }
    }
}

/// Relative error of the NIIR-filter root after n iterations.
fn niirf_rel(n: usize) -> f64 {
    match n {
        0 | 1 => 4.3e-2,
        2 => 1.05e-3,
        3 => 4.5e-5,
        4 => 3.5e-6,
        _ => 3e-7,
    }
}
/// Error of the root of p, whose value is exact.
fn root_err<T: Elem>(p: f64, niirf: Option<usize>) -> f64 {
    let r = p.sqrt();
    let u = ulp::<T>();
    let own = match niirf {
        Some(n) => niirf_rel(n) * r,
        None if T::KIND == 0 => 4.0 * T::EPS * r,
        None => niirf_rel(2) * r,
    };
    own + 5.0 * u * (1.0 + r) + 64.0 * T::EPS * r
}

/// Ways of measuring the level of a complex sample; the bool is whether the NIIR filter is used for floats too.
fn measure<T: Loop>(z: Cartesian<T>, way: u128, fault: &mut u64) -> (Got<T>, bool) {
    match way % 6 {
        0 => (guarded(fault, || Mag::mag(&z)), false),
        1 => (guarded(fault, || Mag::abs(&z)), false),
        2 => (guarded(fault, || complex::abs(z)), false),
        3 => (guarded(fault, || MixedAbs::mixed_abs(&z).re), false),
        4 => (guarded(fault, || (z.re * z.re + z.im * z.im).mixed_sqrt()), false),
        _ => (guarded(fault, || (z.re * z.re + z.im * z.im).mixed_niirf()), true),
    }
}

struct Agc<T> {
    g: T,
    set: T,
    mu: T,
    lo: T,
    hi: T,
    /// Level of the clean signal, and its phase and step.
    level: f64,
    phase: f64,
    step: f64,
    way: u128,
    db: bool,
    k: u128,
}
impl<T: Loop> Agc<T> {
    fn e(&self, m: f64) -> f64 {
        let niirf = self.way % 6 == 5;
        if T::KIND == 0 && niirf { niirf_rel(2) * m + 64.0 * T::EPS * m } else { mag_err::<T>(m) + 8.0 * T::EPS * m }
    }
    fn clamp(&self, g: T) -> T {
        // A gain that is not a number is replaced, too.
        if !(g >= self.lo) {
            self.lo
        } else if g > self.hi {
            self.hi
        } else {
            g
        }
    }
    /// One sample of the loop. `amp` scales the signal.
    fn sample(&mut self, amp: f64, fault: &mut u64) {
        stat(St::STEPS);
        self.k += 1;
        self.phase += self.step;
        let z = Cartesian::new(T::of(self.level * amp * self.phase.cos()), T::of(self.level * amp * self.phase.sin()));
        let g = self.clamp(self.g);
        self.g = g;
        let (a, b, gf) = (z.re.f(), z.im.f(), g.f());
        // Scale.
        let lin = if self.db {
            // The gain register holds decibels.
            match guarded(fault, || T::db(g, 1).unwrap_or(g)) {
                Got::Ok(v) => {
                    let w = 10f64.powf(gf / 20.0);
                    stat(St::CHECKED);
                    if !((v.f() - w).abs() <= w * (8.0 + gf.abs()) * 2.0 * T::EPS) {
                        fail("wrong-level", &format!("{}: {gf:?} dB is converted to a magnitude of {:?}, true is {w:?}", T::NAME, v.f()));
                    }
                    v
                }
                Got::Panic => fail("unexpected-panic", &format!("{}: conversion of {gf:?} dB panics", T::NAME)),
            }
        } else {
            g
        };
        let lf = lin.f();
        let (way, k) = (self.way, self.k);
        let out = guarded(fault, || T::scale(z, lin, k));
        let (wa, wb) = (a * lf, b * lf);
        let out = match out {
            Got::Ok(o) => o,
            Got::Panic => {
                // Clipping: the caller drops the sample and the gain with it.
                if T::KIND == 0 || wa.abs().max(wb.abs()) + 2.0 * ulp::<T>() < max::<T>() {
                    fail("unexpected-panic", &format!("{}: scaling ({a:?}, {b:?}) by {lf:?} panics although the result fits", T::NAME));
                }
                stat(St::OVERFLOW);
                self.g = self.lo;
                return;
            }
        };
        let tol = 1.5 * ulp::<T>() + 2e-45 + 1e-15 * wa.abs().max(wb.abs()) + 2.0 * T::EPS * wa.abs().max(wb.abs());
        if !((out.re.f() - wa).abs() <= tol && (out.im.f() - wb).abs() <= tol) {
            fail("wrong-output", &format!("{}: ({a:?}, {b:?}) scaled by {lf:?} is ({:?}, {:?})", T::NAME, out.re.f(), out.im.f()));
        }
        // Measure.
        let (oa, ob) = (out.re.f(), out.im.f());
        let m = oa.hypot(ob);
        let got = match measure::<T>(out, way, fault).0 {
            Got::Ok(v) => v,
            Got::Panic => {
                if T::KIND == 0 || mag_fits::<T>(oa, ob) {
                    fail("unexpected-panic", &format!("{}: measuring the magnitude of ({oa:?}, {ob:?}) panics although its square fits", T::NAME));
                }
                stat(St::OVERFLOW);
                self.g = self.lo;
                return;
            }
        };
        stat(St::CHECKED);
        log128(got.en());
        if T::KIND != 0 || m == 0.0 || m > small::<T>() && m < max::<T>() {
            let e = self.e(m);
            if !((got.f() - m).abs() <= e) {
                fail("wrong-magnitude", &format!("{}: the magnitude of ({oa:?}, {ob:?}) is measured as {:?}, true is {m:?}, allowed error {e:e}", T::NAME, got.f()));
            }
        }
        state(mix((got.en() as u64) ^ (T::BITS as u64) << 40 ^ (T::FRAC as u64) << 50 ^ (way as u64) << 60));
        // Feed back, with the caller's own arithmetic.
        let (set, mu) = (self.set, self.mu);
        if self.db {
            if got.f() <= 0.0 {
                return;
            }
            let d = guarded(fault, || T::db(got, 0).unwrap_or(got));
            let Got::Ok(d) = d else { fail("unexpected-panic", &format!("{}: conversion of {:?} to decibel panics", T::NAME, got.f())) };
            let w = 20.0 * got.f().log10();
            if !((d.f() - w).abs() <= (4.0 + w.abs()) * 8.0 * T::EPS) {
                fail("wrong-level", &format!("{}: magnitude {:?} is converted to {:?} dB, true is {w:?}", T::NAME, got.f(), d.f()));
            }
            stat(St::CHECKED);
            let (r, _, _) = rt::call(BUDGET, || g + mu * (set - d));
            self.g = r.unwrap_or(self.lo);
        } else {
            let (r, _, _) = rt::call(BUDGET, || g + mu * (set - got));
            self.g = r.unwrap_or(self.lo);
        }
        self.g = self.clamp(self.g);
    }
    /// The true output level with the present gain.
    fn out_level(&self) -> f64 {
        let g = self.g.f();
        self.level * if self.db { 10f64.powf(g / 20.0) } else { g }
    }
    /// Samples after which the loop must have settled, and the error it may keep.
    fn settle(&self) -> (u64, f64) {
        let mu = self.mu.f();
        if self.db {
            let c: f64 = 1.0 - mu;
            let set = self.set.f();
            let r = 10f64.powf(set / 20.0);
            let tol_db = (100.0 + set.abs()) * 40.0 * T::EPS / mu + 20.0 / std::f64::consts::LN_10 * 2.0 * self.e(r) / r;
            let n = ((tol_db * 0.25 / 200.0).ln() / c.ln()).ceil().max(1.0) as u64 + 4;
            return (n, r * 0.13 * tol_db);
        }
        let c: f64 = 1.0 - mu * self.level;
        let r = self.set.f();
        let e = self.e(r * 1.05) + 2.0 * ulp::<T>();
        let tol = 3.0 * e + 8.0 * (ulp::<T>() + T::EPS * (r + r / self.level + 1.0)) * (1.0 / mu + self.level + 2.0);
        let start = (self.hi.f() * self.level).max(r) + 1.0;
        let n = ((tol * 0.2 / start).ln() / c.ln()).ceil().max(1.0) as u64 + 4;
        (n, tol)
    }
    fn must_settle(&mut self) {
        let (n, tol) = self.settle();
        if n > 3000 {
            stat(St::SKIPPED);
            return;
        }
        for _ in 0..n {
            self.sample(1.0, &mut 0);
        }
        let want = if self.db { 10f64.powf(self.set.f() / 20.0) } else { self.set.f() };
        for i in 0..12 {
            stat(St::CHECKED);
            let l = self.out_level();
            if !((l - want).abs() <= tol) {
                fail("not-settled", &format!("{}: {} samples after the last fault the output level is {l:?}, the set point {want:?}, allowed error {tol:e} (signal level {:?}, gain {:?}, loop constant {:?})", T::NAME, n + i, self.level, self.g.f(), self.mu.f()));
            }
            self.sample(1.0, &mut 0);
        }
        stat(St::SETTLED);
    }
}

fn agc<T: Loop>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let Some(c) = find(p, "loop") else { return };
        let frac = |i: usize| (c.n(i) & 0xffff) as f64 / 65536.0;
        let lim = if T::KIND == 0 { 1e6 } else { max::<T>() };
        let db = T::KIND == 0 && T::NAME != "SimNum" && c.n(5) & 1 == 1;
        let level = 0.3 + frac(0) * if lim > 8.0 { 1.7 } else { 0.9 };
        let hi = (0.9 * lim.sqrt() / level).min(0.45 * lim).min(16.0);
        let set = (0.3 + frac(1) * 0.9).min(hi * level / 1.5);
        // One minus the loop's contraction.
        let k = 0.1 + frac(2) * 0.4;
        let mut s = if db {
            Agc { g: T::of(0.0), set: T::of(-20.0 + frac(1) * 30.0), mu: T::of(0.1 + frac(2) * 0.7), lo: T::of(-80.0), hi: T::of(80.0), level, phase: frac(3) * 6.0, step: frac(4) * 2.0, way: c.n(6), db, k: 0 }
        } else {
            Agc { g: T::of(hi * 0.5), set: T::of(set), mu: T::of(k / level), lo: T::of(0.0), hi: T::of(hi), level, phase: frac(3) * 6.0, step: frac(4) * 2.0, way: c.n(6), db, k: 0 }
        };
        let mut saved = s.g;
        let mut fault = 0u64;
        for r in p {
            match r.k {
                "run" => {
                    for _ in 0..r.n(0) % 64 {
                        s.sample(1.0, &mut fault);
                    }
                }
                "drop" => {
                    for _ in 0..r.n(0) % 32 {
                        stat(St::DROPOUT);
                        s.sample(0.0, &mut fault);
                    }
                }
                "spike" => {
                    stat(St::SPIKE);
                    s.sample(2f64.powi((r.n(0) % 40) as i32 - 20), &mut fault);
                }
                "flip" => {
                    stat(St::BITFLIP);
                    s.g = T::de(s.g.en() ^ 1 << (r.n(0) % T::BITS as u128));
                }
                "corrupt" => {
                    stat(St::WILD);
                    s.g = T::de(r.n(0));
                }
                "save" => saved = s.g,
                "restore" => {
                    stat(St::RESTORE);
                    s.g = saved;
                }
                "fault" => fault = r.n(0) as u64 % 64,
                "settle" => s.must_settle(),
                _ => {}
            }
        }
        s.must_settle();
    })]);
}

/// An averaging power detector: average = average/2 + power/2, level = root of the average.
fn detector<T: Level>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let mut avg = T::de(0);
        let mut fault = 0u64;
        let two = T::of(2.0);
        let mut look = |avg: T, way: u128, fault: &mut u64| {
            let a = avg.f();
            if !a.is_finite() || a < 0.0 {
                stat(St::SKIPPED);
                return;
            }
            let n = 1 + (way / 4 % 5) as usize;
            let (got, e) = match way % 4 {
                0 => (guarded(fault, || avg.mixed_sqrt()), root_err::<T>(a, None)),
                1 => (guarded(fault, || avg.mixed_niirf()), root_err::<T>(a, Some(2))),
                _ => (guarded(fault, || trigonometry::sqrt::niirf(avg, n)), root_err::<T>(a, Some(n))),
            };
            let Got::Ok(l) = got else { fail("unexpected-panic", &format!("{}: the root of {a:?} (0x{:x}) panics", T::NAME, avg.en())) };
            stat(St::CHECKED);
            log128(l.en());
            if T::KIND == 0 && (a > 1e30 || a < 1e-30 && a > 0.0) {
                stat(St::SKIPPED);
                return;
            }
            if !((l.f() - a.sqrt()).abs() <= e) {
                fail("wrong-level", &format!("{}: the root of {a:?} (0x{:x}) is given as {:?}, true is {:?}, allowed error {e:e}{}", T::NAME, avg.en(), l.f(), a.sqrt(), if way % 4 > 1 { format!(" after {n} iterations") } else { String::new() }));
            }
            state(mix((l.en() as u64) ^ (T::BITS as u64) << 40 ^ (T::FRAC as u64) << 50));
        };
        for r in p {
            match r.k {
                "power" => {
                    let x = T::de(r.n(0));
                    if !x.f().is_finite() || x.f() < 0.0 {
                        continue;
                    }
                    for i in 0..1 + r.n(1) % 80 {
                        stat(St::STEPS);
                        let (v, _, _) = rt::call(BUDGET, || avg / two + x / two);
                        if let Ok(v) = v {
                            avg = v;
                        }
                        look(avg, r.n(2) % 4096 + i, &mut fault);
                    }
                    if r.n(1) % 80 > 70 {
                        // Long enough for the average to have reached the input.
                        let (a, w) = (avg.f(), x.f());
                        let tol = 3.0 * ulp::<T>() + (8.0 * T::EPS + 2f64.powi(-50)) * w + if T::KIND == 0 { f64::INFINITY } else { max::<T>() * 2.0 * 2f64.powi(-70) };
                        if !((a - w).abs() <= tol) {
                            fail("not-settled", &format!("{}: the average is {a:?} after 70 samples of {w:?}", T::NAME));
                        }
                        stat(St::SETTLED);
                    }
                }
                "flip" => {
                    stat(St::BITFLIP);
                    avg = T::de(avg.en() ^ 1 << (r.n(0) % T::BITS as u128));
                    if !(avg.f() >= 0.0) || !avg.f().is_finite() {
                        avg = T::de(0);
                    }
                    look(avg, r.n(1), &mut fault);
                }
                "drop" => {
                    stat(St::DROPOUT);
                    avg = T::de(0);
                    look(avg, r.n(1), &mut fault);
                }
                "fault" => fault = r.n(0) as u64 % 64,
                _ => {}
            }
        }
    })]);
}

/// A level handed back and forth between linear and decibel.
fn decibel<T: Level>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let mut x = T::of(1.0);
        let mut truth = 1.0f64;
        let mut tol = 0.0f64;
        for r in p {
            match r.k {
                "level" => {
                    let v = T::de(r.n(0));
                    let big = if T::BITS == 32 { 1e37 } else { 1e300 };
                    if !v.f().is_finite() || v.f() < 1.0 / big || v.f() > big {
                        stat(St::SKIPPED);
                        continue;
                    }
                    stat(St::WILD);
                    x = v;
                    truth = v.f();
                    tol = 0.0;
                }
                "round" => {
                    for _ in 0..r.n(0) % 32 {
                        stat(St::STEPS);
                        let pow = r.n(1) & 1 == 1;
                        let y = x;
                        let a = guarded(&mut 0, || T::db(y, if pow { 2 } else { 0 }));
                        let Got::Ok(Some(d)) = a else { fail("unexpected-panic", &format!("{}: decibel of {:?}", T::NAME, y.f())) };
                        let w = if pow { 10.0 } else { 20.0 } * y.f().log10();
                        if !((d.f() - w).abs() <= (4.0 + w.abs()) * 8.0 * T::EPS) {
                            fail("wrong-level", &format!("{}: {} {:?} is converted to {:?} dB, true is {w:?}", T::NAME, if pow { "power" } else { "magnitude" }, y.f(), d.f()));
                        }
                        let b = guarded(&mut 0, || T::db(d, if pow { 3 } else { 1 }));
                        let Got::Ok(Some(z)) = b else { fail("unexpected-panic", &format!("{}: from decibel of {:?}", T::NAME, d.f())) };
                        stat(St::CHECKED);
                        log128(z.en());
                        tol += (16.0 + 4.0 * d.f().abs()) * T::EPS;
                        x = z;
                        if !((x.f() / truth - 1.0).abs() <= tol) {
                            fail("level-moves", &format!("{}: a level of {truth:?} has become {:?} by conversion to decibel and back, allowed relative error {tol:e}", T::NAME, x.f()));
                        }
                        state(mix(x.en() as u64));
                    }
                }
                "flip" => {
                    let v = T::de(x.en() ^ 1 << (r.n(0) % T::BITS as u128));
                    let big = if T::BITS == 32 { 1e37 } else { 1e300 };
                    if v.f().is_finite() && v.f() > 1.0 / big && v.f() < big {
                        stat(St::BITFLIP);
                        x = v;
                        truth = v.f();
                        tol = 0.0;
                    }
                }
                _ => {}
            }
        }
    })]);
}

struct Ty {
    name: &'static str,
    bits: u32,
    gen: fn(&mut Rng, Style) -> u128,
    run: fn(&Plan),
}
macro_rules! tys { ($n:ident $f:ident: $($t:ident)*) => { const $n: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, bits: <$t as Elem>::BITS, gen: <$t as Elem>::gen, run: $f::<$t> } ),* ]; } }
tys!(LOOPS agc: f32 f64 SimNum I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61);
tys!(DETS detector: f32 f64 SimNum I8F3 I8F5 I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);
tys!(DBS decibel: f32 f64);

fn table(p: &Plan) -> &'static Ty {
    let (k, i) = find(p, "type").map_or((0, 0), |r| (r.n(0), r.n(1)));
    let t = match k % 3 {
        0 => LOOPS,
        1 => DETS,
        _ => DBS,
    };
    &t[(i % t.len() as u128) as usize]
}

pub struct Gain;
impl Prop for Gain {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn runs(&self) -> (u64, u64) {
        (60_000, 1_500_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let kind = *r.pick(&[0u128, 0, 0, 1, 1, 2]);
        let n = [LOOPS.len(), DETS.len(), DBS.len()][kind as usize] as u64;
        let i = if kind == 0 && r.chance(1, 4) { r.below(3) } else { r.below(n) } as u128;
        let mut p = vec![rec("type", &[kind, i])];
        let ty = table(&p);
        match kind {
            0 => {
                let v: Vec<u128> = (0..7).map(|_| r.below(65536) as u128).collect();
                p.push(Rec { k: "loop", v });
                for _ in 0..r.range(1, 12) {
                    match r.below(12) {
                        0 | 1 => p.push(rec("drop", &[r.below(32) as u128])),
                        2 | 3 => p.push(rec("spike", &[r.below(40) as u128])),
                        4 | 5 => p.push(rec("flip", &[r.below(ty.bits as u64) as u128])),
                        6 => p.push(rec("corrupt", &[(ty.gen)(r, Style::Wild)])),
                        7 => p.push(rec("save", &[])),
                        8 => p.push(rec("restore", &[])),
                        9 if ty.name == "SimNum" => p.push(rec("fault", &[1 + r.below(12) as u128])),
                        10 if r.chance(1, 4) => p.push(rec("settle", &[])),
                        _ => p.push(rec("run", &[r.below(64) as u128])),
                    }
                }
            }
            1 => {
                for _ in 0..r.range(2, 14) {
                    match r.below(8) {
                        0 => p.push(rec("flip", &[r.below(ty.bits as u64) as u128, r.below(20) as u128])),
                        1 => p.push(rec("drop", &[0, r.below(20) as u128])),
                        2 if ty.name == "SimNum" => p.push(rec("fault", &[1 + r.below(12) as u128])),
                        _ => {
                            let s = if r.chance(1, 2) { Style::Wild } else { Style::Tame };
                            let mut v = (ty.gen)(r, s);
                            if !ty.name.starts_with('U') {
                                v &= !(1u128 << (ty.bits - 1));
                            }
                            let n = if r.chance(1, 4) { r.below(80) } else { r.below(6) };
                            p.push(rec("power", &[v, n as u128, r.below(20) as u128]))
                        }
                    }
                }
            }
            _ => {
                for _ in 0..r.range(2, 10) {
                    match r.below(6) {
                        0 => p.push(rec("flip", &[r.below(ty.bits as u64) as u128])),
                        1 | 2 => {
                            let e = r.range(-14, 14) as i32;
                            let x = 10f64.powi(e) * (0.1 + r.f64());
                            p.push(rec("level", &[if ty.bits == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 }]))
                        }
                        _ => p.push(rec("round", &[r.below(32) as u128, r.below(2) as u128])),
                    }
                }
            }
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (table(p).run)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        match r.k {
            "type" => format!("{} {}", ["gain-control loop of", "power detector of", "decibel conversions of"][(r.n(0) % 3) as usize], table(&vec![r.clone()]).name),
            "run" => format!("{} clean samples", r.n(0) % 64),
            "drop" => "the signal drops out".into(),
            "spike" => format!("one sample is 2^{} times too large", (r.n(0) % 40) as i32 - 20),
            "flip" => format!("bit {} of the stored value flips", r.n(0)),
            "corrupt" => "the stored gain becomes these bits".into(),
            "fault" => format!("component operation {} fails, then the call is repeated", r.n(0)),
            "settle" => "clean samples until the loop must have settled".into(),
            "round" => format!("{} conversions to decibel and back of a {}", r.n(0) % 32, if r.n(1) & 1 == 1 { "power" } else { "magnitude" }),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::STEPS as usize] > 2 && r.stats[St::CHECKED as usize] > 4
    }
    fn rule(&self) -> &'static str {
        "each run is one of: a gain-control loop (14 component types, linear or decibel feedback, six ways of measuring the level) whose signal drops out and spikes and whose stored gain is flipped, overwritten, saved and restored, after which it must settle in a bounded number of clean samples and hold; an averaging power detector (20 component types, signed and unsigned) whose average is corrupted, with the root compared at every sample; or a level (f32, f64) converted to decibel and back up to a few hundred times. Non-trivial: at least three steps and five comparisons. Distinct: by plan."
    }
    fn stub(&self) -> &'static str {
        "the loop of the caller, the signal, the stored gain and the component type SimNum are simulated"
    }
}
