//! C17: a pointing loop whose angle register follows a target by arcsine or arccosine readings of a resolver, through
//! drop-outs, overdriven readings, target jumps and corruption of the register, then left to settle.
//!
//! Oracle: the true reading (f64), each angle judged by the sine or cosine it stands for, and the convergence of the
//! loop with its own gain.

use crate::acc::trig_err;
use crate::elem::*;
use crate::harness::*;
use crate::polar::{max, PNum};
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::SimNum;
use crate::track::guarded;
use std::f64::consts::{FRAC_PI_2, PI};

const KINDS: &[&str] = &["arcsine reading", "arccosine reading", "nulled by the arcsine", "nulled by the arccosine and the side"];

/// Resolution of the type at 1.
fn unit<T: Elem>() -> f64 {
    if T::KIND == 0 { T::EPS } else { T::ulp() }
}
/// Error of the sine (cosine) of an angle found by arcsine (arccosine), in steps of the type.
fn steps<T: Elem>() -> f64 {
    if T::KIND == 0 { 10.0 } else { T::FRAC as f64 + 18.0 }
}

struct Pointer<T> {
    phi: T,
    theta: f64,
    gain: T,
    kind: u128,
    k: u64,
}

impl<T: PNum> Pointer<T> {
    fn range(&self) -> (f64, f64) {
        match self.kind % 4 {
            0 => (-FRAC_PI_2, FRAC_PI_2),
            1 => (0.0, PI),
            _ => (-1.4, 1.4),
        }
    }
    fn clamp(&self, x: f64) -> T {
        let (lo, hi) = self.range();
        T::of(x.clamp(lo, hi))
    }
    /// The angle whose sine or cosine is s.
    fn read(&mut self, s: T, cosine: bool, fault: &mut u64) -> Option<T> {
        let name = if cosine { "mixed_acos" } else { "mixed_asin" };
        let r = guarded(fault, || if cosine { s.mixed_acos() } else { s.mixed_asin() });
        let w = s.f();
        if !(w.abs() <= 1.0) {
            // No angle has it. Whatever the library says of it, what follows must be right.
            stat(St::SKIPPED);
            return None;
        }
        let Some(r) = r else { fail("unexpected-panic", &format!("{}: {name} of {w:?} panics", T::NAME)) };
        stat(St::CHECKED);
        log128(r.en());
        let (u, a) = (unit::<T>(), r.f());
        let tol = steps::<T>() * u + 2e-15;
        let (lo, hi) = if cosine { (0.0, PI) } else { (-FRAC_PI_2, FRAC_PI_2) };
        let back = if cosine { a.cos() } else { a.sin() };
        let fine = if T::KIND == 0 {
            let t = if cosine { w.acos() } else { w.asin() };
            (a - t).abs() <= 8.0 * u * t.abs() + 1e-44
        } else {
            (back - w).abs() <= tol
        };
        if !fine || !(a >= lo - tol && a <= hi + tol) {
            fail("wrong-angle", &format!("{}: {name} of {w:?} is {a:?}, whose {} is {back:?}; allowed error {tol:e}", T::NAME, if cosine { "cosine" } else { "sine" }));
        }
        // Read back by the library's own function.
        if self.k % 3 == 0 {
            let (name, b) = if cosine { ("mixed_cos", guarded(fault, || r.mixed_cos())) } else { ("mixed_sin", guarded(fault, || r.mixed_sin())) };
            let Some(b) = b else { fail("unexpected-panic", &format!("{}: {name} of {a:?} panics", T::NAME)) };
            stat(St::CHECKED);
            let tol = tol + trig_err::<T>(a);
            if !((b.f() - w).abs() <= tol) {
                fail("does-not-read-back", &format!("{}: {name} of the angle of {w:?} ({a:?}) is {:?}, allowed error {tol:e}", T::NAME, b.f()));
            }
        }
        Some(r)
    }
    fn e(&self) -> f64 {
        self.theta - self.phi.f()
    }
    /// One reading, driven by `over`, and the correction.
    fn sample(&mut self, over: f64, fault: &mut u64) {
        stat(St::STEPS);
        self.k += 1;
        let e = self.e();
        let d = match self.kind % 4 {
            0 | 1 => {
                let cosine = self.kind & 1 == 1;
                let s = T::of(over * if cosine { self.theta.cos() } else { self.theta.sin() });
                let Some(r) = self.read(s, cosine, fault) else { return };
                let p = self.phi;
                rt::call(10_000, || r - p).0
            }
            2 => {
                let Some(r) = self.read(T::of(over * e.sin()), false, fault) else { return };
                Ok(r)
            }
            _ => {
                let Some(r) = self.read(T::of(over * e.cos()), true, fault) else { return };
                rt::call(10_000, || if e.sin() < 0.0 { -r } else { r }).0
            }
        };
        let (p, g) = (self.phi, self.gain);
        let n = match d {
            Ok(d) => rt::call(10_000, || p + g * d).0,
            Err(e) => Err(e),
        };
        match n {
            // The mount has stops.
            Ok(n) => self.phi = self.clamp_if(n),
            Err(_) => harness_error("the correction does not fit"),
        }
        log128(self.phi.en());
        state(mix((self.phi.en() as u64) ^ (T::BITS as u64) << 40 ^ (T::FRAC as u64) << 50 ^ (self.kind as u64) << 60));
    }
    fn clamp_if(&self, n: T) -> T {
        let (lo, hi) = self.range();
        if n.f() < lo || n.f() > hi { self.clamp(n.f()) } else { n }
    }
    fn must_settle(&mut self) {
        let (u, g) = (unit::<T>(), self.gain.f());
        let k = (steps::<T>() + 1.0) * u + 3e-15;
        // Error of a reading.
        let dr = match self.kind % 4 {
            0 => (k / self.theta.cos().abs().max(1e-9)).min(2.0 * (2.0 * k).sqrt()),
            1 => (k / self.theta.sin().abs().max(1e-9)).min(2.0 * (2.0 * k).sqrt()),
            2 => k,
            // The cosine is blind near zero.
            _ => 2.0 * (2.0 * k).sqrt(),
        };
        let dr = dr + if T::KIND == 0 { 10.0 * u * 2.0 } else { 2.0 * u };
        let tol = 1.5 * (g * dr + 3.0 * u * if T::KIND == 0 { PI } else { 1.0 }) / g + 1e-14;
        let mut e = self.e();
        if self.kind % 4 == 2 && e.abs() > 2.4 {
            // On the far side the null is nearly behind: the caller starts over from the middle.
            self.phi = T::de(0);
            e = self.e();
        }
        let mut n = 0u64;
        while e.abs() > 0.2 * tol {
            e -= g * match self.kind % 4 {
                2 => e.sin().asin(),
                _ => e,
            };
            n += 1;
            if n > 1200 {
                stat(St::SKIPPED);
                return;
            }
        }
        if tol > 0.2 {
            stat(St::SKIPPED);
            return;
        }
        for _ in 0..n + 6 {
            self.sample(1.0, &mut 0);
        }
        for i in 0..6 {
            stat(St::CHECKED);
            let e = self.e();
            if !(e.abs() <= tol) {
                fail("not-settled", &format!("{}: {} samples after the last fault the register is {e:e} rad off the target at {:?}, allowed {tol:e} ({}, gain {g:?})", T::NAME, n + 6 + i, self.theta, KINDS[(self.kind % 4) as usize]));
            }
            self.sample(1.0, &mut 0);
        }
        stat(St::SETTLED);
    }
}

fn point<T: PNum>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let Some(c) = find(p, "loop") else { return };
        let frac = |n: u128| (n & 0xffff) as f64 / 65536.0;
        let mut l = Pointer::<T> { phi: T::de(0), theta: 0.0, gain: T::of(0.1 + 0.8 * frac(c.n(0))), kind: c.n(1), k: 0 };
        let mut saved = l.phi;
        let mut fault = 0;
        for r in p {
            match r.k {
                "target" => {
                    stat(St::DETUNE);
                    let (lo, hi) = l.range();
                    l.theta = match r.n(1) % 4 {
                        // The ends, the middle, and close to them.
                        0 => lo + (hi - lo) * (r.n(0) % 9) as f64 / 8.0,
                        1 => {
                            let at = lo + (hi - lo) * (r.n(0) % 3) as f64 / 2.0;
                            (at + (frac(r.n(0) >> 2) - 0.5) * 2.0f64.powi(-((r.n(0) >> 8) as i32 % 40))).clamp(lo, hi)
                        }
                        _ => lo + (hi - lo) * frac(r.n(0)),
                    };
                }
                "run" => {
                    for _ in 0..r.n(0) % 48 {
                        l.sample(1.0, &mut fault);
                    }
                }
                "drop" => {
                    for _ in 0..r.n(0) % 16 {
                        stat(St::DROPOUT);
                        l.sample(0.0, &mut fault);
                    }
                }
                "over" => {
                    stat(St::SPIKE);
                    l.sample(1.0 + frac(r.n(0)) * if r.n(1) & 1 == 1 { max::<T>().min(1e6) * 0.5 } else { 0.5 }, &mut fault);
                }
                "noise" => {
                    // A reading of anything in -1..1.
                    stat(St::SPIKE);
                    let v = T::of(frac(r.n(0)) * 2.0 - 1.0 + 2.0f64.powi(-30) * (r.n(1) % 64) as f64);
                    l.read(v, r.n(1) & 1 == 1, &mut fault);
                }
                "raw" => {
                    stat(St::WILD);
                    l.read(T::de(r.n(0)), r.n(1) & 1 == 1, &mut fault);
                }
                "flip" | "wild" => {
                    let v = if r.k == "flip" { T::de(l.phi.en() ^ 1 << (r.n(0) % T::BITS as u128)) } else { T::de(r.n(0)) };
                    if v.f().is_finite() {
                        stat(if r.k == "flip" { St::BITFLIP } else { St::WILD });
                        l.phi = l.clamp_if(v);
                    }
                }
                "save" => saved = l.phi,
                "restore" => {
                    stat(St::RESTORE);
                    l.phi = l.clamp_if(saved);
                }
                "fault" => fault = r.n(0) as u64 % 32,
                "settle" => l.must_settle(),
                _ => {}
            }
        }
        
        l.must_settle();
    })]);
}

struct Ty {
    name: &'static str,
    bits: u32,
    frac: i32,
    gen: fn(&mut Rng, Style) -> u128,
    of: fn(f64) -> u128,
    run: fn(&Plan),
}
fn of<T: Elem>(x: f64) -> u128 {
    T::of(x).en()
}
macro_rules! tys { ($($t:ident)*) => { const TYS: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, bits: <$t as Elem>::BITS, frac: <$t as Elem>::FRAC, gen: <$t as Elem>::gen, of: of::<$t>, run: point::<$t> } ),* ]; } }
tys!(f32 f64 SimNum I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61);

pub struct Point;
impl Prop for Point {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn runs(&self) -> (u64, u64) {
        (30_000, 1_200_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let t = if r.chance(1, 3) { r.below(3) as usize } else { r.below(TYS.len() as u64) as usize };
        let ty = &TYS[t];
        let mut p = vec![rec("type", &[t as u128]), rec("loop", &[r.below(1 << 16) as u128, r.below(4) as u128])];
        let target = |r: &mut Rng| rec("target", &[r.below(1 << 20) as u128, r.below(4) as u128]);
        p.push(target(r));
        for _ in 0..r.range(3, 12) {
            match r.below(16) {
                0 => p.push(rec("drop", &[r.below(16) as u128])),
                1 => p.push(rec("over", &[r.below(1 << 16) as u128, r.below(2) as u128])),
                2 | 3 => p.push(rec("noise", &[r.below(1 << 16) as u128, r.below(64) as u128])),
                4 | 5 => {
                    // The ends and the middle of the domain, a few bits off, or anything.
                    let v = if r.chance(2, 3) {
                        let b = (ty.of)(r.range(-2, 2) as f64 / 2.0);
                        b.wrapping_add(r.range(-6, 6) as i128 as u128) & (u128::MAX >> (128 - ty.bits))
                    } else if ty.frac >= 0 && r.chance(1, 2) {
                        (ty.of)((r.f64() - 0.5) * 2.0 * 2.0f64.powi(-(r.below(ty.frac as u64 + 1) as i32)))
                    } else {
                        (ty.gen)(r, Style::Wild)
                    };
                    p.push(rec("raw", &[v, r.below(2) as u128]));
                }
                6 | 7 => p.push(target(r)),
                8 => p.push(rec("flip", &[r.below(ty.bits as u64) as u128])),
                9 => p.push(rec("wild", &[(ty.gen)(r, Style::Wild)])),
                10 => p.push(rec("save", &[])),
                11 => p.push(rec("restore", &[])),
                12 if ty.name == "SimNum" => p.push(rec("fault", &[1 + r.below(4) as u128])),
                13 if r.chance(1, 4) => p.push(rec("settle", &[])),
                _ => p.push(rec("run", &[r.below(32) as u128])),
            }
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (TYS[(find(p, "type").map_or(0, |r| r.n(0)) % TYS.len() as u128) as usize].run)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        match r.k {
            "type" => TYS[(r.n(0) % TYS.len() as u128) as usize].name.to_string(),
            "loop" => KINDS[(r.n(1) % 4) as usize].into(),
            "target" => "the target moves".into(),
            "drop" => format!("no signal for {} samples", r.n(0) % 16),
            "over" => "one reading overdriven".into(),
            "noise" => "a stray reading is looked up".into(),
            "raw" => "a reading of these bits is looked up".into(),
            "flip" => format!("bit {} of the register flips", r.n(0)),
            "wild" => "the register is overwritten".into(),
            "fault" => format!("component operation {} fails, then the call is repeated", r.n(0)),
            "run" => format!("{} samples", r.n(0) % 48),
            "settle" => "the loop must settle now".into(),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::SETTLED as usize] > 0 && r.stats[St::CHECKED as usize] > 20
    }
    fn rule(&self) -> &'static str {
        "each run: an angle register of one of 14 component types is drawn to a target by arcsine or arccosine readings, directly or by nulling, through drop-outs, overdriven and stray readings, target jumps, flipped or overwritten registers, save and restore, and component faults; every angle is judged by the sine or cosine it stands for and its range, and read back by the library's own function, and after the last fault the register must settle on the target within a bounded number of samples. Non-trivial: settled at least once. Distinct: by plan."
    }
    fn stub(&self) -> &'static str {
        "the resolver, the caller's register and loop and the component type SimNum are simulated"
    }
}
