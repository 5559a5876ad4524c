//! C13: a carrier-tracking loop (phase-locked loop, Costas loop) run through drop-outs, phase jumps and corruption of
//! its state, then left to lock.
//!
//! Oracle: the true angle of every mixed sample (f64), the exact phase of the carrier (2^-96 rad integers), and the
//! convergence of the loop with its own gains.

use crate::acc::trig_err;
use crate::elem::*;
use crate::harness::*;
use crate::nco::{apart, u96, TAU96};
use crate::polar::{atan_err, atan_fits, mag_fits, max, small, ulp, PNum};
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::{self, SimFault, SimNum};
use mixed_num::*;
use std::f64::consts::PI;

const BUDGET: u64 = 20_000_000;
const DETS: &[&str] = &[
    "arg", "ang", "mixed_atan2", "angle of to_polar", "mixed_atan2_poly", "trigonometry::atan::atan2", "mixed_atan of the quotient", "trigonometry::atan::atan of the quotient", "imaginary part times mixed_sign", "imaginary part times trigonometry::sign",
];
const MIXERS: &[&str] = &["times Polar", "times conjugate", "by sincos and mul_cartesian", "*= Polar", "times &Polar", "polar product"];

/// A library call, repeated when a component operation fails.
pub fn guarded<R>(fault: &mut u64, mut f: impl FnMut() -> R) -> Option<R> {
    let k = core::mem::take(fault);
    simnum::plan_fault(k);
    let (r, t, _) = rt::call(BUDGET, &mut f);
    simnum::plan_fault(0);
    stat(St::CALLS);
    log(t);
    match r {
        Ok(v) => Some(v),
        Err(e) if e.is::<SimFault>() => {
            stat(St::SIMFAULT);
            stat(St::RETRY);
            let (r, t, _) = rt::call(BUDGET, &mut f);
            stat(St::CALLS);
            log(t);
            r.ok()
        }
        Err(_) => {
            stat(St::PANICS);
            None
        }
    }
}

/// Error of the polynomial arctangent of a vector whose squared length is m2.
fn poly_err<T: Elem>(m2: f64) -> f64 {
    let u = ulp::<T>();
    0.0050 + 4.0 * u / (0.64 * m2) + 4.0 * u + 64.0 * T::EPS
}
fn costas(det: u128) -> bool {
    det % 10 >= 6
}
fn sgn(x: f64) -> f64 {
    if x < 0.0 { -1.0 } else { 1.0 }
}
fn turn(d: f64) -> f64 {
    let d = d.rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}

struct Pll<T> {
    theta: T,
    omega: T,
    kp: T,
    ki: T,
    wmax: T,
    det: u128,
    mixer: u128,
    second: bool,
    amp: f64,
    /// Carrier phase and step.
    phi: i128,
    step: T,
    k: u64,
    data: u64,
}

impl<T: PNum> Pll<T> {
    /// What the detector must say about (a, b) and how exactly, and whether it may panic. None: not judged.
    fn want(&self, e: (T, T)) -> (Option<(f64, f64)>, bool) {
        let (a, b) = (e.0.f(), e.1.f());
        let m = a.hypot(b);
        let tiny = T::KIND == 0 && m < small::<T>().max(1e-12);
        match self.det % 10 {
            0..=3 => {
                let fit = atan_fits::<T>(a, b) && (self.det % 10 != 3 || mag_fits::<T>(a, b));
                if m == 0.0 || tiny {
                    (None, !fit)
                } else {
                    (Some((b.atan2(a), atan_err::<T>())), !fit)
                }
            }
            4 | 5 => {
                if m == 0.0 {
                    return (None, false);
                }
                let m2 = m * m;
                if m2 < 64.0 * ulp::<T>() || tiny {
                    return (None, true);
                }
                (Some((b.atan2(a), poly_err::<T>(m2))), 1.3 * m2 + 8.0 * ulp::<T>() >= max::<T>())
            }
            6 | 7 => (None, true),
            _ => (Some((b * sgn(a), 0.0)), false),
        }
    }
    /// The phase error the caller feeds back.
    fn detect(&mut self, e: Cartesian<T>, fault: &mut u64) -> T {
        let (a, b) = (e.re.f(), e.im.f());
        let one = T::of(1.0);
        // What the caller knows by other means when the detector has no answer.
        let fallback = T::of(match self.det % 10 {
            0..=5 => b.atan2(a),
            6 | 7 => if a == 0.0 { sgn(b) * PI / 2.0 } else { (b / a).atan() },
            _ => sgn(a) * sgn(b),
        });
        let show = || format!("{}: {} of ({a:?}, {b:?})", T::NAME, DETS[(self.det % 10) as usize]);
        if let 6 | 7 = self.det % 10 {
            // The caller's own division.
            if a == 0.0 || (b / a).abs() * 1.01 + 4.0 * ulp::<T>() >= max::<T>().min(1e6) {
                return fallback;
            }
            let (q, _, _) = rt::call(BUDGET, || e.im / e.re);
            let Ok(q) = q else { return fallback };
            let r = q.f();
            let (w, tol, fit) = if self.det % 10 == 6 {
                (r.atan(), atan_err::<T>(), atan_fits::<T>(1.0, r))
            } else {
                (r.atan(), poly_err::<T>(1.0 + r * r), 1.3 * (1.0 + r * r) + 8.0 * ulp::<T>() < max::<T>())
            };
            let d = if self.det % 10 == 6 { guarded(fault, || q.mixed_atan()) } else { guarded(fault, || trigonometry::atan::atan(q)) };
            let Some(d) = d else {
                if fit {
                    fail("unexpected-panic", &format!("{} (quotient {r:?}) panics although every value it needs fits", show()));
                }
                stat(St::OVERFLOW);
                return fallback;
            };
            if fit {
                stat(St::CHECKED);
                if !((d.f() - w).abs() <= tol) {
                    fail("wrong-angle", &format!("{} (quotient {r:?}) is {:?}, true is {w:?}, allowed error {tol:e}", show(), d.f()));
                }
            }
            log128(d.en());
            return d;
        }
        let (want, may) = self.want((e.re, e.im));
        let det = self.det % 10;
        let d = guarded(fault, || match det {
            0 => Arg::arg(&e),
            1 => Arg::ang(&e),
            2 => e.im.mixed_atan2(e.re),
            3 => e.to_polar().ang,
            4 => e.im.mixed_atan2_poly(e.re),
            5 => trigonometry::atan::atan2(e.im, e.re),
            8 => e.im * e.re.mixed_sign(),
            _ => e.im * trigonometry::sign(e.re),
        });
        let Some(d) = d else {
            if !may {
                fail("unexpected-panic", &format!("{} panics although every value it needs fits", show()));
            }
            stat(St::OVERFLOW);
            return fallback;
        };
        log128(d.en());
        match want {
            None => {
                stat(St::SKIPPED);
                // Of no use to the caller.
                if !(d.f().abs() <= PI + 0.01) {
                    return fallback;
                }
            }
            Some((w, tol)) => {
                stat(St::CHECKED);
                let off = if det < 6 { turn(d.f() - w) } else { (d.f() - w).abs() };
                if !(off <= tol) {
                    fail("wrong-angle", &format!("{} is {:?}, true is {w:?}, allowed error {tol:e}", show(), d.f()));
                }
                if det < 6 && d.f().abs() > PI + tol {
                    fail("wrong-angle", &format!("{} is {:?}, outside -pi..pi", show(), d.f()));
                }
            }
        }
        if det >= 8 && d.f().abs() > 1.5 { one } else { d }
    }

    /// Error of mixing a sample of size s.
    fn mix_tol(s: f64) -> f64 {
        1.5 * (s * 1.5 * (trig_err::<T>(PI) + 8.0 * T::EPS) + ulp::<T>() * (4.0 + 2.0 * s)) + 4e-15 * s + 1e-40
    }
    /// The sample turned back by the loop's phase.
    fn mixed(&self, z: Cartesian<T>, fault: &mut u64) -> Option<Cartesian<T>> {
        let (th, one, zero) = (self.theta, T::of(1.0), T::de(0));
        let way = self.mixer % 6;
        let e = guarded(fault, || match way {
            0 => z * Polar::new(one, -th),
            1 => {
                let r: Cartesian<T> = Polar::new(one, th).to_cartesian();
                z * <Cartesian<T> as Conj<Cartesian<T>>>::conj(&r)
            }
            2 => {
                let (s, c) = th.mixed_sincos();
                complex::mul_cartesian(z, Cartesian::new(c, zero - s))
            }
            3 => {
                let mut q = z;
                q *= Polar::new(one, -th);
                q
            }
            4 => z * &Polar::new(one, -th),
            _ => {
                let r: Cartesian<T> = <Cartesian<T> as NewFromPolar<T>>::new_from_polar(one, -th);
                r * z
            }
        });
        let (a, b, t) = (z.re.f(), z.im.f(), th.f());
        let s = a.hypot(b);
        let Some(e) = e else {
            if T::KIND == 0 || 2.1 * s + 1.1 + 8.0 * ulp::<T>() < max::<T>() {
                fail("unexpected-panic", &format!("{}: ({a:?}, {b:?}) {} at phase {t:?} panics although every value it needs fits", T::NAME, MIXERS[way as usize]));
            }
            stat(St::OVERFLOW);
            return None;
        };
        stat(St::CHECKED);
        log128(e.re.en());
        log128(e.im.en());
        let w = (a * t.cos() + b * t.sin(), b * t.cos() - a * t.sin());
        let tol = Self::mix_tol(s);
        if !((e.re.f() - w.0).abs() <= tol && (e.im.f() - w.1).abs() <= tol) {
            fail("wrong-mix", &format!("{}: ({a:?}, {b:?}) {} at phase {t:?} is ({:?}, {:?}), true is {w:?}, allowed error {tol:e}", T::NAME, MIXERS[way as usize], e.re.f(), e.im.f()));
        }
        Some(e)
    }
    fn wrap(&self, a: T, fault: &mut u64) -> T {
        let k = self.k;
        match guarded(fault, || if k & 1 == 0 { a.mixed_wrap_phase() } else { trigonometry::wrap_phase(a) }) {
            Some(p) if p.f() >= -PI - 1e-6 - ulp::<T>() && p.f() <= PI + 1e-6 + ulp::<T>() => p,
            Some(p) => fail("out-of-range", &format!("{}: {:?} is wrapped to {:?}", T::NAME, a.f(), p.f())),
            None => fail("unexpected-panic", &format!("{}: wrapping {:?} panics", T::NAME, a.f())),
        }
    }
    fn bit(&self) -> f64 {
        if costas(self.det) && mix(self.data ^ self.k) & 1 == 1 { -1.0 } else { 1.0 }
    }
    /// One sample. Returns the decided symbol times the sent one (0: no decision).
    fn sample(&mut self, amp: f64, fault: &mut u64) -> f64 {
        stat(St::STEPS);
        self.k += 1;
        self.phi = (self.phi + u96(self.step)).rem_euclid(TAU96);
        let p = self.phi as f64 / 2.0f64.powi(96);
        let bit = self.bit();
        let s = amp * self.amp * bit;
        let z = Cartesian::new(T::of(s * p.cos()), T::of(s * p.sin()));
        // The oscillator runs on, whatever the detector says.
        let th = self.theta;
        let om = self.omega;
        let (n, _, _) = rt::call(BUDGET, || th + om);
        let coast = match n {
            Ok(a) => self.wrap(a, fault),
            Err(_) => harness_error("the phase step does not fit"),
        };
        self.theta = coast;
        let Some(e) = self.mixed(z, fault) else { return 0.0 };
        let d = self.detect(e, fault);
        let mut sym = 0.0;
        if e.re.f() != 0.0 {
            let neg = guarded(fault, || e.re.mixed_is_negative());
            let pos = guarded(fault, || e.re.mixed_is_positive());
            if neg != Some(e.re.f() < 0.0) || pos != Some(e.re.f() > 0.0) {
                fail("wrong-sign", &format!("{}: mixed_is_negative of {:?} is {neg:?}, mixed_is_positive {pos:?}", T::NAME, e.re.f()));
            }
            sym = if neg == Some(true) { -bit } else { bit };
        }
        let (kp, ki, wmax, second) = (self.kp, self.ki, self.wmax, self.second);
        let (r, _, _) = rt::call(BUDGET, || {
            let mut o = om;
            if second {
                o = o + ki * d;
                if o > wmax {
                    o = wmax;
                }
                if !(o >= -wmax) {
                    o = -wmax;
                }
            }
            (coast + kp * d, o)
        });
        match r {
            Ok((a, o)) => {
                self.theta = self.wrap(a, fault);
                self.omega = o;
            }
            Err(_) => harness_error("the loop update does not fit"),
        }
        state(mix((self.theta.en() as u64) ^ (T::BITS as u64) << 40 ^ (T::FRAC as u64) << 50 ^ (self.det as u64) << 60));
        sym
    }
    /// The phase the loop is off after a sample, in its own class of equivalent phases.
    fn error(&self) -> f64 {
        let d = apart(self.phi, u96(self.theta));
        if costas(self.det) {
            let d = d.rem_euclid(PI);
            if d > PI / 2.0 { d - PI } else { d }
        } else {
            d
        }
    }
    /// Disturbance per sample of the phase and of the frequency register.
    fn noise(&self) -> (f64, f64) {
        let u = ulp::<T>();
        let ang = 1.5 * (Self::mix_tol(self.amp) * 1.5 + 0.75 * u + 2.0 * T::EPS * self.amp) / self.amp;
        let m2 = (self.amp * 0.9).powi(2);
        let d = match self.det % 10 {
            0..=3 => ang + atan_err::<T>(),
            4 | 5 => ang + poly_err::<T>(m2),
            // The error of the quotient is that of its angle near the lock, and no more elsewhere.
            6 => ang + atan_err::<T>() + 2.0 * u + 2.0 * T::EPS,
            7 => ang + poly_err::<T>(1.0) + 2.0 * u + 2.0 * T::EPS,
            _ => ang * self.amp,
        };
        let r = u + 2.0 * (2.0 * u + 5e-16) + 32.0 * T::EPS;
        (self.kp.f() * d + r, self.ki.f() * d + u + 4.0 * T::EPS)
    }
    fn first_order(&self) -> (u64, f64) {
        let g = match self.det % 10 {
            8 | 9 => 0.6 * self.amp,
            4 | 5 => 0.99,
            _ => 0.6,
        };
        let c: f64 = 1.0 - self.kp.f() * g;
        let tol = 1.5 * self.noise().0 / (1.0 - c) + 1e-13;
        (((0.2 * tol / PI).ln() / c.ln()).ceil().max(1.0) as u64 + 8, tol)
    }
    /// The ideal loop from (e, w): samples until it is locked, the largest phase error on the way, and the bound of
    /// the steady error.
    fn second_order(&self, mut e: f64, mut w: f64) -> (u64, f64, f64) {
        let (kp, ki) = (self.kp.f(), self.ki.f());
        let next = |e: f64, w: f64| {
            // The oscillator first runs by the old frequency, then both are corrected.
            let e1 = e + w;
            (e1 - kp * e1, w - ki * e1)
        };
        let gain = |mut e: f64, mut w: f64| {
            let mut g = 0.0;
            for _ in 0..20_000 {
                g += e.abs();
                (e, w) = next(e, w);
                if e.abs() + w.abs() < 1e-9 {
                    break;
                }
            }
            g
        };
        let (de, dw) = self.noise();
        let tol = 1.3 * (gain(1.0, 0.0) * de + gain(0.0, 1.0) * dw) + 1e-13;
        let mut peak: f64 = 0.0;
        let mut n = 0;
        while n < 20_000 && e.abs() + w.abs() / kp > 0.2 * tol {
            peak = peak.max((e + w).abs());
            (e, w) = next(e, w);
            n += 1;
        }
        (n + 8, peak + tol, tol)
    }
    fn must_lock(&mut self) {
        let (n, tol) = if self.second {
            let lim = match self.det % 10 {
                6 | 7 => 0.85,
                _ => 2.9,
            };
            let w0 = |s: &Self| s.step.f() - s.omega.f();
            let (mut n, mut peak, mut tol) = self.second_order(self.error(), w0(self));
            if peak > lim || self.step.f().abs() + peak * self.ki.f() > self.wmax.f() {
                // Too far off: the caller starts over from a coarse estimate of the frequency and a first look.
                self.omega = self.step;
                for _ in 0..12 {
                    self.kp_only();
                }
                (n, peak, tol) = self.second_order(self.error(), w0(self));
            }
            if peak > lim || self.step.f().abs() + peak * self.ki.f() > self.wmax.f() {
                stat(St::SKIPPED);
                return;
            }
            (n, tol)
        } else {
            self.first_order()
        };
        if n > 1500 || tol > 0.4 {
            stat(St::SKIPPED);
            return;
        }
        for _ in 0..n {
            self.sample(1.0, &mut 0);
        }
        let mut sense = 0.0;
        for i in 0..16 {
            stat(St::CHECKED);
            let e = self.error();
            if !(e.abs() <= tol) {
                fail(
                    "not-locked",
                    &format!("{}: {} samples after the last fault the loop is {e:e} rad off, allowed {tol:e} (detector {}, {} order, gain {:?}, {:?}, amplitude {:?}, step {:?})", T::NAME, n + i, DETS[(self.det % 10) as usize], if self.second { "second" } else { "first" }, self.kp.f(), self.ki.f(), self.amp, self.step.f()),
                );
            }
            let s = self.sample(1.0, &mut 0);
            if s == 0.0 || sense != 0.0 && s != sense || !costas(self.det) && s < 0.0 {
                fail("symbol-error", &format!("{}: {} samples after the last fault a symbol is decided wrongly although the loop is within {tol:e} rad", T::NAME, n + i));
            }
            sense = s;
        }
        stat(St::SETTLED);
    }
    /// A sample without correction of the frequency.
    fn kp_only(&mut self) {
        self.second = false;
        let (kp, cap) = (self.kp, T::of(0.4));
        if max::<T>() > 8.0 && kp < cap {
            self.kp = cap;
        }
        self.sample(1.0, &mut 0);
        self.kp = kp;
        self.second = true;
    }
}

fn track<T: PNum>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let Some(c) = find(p, "loop") else { return };
        let frac = |i: usize| (c.n(i) & 0xffff) as f64 / 65536.0;
        let wide = max::<T>() > 8.0;
        let wlim = if wide { 1.0 } else { 0.2 };
        let kp = T::of(0.05 + frac(0) * if wide { 0.4 } else { 0.12 });
        let mut l = Pll::<T> {
            theta: T::de(0),
            omega: T::de(0),
            kp,
            ki: T::of(kp.f() * kp.f() * (0.1 + 0.3 * frac(1))),
            wmax: T::of(wlim * 1.25),
            det: c.n(4),
            mixer: c.n(5),
            second: c.n(6) & 1 == 1 && c.n(4) % 10 < 8,
            amp: 0.25 + 0.75 * frac(2),
            phi: 0,
            step: T::of((frac(3) - 0.5) * 2.0 * wlim),
            k: 0,
            data: c.n(7) as u64,
        };
        l.omega = if l.second { T::of(l.step.f() * 0.9) } else { l.step };
        let mut saved = (l.theta, l.omega);
        let mut fault = 0;
        for r in p {
            match r.k {
                "run" => {
                    for _ in 0..r.n(0) % 64 {
                        l.sample(1.0, &mut fault);
                    }
                }
                "drop" => {
                    for _ in 0..r.n(0) % 40 {
                        stat(St::DROPOUT);
                        l.sample(0.0, &mut fault);
                    }
                }
                "fade" => {
                    for _ in 0..r.n(0) % 12 {
                        stat(St::DROPOUT);
                        l.sample((r.n(1) & 0xffff) as f64 / 65536.0 * 0.3, &mut fault);
                    }
                }
                "spike" => {
                    stat(St::SPIKE);
                    l.sample(1.0 + (r.n(0) & 0xffff) as f64 / 65536.0 * 5.0, &mut fault);
                }
                "jump" => {
                    stat(St::SPIKE);
                    l.phi = (l.phi + (r.n(0) & 0xffff) as i128 * (TAU96 >> 16)).rem_euclid(TAU96);
                }
                "detune" => {
                    stat(St::DETUNE);
                    l.step = T::of(((r.n(0) & 0xffff) as f64 / 65536.0 - 0.5) * 2.0 * wlim);
                    if !l.second {
                        l.omega = l.step;
                    }
                }
                "flip" | "wild" => {
                    let at = if r.n(0) & 1 == 1 && l.second { l.omega } else { l.theta };
                    let v = if r.k == "flip" { T::de(at.en() ^ 1 << (r.n(1) % T::BITS as u128)) } else { T::de(r.n(1)) };
                    stat(if r.k == "flip" { St::BITFLIP } else { St::WILD });
                    if !v.f().is_finite() {
                        continue;
                    }
                    if r.n(0) & 1 == 1 && l.second {
                        l.omega = T::of(v.f().clamp(-l.wmax.f(), l.wmax.f()));
                    } else {
                        l.theta = l.wrap(v, &mut fault);
                    }
                }
                "save" => saved = (l.theta, l.omega),
                "restore" => {
                    stat(St::RESTORE);
                    l.theta = saved.0;
                    if l.second {
                        l.omega = saved.1;
                    }
                }
                "fault" => fault = r.n(0) as u64 % 64,
                "lock" => l.must_lock(),
                _ => {}
            }
        }
        l.must_lock();
    })]);
}

struct Ty {
    name: &'static str,
    bits: u32,
    gen: fn(&mut Rng, Style) -> u128,
    run: fn(&Plan),
}
macro_rules! tys { ($($t:ident)*) => { const TYS: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, bits: <$t as Elem>::BITS, gen: <$t as Elem>::gen, run: track::<$t> } ),* ]; } }
tys!(f32 f64 SimNum I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61);

pub struct Track;
impl Prop for Track {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn runs(&self) -> (u64, u64) {
        (15_000, 600_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let t = if r.chance(1, 3) { r.below(3) as usize } else { r.below(TYS.len() as u64) as usize };
        let ty = &TYS[t];
        let mut p = vec![rec("type", &[t as u128])];
        let f16 = |r: &mut Rng| r.below(1 << 16) as u128;
        p.push(rec("loop", &[f16(r), f16(r), if r.chance(1, 3) { 0xffff } else { f16(r) }, if r.chance(1, 5) { 0x8000 } else { f16(r) }, r.below(10) as u128, r.below(6) as u128, r.below(2) as u128, r.u64() as u128]));
        let quarter = |r: &mut Rng| if r.chance(1, 3) { (r.below(8) as u128) << 13 } else { r.below(1 << 16) as u128 };
        p.push(rec("jump", &[quarter(r)]));
        for _ in 0..r.range(2, 10) {
            match r.below(14) {
                0 => p.push(rec("drop", &[r.below(40) as u128])),
                1 => p.push(rec("fade", &[r.below(12) as u128, f16(r)])),
                2 => p.push(rec("spike", &[f16(r)])),
                3 | 4 => p.push(rec("jump", &[quarter(r)])),
                5 => p.push(rec("detune", &[f16(r)])),
                6 => p.push(rec("flip", &[r.below(2) as u128, r.below(ty.bits as u64) as u128])),
                7 => p.push(rec("wild", &[r.below(2) as u128, (ty.gen)(r, Style::Wild)])),
                8 => p.push(rec("save", &[])),
                9 => p.push(rec("restore", &[])),
                10 if ty.name == "SimNum" => p.push(rec("fault", &[1 + r.below(14) as u128])),
                11 if r.chance(1, 4) => p.push(rec("lock", &[])),
                _ => p.push(rec("run", &[r.below(40) as u128])),
            }
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (TYS[(find(p, "type").map_or(0, |r| r.n(0)) % TYS.len() as u128) as usize].run)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        match r.k {
            "type" => TYS[(r.n(0) % TYS.len() as u128) as usize].name.to_string(),
            "loop" => format!("detector: {}; mixer: {}; {} order", DETS[(r.n(4) % 10) as usize], MIXERS[(r.n(5) % 6) as usize], if r.n(6) & 1 == 1 && r.n(4) % 10 < 8 { "second" } else { "first" }),
            "drop" => format!("no signal for {} samples", r.n(0) % 40),
            "fade" => format!("weak signal for {} samples", r.n(0) % 12),
            "spike" => "one sample far too strong".into(),
            "jump" => format!("the carrier phase jumps by {:.4} turns", (r.n(0) & 0xffff) as f64 / 65536.0),
            "detune" => "the carrier frequency changes".into(),
            "flip" => format!("bit {} of the {} flips", r.n(1), if r.n(0) & 1 == 1 { "frequency register (of a second-order loop, else the phase)" } else { "phase" }),
            "wild" => "a state register is overwritten".into(),
            "fault" => format!("component operation {} fails, then the call is repeated", r.n(0)),
            "run" => format!("{} samples", r.n(0) % 64),
            "lock" => "the loop must lock now".into(),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::SETTLED as usize] > 0 && r.stats[St::CHECKED as usize] > 20
    }
    fn rule(&self) -> &'static str {
        "each run: a first- or second-order phase-locked or Costas loop in one of 14 component types, with one of ten phase detectors and six mixers of the library, follows a carrier (data-modulated for Costas detectors) through drop-outs, fades, spikes, phase and frequency jumps, flipped or overwritten state registers, save and restore, and component faults; every mixed sample and every detector output is compared with the true one, and after the last fault the loop must lock within a bounded number of samples and decide every symbol correctly. Non-trivial: locked at least once. Distinct: by plan."
    }
    fn stub(&self) -> &'static str {
        "the carrier, the loop filter and state registers of the caller and the component type SimNum are simulated"
    }
}
