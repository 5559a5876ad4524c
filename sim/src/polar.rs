//! C11: histories of registers that move between Cartesian and polar form.
//!
//! Oracle: after each step the represented value is the mathematically defined one, computed in f64 from the register
//! contents before the step, within the accuracy of the component type.

use crate::acc::{self, trig_err, Code, Num, Want};
use crate::elem::*;
use crate::harness::*;
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::{self, SimFault, SimNum};
use mixed_num::*;

const NREG: usize = 4;
const BUDGET: u64 = 20_000_000;

#[derive(Clone, Copy)]
enum Reg<T> {
    C(Cartesian<T>),
    P(Polar<T>),
}
use Reg::*;

/// Angles up to here are judged.
const FAR: f64 = 1000.0;

pub fn ulp<T: Elem>() -> f64 {
    if T::KIND == 0 { 0.0 } else { T::ulp() }
}
pub fn max<T: Elem>() -> f64 {
    if T::KIND == 0 {
        if T::BITS == 32 { 1e15 } else { 1e150 }
    } else {
        T::max_raw() as f64 * T::ulp()
    }
}
/// Smallest magnitude of floats whose square is still accurate.
pub fn small<T: Elem>() -> f64 {
    if T::KIND != 0 {
        0.0
    } else if T::BITS == 32 {
        1e-15
    } else {
        1e-150
    }
}
fn vals<T: Elem>(r: &Reg<T>) -> (T, T) {
    match r {
        C(z) => (z.re, z.im),
        P(p) => (p.mag, p.ang),
    }
}
fn show<T: Elem>(r: &Reg<T>) -> String {
    let (a, b) = vals(r);
    match r {
        C(_) => format!("{:?}{:+?}i (0x{:x}, 0x{:x})", a.f(), b.f(), a.en(), b.en()),
        P(_) => format!("{:?} at {:?} rad (0x{:x}, 0x{:x})", a.f(), b.f(), a.en(), b.en()),
    }
}
fn far<T: Elem>(r: &Reg<T>) -> f64 {
    match r {
        P(p) if p.ang.f().is_finite() => p.ang.f().abs().min(FAR),
        _ => 0.0,
    }
}
fn same<T: Elem>(a: &Reg<T>, b: &Reg<T>) -> bool {
    matches!((a, b), (C(_), C(_)) | (P(_), P(_))) && vals(a).0.en() == vals(b).0.en() && vals(a).1.en() == vals(b).1.en()
}
/// The represented number; None when it is not finite or too far to be judged.
fn value<T: Elem>(r: &Reg<T>) -> Option<(f64, f64)> {
    let (a, b) = (vals(r).0.f(), vals(r).1.f());
    if !a.is_finite() || !b.is_finite() {
        return None;
    }
    match r {
        C(_) => Some((a, b)),
        P(_) if b.abs() <= FAR => Some((a * b.cos(), a * b.sin())),
        _ => None,
    }
}

/// What may come out of a step.
struct Spec {
    /// The number, and the error allowed; None: not judged.
    want: Option<((f64, f64), f64)>,
    /// A panic is within the specification.
    panic_ok: bool,
}
const ANY: Spec = Spec { want: None, panic_ok: true };

/// Error of the angle of a number computed by the type.
pub fn atan_err<T: Elem>() -> f64 {
    if T::KIND == 0 { 8.0 * T::EPS } else { (T::FRAC as f64 + 12.0) * T::ulp() + 1e-15 }
}
/// Error of a magnitude computed by the type.
pub fn mag_err<T: Elem>(m: f64) -> f64 {
    if T::KIND == 0 {
        return m * 8.0 * T::EPS + small::<T>();
    }
    // The squares are off by up to a step each, the root by 1e-3 and a few steps of its own.
    let u = T::ulp();
    let sq = ((m * m + 3.0 * u).sqrt() - m).max(m - (m * m - 3.0 * u).max(0.0).sqrt());
    sq + 1.05e-3 * (m + sq) + 5.0 * u * (1.0 + m)
}
/// Whether the magnitude of (re, im) is in the range where it must be computable.
pub fn mag_fits<T: Elem>(a: f64, b: f64) -> bool {
    a * a + b * b + 4.0 * ulp::<T>() < max::<T>() * if T::KIND == 0 { max::<T>() } else { 1.0 }
}
pub fn atan_fits<T: Elem>(a: f64, b: f64) -> bool {
    T::KIND == 0 || a == 0.0 || b == 0.0 || {
        let q = (b / a).abs();
        // The rotation lengthens the vector by 1.65.
        1.7 * (1.0 + q * q).sqrt() + 4.0 * ulp::<T>() < max::<T>() && a.abs().max(b.abs()) < max::<T>()
    }
}
fn judged<T: Elem>() -> bool {
    T::KIND == 0 || T::FRAC >= 6
}
/// Conversion of re + i*im to polar form.
fn to_polar_spec<T: Elem>(a: f64, b: f64) -> Spec {
    if !judged::<T>() || !a.is_finite() || !b.is_finite() {
        return Spec { want: None, panic_ok: T::KIND != 0 };
    }
    let m = a.hypot(b);
    if T::KIND == 0 && (m > max::<T>() || m < small::<T>() && m > 0.0) {
        return Spec { want: None, panic_ok: false };
    }
    let ok = mag_fits::<T>(a, b) && atan_fits::<T>(a, b);
    let e = mag_err::<T>(m) + (m + mag_err::<T>(m)) * atan_err::<T>();
    Spec { want: Some(((a, b), e)), panic_ok: !ok }
}
/// Conversion of a polar number to Cartesian form.
fn to_cart_spec<T: Elem>(m: f64, p: f64) -> Spec {
    if !judged::<T>() || !m.is_finite() || !p.is_finite() || p.abs() > FAR {
        return Spec { want: None, panic_ok: T::KIND != 0 };
    }
    let turns = (p.abs() / std::f64::consts::TAU).ceil();
    let e = trig_err::<T>(p) + if T::KIND == 0 { 0.0 } else { turns * (2.0 * T::ulp() + 5e-16) };
    let tol = m.abs() * (e + 1e-15 + 2.0 * T::EPS) * 1.5 + 2.0 * ulp::<T>() + if T::KIND == 0 { 1e-44 } else { 0.0 };
    if T::KIND == 0 && m.abs() > max::<T>() {
        return Spec { want: None, panic_ok: false };
    }
    Spec { want: Some(((m * p.cos(), m * p.sin()), tol)), panic_ok: T::KIND != 0 && m.abs() * (1.0 + e) + tol >= max::<T>() }
}

pub trait Pow: Sized {
    const HAS: bool = false;
    fn pow(_z: Cartesian<Self>, _n: usize) -> Option<Cartesian<Self>> {
        None
    }
}
macro_rules! pow_fixed { ($($t:ident)*) => { $( impl Pow for $t {
    const HAS: bool = true;
    fn pow(z: Cartesian<Self>, n: usize) -> Option<Cartesian<Self>> {
        Some(complex::powi(z, n))
    }
} )* } }
pow_fixed!(I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);
impl Pow for f32 {}
impl Pow for f64 {}
impl Pow for SimNum {}

pub trait PNum: Num + Pow + Trig {}
impl<T: Num + Pow + Trig> PNum for T {}

const OPS: &[&str] = &[
    "to polar form", "to Cartesian form", "times", "times real", "by real", "conjugate", "magnitude", "argument", "conjugate in the other form", "power", "replaced by the complex of a real", "absolute value",
];

enum Out<T> {
    Reg(Reg<T>),
    Real(T),
}

/// The library's answer, on real code.
fn apply<T: PNum>(op: usize, way: u128, x: Reg<T>, y: Reg<T>, s: T) -> Option<Out<T>> {
    Some(Out::Reg(match (op, x, y) {
        (0, C(z), _) => P(match way % 3 {
            0 => z.to_polar(),
            1 => complex::to_polar(z),
            _ => <Polar<T> as NewFromCartesian<T>>::new_from_cartesian(z.re, z.im),
        }),
        (0, P(p), _) => P(match way % 2 {
            0 => p.to_polar(),
            _ => <Polar<T> as NewFromPolar<T>>::new_from_polar(p.mag, p.ang),
        }),
        (1, P(p), _) => C(match way % 3 {
            0 => p.to_cartesian(),
            1 => complex::to_cartesian(p),
            _ => <Cartesian<T> as NewFromPolar<T>>::new_from_polar(p.mag, p.ang),
        }),
        (1, C(z), _) => C(match way % 2 {
            0 => z.to_cartesian(),
            _ => <Cartesian<T> as NewFromCartesian<T>>::new_from_cartesian(z.re, z.im),
        }),
        (2, P(p), P(q)) => P(match way % 2 {
            0 => p * q,
            _ => complex::mul_polar(p, q),
        }),
        (2, C(z), C(w)) => C(match way % 3 {
            0 => z * w,
            1 => z * &w,
            _ => complex::mul_cartesian(z, w),
        }),
        (2, C(z), P(q)) => {
            let kinds = [acc::POWN, acc::PREF, acc::PMUT];
            let c = Code::fix(acc::MUL as u128, kinds[(way % 3) as usize] as u128, way / 3 % 2, 0, true);
            let (mut z, mut q) = (z, q);
            T::mul_polar(c, &mut z, &mut q);
            C(z)
        }
        (2, P(p), C(w)) => C(w * p),
        (3, P(p), _) => P(p * s),
        (3, C(z), _) => C(Cartesian::new(z.re * s, z.im * s)),
        (4, P(p), _) => P(p / s),
        (4, C(z), _) => C(complex::div_scalar_cartesian(z, s)),
        (5, C(z), _) => C(<Cartesian<T> as Conj<Cartesian<T>>>::conj(&z)),
        (5, P(p), _) => P(<Polar<T> as Conj<Polar<T>>>::conj(&p)),
        (6, C(z), _) => {
            return Some(Out::Real(match way % 3 {
                0 => Mag::mag(&z),
                1 => Mag::abs(&z),
                _ => complex::abs(z),
            }))
        }
        (6, P(p), _) => return Some(Out::Real(if way % 2 == 0 { Mag::mag(&p) } else { Mag::abs(&p) })),
        (7, C(z), _) => return Some(Out::Real(if way % 2 == 0 { Arg::arg(&z) } else { Arg::ang(&z) })),
        (7, P(p), _) => return Some(Out::Real(if way % 2 == 0 { Arg::arg(&p) } else { Arg::ang(&p) })),
        (8, C(z), _) => P(<Cartesian<T> as Conj<Polar<T>>>::conj(&z)),
        (8, P(p), _) => C(<Polar<T> as Conj<Cartesian<T>>>::conj(&p)),
        (9, C(z), _) => C(T::pow(z, (way % 5) as usize)?),
        (9, P(_), _) => return None,
        (10, C(_), _) => C(<Cartesian<T> as MixedComplexConversion<T>>::mixed_to_complex(s)),
        (10, P(_), _) => P(<Polar<T> as MixedComplexConversion<T>>::mixed_to_complex(s)),
        (_, C(z), _) => C(z.mixed_abs()),
        (_, P(p), _) => P(p.mixed_abs()),
    }))
}

/// What the step is defined to give.
fn spec<T: PNum>(op: usize, way: u128, x: &Reg<T>, y: &Reg<T>, s: T) -> Spec {
    let u = ulp::<T>();
    let (a, b) = (vals(x).0.f(), vals(x).1.f());
    let sf = s.f();
    let fin = [a, b, vals(y).0.f(), vals(y).1.f(), sf].iter().all(|v| v.is_finite());
    let lost = Spec { want: None, panic_ok: T::KIND != 0 };
    let lim = max::<T>();
    // Floats must not underflow or overflow on the way.
    let tiny = if T::KIND == 0 { 4.0 * small::<T>() * small::<T>().max(1e-30) } else { 0.0 };
    match (op, x, y) {
        (0, C(_), _) => to_polar_spec::<T>(a, b),
        (1, P(_), _) => to_cart_spec::<T>(a, b),
        (0, P(_), _) | (1, C(_), _) => match value(x) {
            Some(v) => Spec { want: Some((v, 0.0)), panic_ok: false },
            None => Spec { want: None, panic_ok: false },
        },
        (2, P(p), P(q)) => {
            if !fin {
                return lost;
            }
            if p.mag.f() == 0.0 || q.mag.f() == 0.0 {
                return Spec { want: Some(((0.0, 0.0), 0.0)), panic_ok: false };
            }
            let m = (p.mag.f() * q.mag.f()).abs();
            let ang = p.ang.f() + q.ang.f();
            if T::KIND == 0 && (m > lim || m < small::<T>()) || [ang, p.ang.f(), q.ang.f()].iter().any(|v| v.abs() > FAR) {
                return lost;
            }
            let tol = m * (4.0 * T::EPS + 2.0 * T::EPS * (p.ang.f().abs() + q.ang.f().abs()) + 4e-15) + u;
            let fit = T::KIND == 0 || m + 2.0 * u < lim && T::unraw(p.ang.raw() + q.ang.raw()).is_some();
            let m = p.mag.f() * q.mag.f();
            Spec { want: Some(((m * ang.cos(), m * ang.sin()), tol)), panic_ok: !fit }
        }
        (2, C(_), C(_)) => {
            let r = acc::reference::<T>(Code::fix(acc::MUL as u128, acc::OWN as u128, 0, 0, false), vals(x), vals(y), 0);
            from_ref::<T>(r)
        }
        (2, C(_), P(_)) => from_ref::<T>(acc::reference::<T>(Code::fix(acc::MUL as u128, acc::POWN as u128, 0, 0, true), vals(x), vals(y), 0)),
        (2, P(_), C(_)) => from_ref::<T>(acc::reference::<T>(Code::fix(acc::MUL as u128, acc::POWN as u128, 0, 0, true), vals(y), vals(x), 0)),
        (3, _, _) | (4, _, _) => {
            if !fin {
                return lost;
            }
            if op == 4 && sf == 0.0 {
                // Saturates; judged apart.
                return Spec { want: None, panic_ok: false };
            }
            let k = if op == 3 { sf } else { 1.0 / sf };
            let big = if matches!(x, P(_)) { a.abs() } else { a.abs().max(b.abs()) };
            if T::KIND == 0 && (big * k.abs() > lim || k.abs() > lim || big > lim || (big * k.abs()) < small::<T>() && big > 0.0) {
                return lost;
            }
            let Some(v) = value(x) else { return lost };
            Spec { want: Some(((v.0 * k, v.1 * k), big * k.abs() * (4.0 * T::EPS + 4e-15) + 1.5 * u + tiny)), panic_ok: T::KIND != 0 && big * k.abs() + 2.0 * u >= lim }
        }
        (5, _, _) => {
            // Negation of the most negative value does not fit.
            let fit = T::KIND == 0 || vals(x).1.raw() != T::min_raw();
            match value(x) {
                Some(v) => Spec { want: Some(((v.0, -v.1), 0.0)), panic_ok: !fit },
                None => lost,
            }
        }
        (8, C(_), _) => {
            let fit = T::KIND == 0 || vals(x).1.raw() != T::min_raw();
            let s = to_polar_spec::<T>(a, -b);
            Spec { panic_ok: s.panic_ok || !fit, ..s }
        }
        (8, P(_), _) => {
            let fit = T::KIND == 0 || vals(x).1.raw() != T::min_raw();
            let s = to_cart_spec::<T>(a, -b);
            Spec { panic_ok: s.panic_ok || !fit, ..s }
        }
        (9, C(_), _) => {
            let n = (way % 5) as i32;
            let m = a.hypot(b);
            // The power of the magnitude, the multiplied angle and the result must fit.
            if !<T as Pow>::HAS || !judged::<T>() || m > 8.0 || T::FRAC < 12 {
                return ANY;
            }
            let sp = to_polar_spec::<T>(a, b);
            let me = m + mag_err::<T>(m);
            let pn = me.powi(n);
            let dn = pn - m.powi(n);
            if sp.panic_ok || pn * 1.01 >= lim || (n as f64) * 3.2 >= lim || (n as f64 + 1.0) >= lim {
                return ANY;
            }
            let th = b.atan2(a) * n as f64;
            let e = dn + pn * (n as f64 * atan_err::<T>() + trig_err::<T>(th) + 4.0 * u) + (n as f64 + 2.0) * u * (1.0 + me).powi(n);
            Spec { want: Some(((m.powi(n) * th.cos(), m.powi(n) * th.sin()), e)), panic_ok: false }
        }
        (10, _, _) => Spec { want: sf.is_finite().then_some(((sf, 0.0), 0.0)), panic_ok: false },
        (11, C(_), _) => {
            if !judged::<T>() || !fin {
                return lost;
            }
            let m = a.hypot(b);
            if T::KIND == 0 && (m > lim || m < small::<T>() && m > 0.0) {
                return lost;
            }
            Spec { want: Some(((m, 0.0), mag_err::<T>(m))), panic_ok: !mag_fits::<T>(a, b) }
        }
        (11, P(_), _) => Spec { want: fin.then_some(((a, 0.0), 0.0)), panic_ok: false },
        _ => ANY,
    }
}
fn from_ref<T: Elem>(r: acc::Ref) -> Spec {
    let mut v = [0.0; 2];
    let mut tol: f64 = 0.0;
    for i in 0..2 {
        match r.w[i] {
            Want::Any => return Spec { want: None, panic_ok: r.panic_ok },
            Want::Raw(lo, hi) => {
                v[i] = (lo as f64 + hi as f64) * 0.5 * T::ulp();
                tol += ((hi as f64 - lo as f64) * 0.5 + 0.01) * T::ulp() + v[i].abs() * 1e-15;
            }
            Want::Flt(x, t) => {
                v[i] = x;
                tol += t;
            }
            Want::Bits(b) => {
                v[i] = T::de(b).f();
                if !v[i].is_finite() {
                    return Spec { want: None, panic_ok: r.panic_ok };
                }
            }
        }
    }
    Spec { want: Some(((v[0], v[1]), tol)), panic_ok: r.panic_ok }
}

fn attempt<T: PNum>(op: usize, way: u128, x: Reg<T>, y: Reg<T>, s: T, fault: u64) -> Result<Option<Out<T>>, bool> {
    simnum::plan_fault(fault);
    let (r, t, _) = rt::call(BUDGET, || apply::<T>(op, way, x, y, s));
    simnum::plan_fault(0);
    stat(St::CALLS);
    log(t);
    match r {
        Ok(v) => Ok(v),
        Err(e) if e.is::<SimFault>() => {
            stat(St::SIMFAULT);
            Err(true)
        }
        Err(_) => {
            stat(St::PANICS);
            Err(false)
        }
    }
}

fn real_checks<T: PNum>(op: usize, x: &Reg<T>, g: T, what: &dyn Fn() -> String) {
    let (a, b) = (vals(x).0, vals(x).1);
    log128(g.en());
    if let P(_) = x {
        let w = if op == 6 { a } else { b };
        if g.en() != w.en() {
            fail("wrong-part", &format!("{} gives {:?} instead of the stored {:?}", what(), g.f(), w.f()));
        }
        return;
    }
    let (a, b) = (a.f(), b.f());
    let m = a.hypot(b);
    if !judged::<T>() || !m.is_finite() || T::KIND == 0 && (m > max::<T>() || m < small::<T>() && m > 0.0) {
        stat(St::SKIPPED);
        return;
    }
    if op == 6 {
        let e = mag_err::<T>(m);
        if !((g.f() - m).abs() <= e) {
            fail("wrong-magnitude", &format!("{} gives {:?}, true is {m:?}, allowed error {e:e}", what(), g.f()));
        }
    } else if m > 0.0 {
        // Angles are compared modulo a turn: +pi and -pi are the same direction.
        let d = (g.f() - b.atan2(a)).rem_euclid(std::f64::consts::TAU);
        let d = d.min(std::f64::consts::TAU - d);
        let e = atan_err::<T>();
        if !(d <= e) {
            fail("wrong-argument", &format!("{} gives {:?}, true is {:?}, allowed error {e:e}", what(), g.f(), b.atan2(a)));
        }
        if g.f().abs() > std::f64::consts::PI + e {
            fail("wrong-argument", &format!("{} gives {:?}, outside -pi..pi", what(), g.f()));
        }
    }
}

fn history<T: PNum>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let zero = C(Cartesian::new(T::de(0), T::de(0)));
        let mut regs = [zero; NREG];
        let mut saved = regs;
        for r in p {
            let t = (r.n(0) % NREG as u128) as usize;
            match r.k {
                "set" => {
                    let (a, b) = (T::de(r.n(2)), T::de(r.n(3)));
                    regs[t] = if r.n(1) & 1 == 0 { C(Cartesian::new(a, b)) } else { P(Polar::new(a, b)) };
                }
                "drop" => {
                    // The signal drops out: a zero sample, in either form, the angle left as it was.
                    stat(St::DROPOUT);
                    regs[t] = match (regs[t], r.n(1) & 1) {
                        (C(_), 0) => zero,
                        (P(q), 0) => P(Polar::new(T::de(0), q.ang)),
                        (_, _) => P(<Polar<T> as MixedZero>::mixed_zero()),
                    };
                }
                "flip" => {
                    stat(St::BITFLIP);
                    let m = 1u128 << (r.n(2) % T::BITS as u128);
                    let (mut a, mut b) = vals(&regs[t]);
                    if r.n(1) & 1 == 0 {
                        a = T::de(a.en() ^ m);
                    } else {
                        b = T::de(b.en() ^ m);
                    }
                    regs[t] = match regs[t] {
                        C(_) => C(Cartesian::new(a, b)),
                        P(_) => P(Polar::new(a, b)),
                    };
                }
                "save" => saved = regs,
                "restore" => {
                    stat(St::RESTORE);
                    regs = saved;
                }
                "step" => {
                    let op = (r.n(1) % OPS.len() as u128) as usize;
                    let way = r.n(2);
                    let (x, y) = (regs[t], regs[(r.n(3) % NREG as u128) as usize]);
                    let s = T::de(r.n(4));
                    stat(St::STEPS);
                    let what = || format!("{}: {} {} {}", T::NAME, show(&x), OPS[op], match op { 2 => show(&y), 3 | 4 | 10 => format!("{:?} (0x{:x})", s.f(), s.en()), _ => String::new() });
                    let sp = spec::<T>(op, way, &x, &y, s);
                    let mut res = attempt::<T>(op, way, x, y, s, r.n(5) as u64);
                    if res.as_ref().err() == Some(&true) {
                        // A component operation failed: the caller repeats the step.
                        stat(St::RETRY);
                        res = attempt::<T>(op, way, x, y, s, 0);
                    }
                    match res {
                        Err(_) => {
                            stat(St::OVERFLOW);
                            let partial = match op {
                                6 => !mag_fits::<T>(vals(&x).0.f(), vals(&x).1.f()) || !judged::<T>(),
                                7 => !atan_fits::<T>(vals(&x).0.f(), vals(&x).1.f()) || !judged::<T>(),
                                _ => sp.panic_ok,
                            };
                            if !partial || (matches!(x, P(_)) && (op == 6 || op == 7)) {
                                fail("unexpected-panic", &format!("{} panics although every value it needs fits", what()));
                            }
                        }
                        Ok(None) => stat(St::SKIPPED),
                        Ok(Some(Out::Real(g))) => {
                            stat(St::CHECKED);
                            real_checks::<T>(op, &x, g, &what);
                        }
                        Ok(Some(Out::Reg(n))) => {
                            log128(vals(&n).0.en());
                            log128(vals(&n).1.en());
                            if matches!((op, &x), (0, P(_)) | (1, C(_))) && !same(&x, &n) {
                                fail("changed-by-identity", &format!("{} leaves {}", what(), show(&n)));
                            }
                            if op == 4 && s.f() == 0.0 {
                                let full = |v: T| if T::KIND == 0 { v.f() == (if T::BITS == 32 { f32::MAX as f64 } else { f64::MAX }) } else { v.raw() == T::max_raw() };
                                let (a, b) = vals(&n);
                                let ok = match x {
                                    P(q) => full(a) && (b.en() == q.ang.en()),
                                    C(_) => full(a) && full(b),
                                };
                                stat(St::CHECKED);
                                if !ok {
                                    fail("wrong-saturation", &format!("{} leaves {}", what(), show(&n)));
                                }
                            }
                            match sp.want {
                                None => stat(St::SKIPPED),
                                Some((w, tol)) => {
                                    stat(St::CHECKED);
                                    let ok = match value(&n) {
                                        // The angles of 64 bit types are rounded when they are taken as f64.
                                        Some(v) => (v.0 - w.0).hypot(v.1 - w.1) <= tol * 1.0001 + (w.0.abs() + w.1.abs()) * 4e-16 * (4.0 + far(&x) + far(&y) + far(&n)),
                                        None => false,
                                    };
                                    if !ok {
                                        fail("wrong-value", &format!("{} leaves {}, which is {:?}; defined is {w:?}, allowed error {tol:e}", what(), show(&n), value(&n)));
                                    }
                                }
                            }
                            state(mix((vals(&n).0.en() as u64) ^ (op as u64) << 48 ^ (T::FRAC as u64) << 56));
                            regs[t] = n;
                        }
                    }
                }
                _ => {}
            }
        }
    })]);
}

struct Ty {
    name: &'static str,
    bits: u32,
    frac: i32,
    gen: fn(&mut Rng, Style) -> u128,
    of: fn(f64) -> u128,
    run: fn(&Plan),
}
fn of<T: Elem>(x: f64) -> u128 {
    T::of(x).en()
}
macro_rules! tys { ($($t:ident)*) => { const TYS: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, bits: <$t as Elem>::BITS, frac: <$t as Elem>::FRAC, gen: <$t as Elem>::gen, of: of::<$t>, run: history::<$t> } ),* ]; } }
tys!(f32 f64 SimNum I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);

/// A component whose square and product usually fit.
fn comp(ty: &Ty, r: &mut Rng) -> u128 {
    let lim = if ty.frac < 0 { 1e4 } else { 2.0f64.powi(ty.bits as i32 - 1 - ty.frac).sqrt() * 0.7 };
    let x = match r.below(8) {
        0 => 0.0,
        1 => *r.pick(&[1.0, -1.0, 0.5, -0.5]),
        2 => (r.f64() - 0.5) * 2.0 * lim,
        3 => (r.f64() - 0.5) * 0.01,
        _ => (r.f64() - 0.5) * 2.0 * lim.min(2.0),
    };
    (ty.of)(x)
}
fn angle(ty: &Ty, r: &mut Rng) -> u128 {
    let pi = std::f64::consts::PI;
    match r.below(8) {
        0 => {
            let b = (ty.of)(pi * r.range(-8, 8) as f64 / 4.0);
            let m = u128::MAX >> (128 - ty.bits);
            b.wrapping_add(r.range(-2, 2) as i128 as u128) & m
        }
        1 => (ty.of)((r.f64() - 0.5) * 40.0),
        2 => 0,
        _ => (ty.of)((r.f64() - 0.5) * 2.0 * pi),
    }
}

pub struct Forms;
impl Prop for Forms {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn runs(&self) -> (u64, u64) {
        (120_000, 3_000_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let t = if r.chance(1, 3) { r.below(3) as usize } else { r.below(TYS.len() as u64) as usize };
        let ty = &TYS[t];
        let mut p = vec![rec("type", &[t as u128])];
        let set = |p: &mut Plan, r: &mut Rng, k: u128| {
            let form = r.below(2) as u128;
            let wild = r.chance(1, 10);
            let (a, b) = if wild {
                ((ty.gen)(r, Style::Wild), (ty.gen)(r, Style::Wild))
            } else if form == 0 {
                (comp(ty, r), comp(ty, r))
            } else {
                (comp(ty, r), angle(ty, r))
            };
            p.push(rec("set", &[k, form, a, b]));
        };
        for k in 0..NREG {
            set(&mut p, r, k as u128);
        }
        for _ in 0..r.range(5, 40) {
            let k = r.below(NREG as u64) as u128;
            match r.below(24) {
                0 => p.push(rec("drop", &[k, r.below(2) as u128])),
                1 => p.push(rec("flip", &[k, r.below(2) as u128, r.below(ty.bits as u64) as u128])),
                2 => p.push(rec("save", &[])),
                3 => p.push(rec("restore", &[])),
                4..=7 => set(&mut p, r, k),
                _ => {
                    let op = *r.pick(&[0u128, 0, 0, 1, 1, 1, 2, 2, 2, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11]);
                    let s = if op == 4 && r.chance(1, 3) { 0 } else { comp(ty, r) };
                    let fault = if ty.name == "SimNum" && r.chance(1, 4) { 1 + r.below(10) as u128 } else { 0 };
                    p.push(rec("step", &[k, op, r.below(60) as u128, r.below(NREG as u64) as u128, s, fault]))
                }
            }
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (TYS[(find(p, "type").map_or(0, |r| r.n(0)) % TYS.len() as u128) as usize].run)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        match r.k {
            "type" => TYS[(r.n(0) % TYS.len() as u128) as usize].name.to_string(),
            "set" => format!("register {} in {} form", r.n(0) % 4, if r.n(1) & 1 == 0 { "Cartesian" } else { "polar" }),
            "drop" => format!("register {} drops out", r.n(0) % 4),
            "flip" => format!("register {}, component {}, bit {} flips", r.n(0) % 4, r.n(1) & 1, r.n(2)),
            "step" => format!(
                "register {} {}{}{}",
                r.n(0) % 4,
                OPS[(r.n(1) % OPS.len() as u128) as usize],
                if r.n(1) % OPS.len() as u128 == 2 { format!(" register {}", r.n(3) % 4) } else { String::new() },
                if r.n(5) > 0 { format!(", component operation {} fails, then repeated", r.n(5)) } else { String::new() }
            ),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::CHECKED as usize] > 2
    }
    fn rule(&self) -> &'static str {
        "each run: 5-40 steps on four registers of one of 20 component types, each in Cartesian or polar form; a step converts, multiplies (all four combinations of forms), scales, divides, conjugates within or across forms, raises to a power or takes magnitude or argument, through every entry point the library has for it; between steps registers drop out, are corrupted, saved, restored and set; SimNum steps fail at a component operation and are repeated. Non-trivial: at least three outcomes were compared. Distinct: by plan."
    }
    fn stub(&self) -> &'static str {
        "the register file of the caller and the component type SimNum are simulated"
    }
}
