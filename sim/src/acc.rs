//! C04, C05: histories of complex arithmetic on Cartesian registers, and updates cut short by an arithmetic fault.
//!
//! Oracle for one step: what the operation is defined to give, computed from the register contents before the step
//! in exact integer arithmetic (integers, fixed point) or in f64 with an error bound (floats).

use crate::elem::*;
use crate::harness::*;
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::{self, SimNum};
use mixed_num::*;

pub const ADD: u8 = 0;
pub const SUB: u8 = 1;
pub const MUL: u8 = 2;
pub const DIV: u8 = 3;
/// Kinds of right-hand side.
pub const OWN: u8 = 0;
pub const REF: u8 = 1;
pub const MUT: u8 = 2;
pub const NOWN: u8 = 3;
pub const NREF: u8 = 4;
pub const NMUT: u8 = 5;
pub const FREE: u8 = 6;
pub const REAL: u8 = 7;
pub const POWN: u8 = 8;
pub const PREF: u8 = 9;
pub const PMUT: u8 = 10;
pub const FREE_S: u8 = 11;
pub const NKINDS: u8 = 12;
/// Primitive types of real right-hand sides; the first 8 are signed.
pub const PRIMS: &[&str] = &["f32", "f64", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"];

#[derive(Clone, Copy, Debug)]
pub struct Code {
    pub op: u8,
    pub kind: u8,
    pub assign: bool,
    /// Index into PRIMS, for REAL.
    pub prim: u8,
}
impl Code {
    /// Maps any numbers to an operation that exists.
    pub fn fix(op: u128, kind: u128, assign: u128, prim: u128, polar: bool) -> Code {
        let mut c = Code { op: (op % 4) as u8, kind: (kind % NKINDS as u128) as u8, assign: assign & 1 == 1, prim: (prim % 14) as u8 };
        if (POWN..=PMUT).contains(&c.kind) && !polar {
            c.kind -= POWN;
        }
        if (POWN..=PMUT).contains(&c.kind) {
            c.op = MUL;
        }
        if c.kind == FREE_S {
            c.op = DIV;
            c.assign = false;
        }
        if c.kind == FREE {
            c.assign = false;
        }
        if c.op == MUL {
            if (NOWN..=NMUT).contains(&c.kind) {
                c.kind -= NOWN;
            }
            if c.kind < POWN {
                c.assign = false;
            }
        }
        if c.kind == REAL && c.op == DIV {
            c.prim %= 8;
        }
        c
    }
    pub fn show(&self) -> String {
        let k = ["Cartesian", "&Cartesian", "&mut Cartesian", "Complex", "&Complex", "&mut Complex", "ops:: function", "real", "Polar", "&Polar", "&mut Polar", "ops:: scalar function"];
        let o = ["+", "-", "*", "/"];
        format!("{}{} {}{}", o[self.op as usize], if self.assign { "=" } else { "" }, k[self.kind as usize], if self.kind == REAL { format!(" {}", PRIMS[self.prim as usize]) } else { String::new() })
    }
}

/// Multiplication by a Polar, where the type has trigonometry.
pub trait Pol: Elem {
    const HAS: bool;
    fn mul_polar(c: Code, x: &mut Cartesian<Self>, y: &mut Polar<Self>);
}
macro_rules! pol {
    ($($t:ident)*) => { $( impl Pol for $t {
        const HAS: bool = true;
        fn mul_polar(c: Code, x: &mut Cartesian<Self>, y: &mut Polar<Self>) {
            match (c.kind, c.assign) {
                (POWN, false) => *x = *x * *y,
                (PREF, false) => *x = *x * &*y,
                (PMUT, false) => *x = *x * &mut *y,
                (POWN, true) => *x *= *y,
                (PREF, true) => *x *= &*y,
                _ => *x *= &mut *y,
            }
        }
    } )* };
}
macro_rules! nopol { ($($t:ident)*) => { $( impl Pol for $t { const HAS: bool = false; fn mul_polar(_: Code, _: &mut Cartesian<Self>, _: &mut Polar<Self>) {} } )* } }
pol!(f32 f64 SimNum I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);
nopol!(i8 i16 i32 i64 i128 isize);

macro_rules! real_all {
    ($c:expr, $b:expr, $v:ident => $e:expr) => {
        match $c.prim {
            0 => { let $v = f32::de($b); $e }
            1 => { let $v = f64::de($b); $e }
            2 => { let $v = i8::de($b); $e }
            3 => { let $v = i16::de($b); $e }
            4 => { let $v = i32::de($b); $e }
            5 => { let $v = i64::de($b); $e }
            6 => { let $v = i128::de($b); $e }
            7 => { let $v = isize::de($b); $e }
            8 => { let $v = u8::de($b); $e }
            9 => { let $v = u16::de($b); $e }
            10 => { let $v = u32::de($b); $e }
            11 => { let $v = u64::de($b); $e }
            12 => { let $v = u128::de($b); $e }
            _ => { let $v = usize::de($b); $e }
        }
    };
}
macro_rules! real_signed {
    ($c:expr, $b:expr, $v:ident => $e:expr) => {
        match $c.prim {
            0 => { let $v = f32::de($b); $e }
            1 => { let $v = f64::de($b); $e }
            2 => { let $v = i8::de($b); $e }
            3 => { let $v = i16::de($b); $e }
            4 => { let $v = i32::de($b); $e }
            5 => { let $v = i64::de($b); $e }
            6 => { let $v = i128::de($b); $e }
            _ => { let $v = isize::de($b); $e }
        }
    };
}
/// The primitive behind the bits; None for u128 values beyond i128.
pub fn prim(c: Code, b: u128) -> Option<Prim> {
    Some(match c.prim {
        0 => Prim::F(f32::de(b) as f64),
        1 => Prim::F(f64::de(b)),
        2 => Prim::I(i8::de(b) as i128),
        3 => Prim::I(i16::de(b) as i128),
        4 => Prim::I(i32::de(b) as i128),
        5 | 7 => Prim::I(i64::de(b) as i128),
        6 => Prim::I(b as i128),
        8 => Prim::I(u8::de(b) as i128),
        9 => Prim::I(u16::de(b) as i128),
        10 => Prim::I(u32::de(b) as i128),
        11 | 13 => Prim::I(u64::de(b) as i128),
        _ => Prim::I(i128::try_from(b).ok()?),
    })
}
pub fn gen_prim(p: u8, r: &mut Rng, s: Style) -> u128 {
    let f: fn(&mut Rng, Style) -> u128 = match p % 14 {
        0 => f32::gen,
        1 => f64::gen,
        2 => i8::gen,
        3 => i16::gen,
        4 => i32::gen,
        5 => i64::gen,
        6 => i128::gen,
        7 => isize::gen,
        8 => u8::gen,
        9 => u16::gen,
        10 => u32::gen,
        11 => u64::gen,
        12 => u128::gen,
        _ => usize::gen,
    };
    f(r, s)
}

pub trait Num: Signed + Pol {}
impl<T: Signed + Pol> Num for T {}

/// Performs the operation on real library code: `x` is the target, `y` the right-hand pair, `b` the bits of a real.
pub fn perform<T: Num>(c: Code, x: &mut Cartesian<T>, y: &mut (T, T), b: u128) {
    macro_rules! forms {
        ($o:tt, $a:tt, $e:expr) => {{
            let mut v = $e;
            match (c.kind % 3, c.assign) {
                (0, false) => *x = *x $o v,
                (1, false) => *x = *x $o &v,
                (2, false) => *x = *x $o &mut v,
                (0, true) => *x $a v,
                (1, true) => *x $a &v,
                _ => *x $a &mut v,
            }
            *y = (v.re, v.im);
        }};
    }
    let cart = Cartesian { re: y.0, im: y.1 };
    let comp = num::Complex { re: y.0, im: y.1 };
    match (c.kind, c.op) {
        (OWN..=MUT, ADD) => forms!(+, +=, cart),
        (OWN..=MUT, SUB) => forms!(-, -=, cart),
        (OWN..=MUT, DIV) => forms!(/, /=, cart),
        (OWN, MUL) => *x = *x * cart,
        (REF, MUL) => *x = *x * &cart,
        (MUT, MUL) => {
            let mut v = cart;
            *x = *x * &mut v;
            *y = (v.re, v.im);
        }
        (NOWN..=NMUT, ADD) => forms!(+, +=, comp),
        (NOWN..=NMUT, SUB) => forms!(-, -=, comp),
        (NOWN..=NMUT, DIV) => forms!(/, /=, comp),
        (FREE, ADD) => *x = complex::add(*x, cart),
        (FREE, SUB) => *x = complex::sub(*x, cart),
        (FREE, MUL) => *x = complex::mul_cartesian(*x, cart),
        (FREE, _) => *x = complex::div_cartesian(*x, cart),
        (FREE_S, _) => *x = complex::div_scalar_cartesian(*x, y.0),
        (REAL, ADD) => real_all!(c, b, v => if c.assign { *x += v } else { *x = *x + v }),
        (REAL, SUB) => real_all!(c, b, v => if c.assign { *x -= v } else { *x = *x - v }),
        (REAL, MUL) => real_all!(c, b, v => *x = *x * v),
        (REAL, _) => real_signed!(c, b, v => if c.assign { *x /= v } else { *x = *x / v }),
        _ => {
            let mut p = Polar { mag: y.0, ang: y.1 };
            T::mul_polar(c, x, &mut p);
            *y = (p.mag, p.ang);
        }
    }
}

/// What a component must be after the step.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Want {
    /// Not judged.
    Any,
    /// Raw value within (inclusive).
    Raw(i128, i128),
    /// f64 value and tolerance.
    Flt(f64, f64),
    /// Exactly this float (NaN means any NaN).
    Bits(u128),
}
#[derive(Clone, Copy, Debug)]
pub struct Ref {
    pub w: [Want; 2],
    /// A panic is within the specification.
    pub panic_ok: bool,
}
const SKIP: Ref = Ref { w: [Want::Any; 2], panic_ok: true };

pub fn meets<T: Elem>(v: T, w: Want) -> bool {
    match w {
        Want::Any => true,
        Want::Raw(lo, hi) => (lo..=hi).contains(&v.raw()),
        Want::Flt(x, tol) => (v.f() - x).abs() <= tol,
        Want::Bits(b) => {
            let (p, q) = (v.f(), T::de(b).f());
            p == q || (p.is_nan() && q.is_nan())
        }
    }
}

/// Interval of raw values a computed quantity lies in.
#[derive(Clone, Copy)]
struct Iv(i128, i128);
struct Calc<T> {
    ok: bool,
    _t: core::marker::PhantomData<T>,
}
impl<T: Elem> Calc<T> {
    fn chk(&mut self, v: Iv) -> Iv {
        if v.0 < T::min_raw() || v.1 > T::max_raw() {
            self.ok = false;
        }
        v
    }
    /// a*b, rounded in any direction (exactly representable products are exact).
    fn mul(&mut self, a: i128, b: i128) -> Option<Iv> {
        let p = a.checked_mul(b)?;
        let lo = p >> T::FRAC;
        let hi = if lo << T::FRAC == p { lo } else { lo + 1 };
        Some(self.chk(Iv(lo, hi)))
    }
    fn add(&mut self, a: Iv, b: Iv) -> Option<Iv> {
        Some(Iv(a.0.checked_add(b.0)?, a.1.checked_add(b.1)?)).map(|v| self.chk(v))
    }
    fn sub(&mut self, a: Iv, b: Iv) -> Option<Iv> {
        Some(Iv(a.0.checked_sub(b.1)?, a.1.checked_sub(b.0)?)).map(|v| self.chk(v))
    }
    /// Quotient of intervals; None when the divisor may be zero.
    fn div(&mut self, n: Iv, d: Iv) -> Option<Iv> {
        if d.0 <= 0 && d.1 >= 0 {
            return None;
        }
        let (mut lo, mut hi) = (i128::MAX, i128::MIN);
        for x in [n.0, n.1] {
            for y in [d.0, d.1] {
                let s = x.checked_mul(1i128 << T::FRAC)?;
                let q = s.checked_div(y)?;
                if T::KIND == 1 {
                    lo = lo.min(q);
                    hi = hi.max(q);
                } else {
                    let f = s.div_euclid(y);
                    let f = if s % y != 0 && y < 0 { f - 1 } else { f };
                    let exact = s % y == 0;
                    lo = lo.min(if exact { q } else { f });
                    hi = hi.max(if exact { q } else { f + 1 });
                }
            }
        }
        Some(self.chk(Iv(lo, hi)))
    }
}
fn pt<T: Elem>(x: T) -> Iv {
    Iv(x.raw(), x.raw())
}
fn raw(v: Iv) -> Want {
    Want::Raw(v.0, v.1)
}

fn exact_ref<T: Elem>(op: u8, x: (T, T), y: (T, T), real: bool) -> Option<Ref> {
    let mut k = Calc::<T> { ok: true, _t: core::marker::PhantomData };
    let (a, b, c, d) = (x.0.raw(), x.1.raw(), y.0.raw(), y.1.raw());
    let w = match (op, real) {
        (ADD, true) => [k.add(pt(x.0), pt(y.0))?, pt(x.1)],
        (SUB, true) => [k.sub(pt(x.0), pt(y.0))?, pt(x.1)],
        (ADD, _) => [k.add(pt(x.0), pt(y.0))?, k.add(pt(x.1), pt(y.1))?],
        (SUB, _) => [k.sub(pt(x.0), pt(y.0))?, k.sub(pt(x.1), pt(y.1))?],
        (MUL, true) => [k.mul(a, c)?, k.mul(b, c)?],
        (DIV, true) => [k.div(pt(x.0), pt(y.0))?, k.div(pt(x.1), pt(y.0))?],
        (MUL, _) => {
            let (ac, bd, ad, bc) = (k.mul(a, c)?, k.mul(b, d)?, k.mul(a, d)?, k.mul(b, c)?);
            [k.sub(ac, bd)?, k.add(ad, bc)?]
        }
        _ => {
            let (ac, bd, ad, bc) = (k.mul(a, c)?, k.mul(b, d)?, k.mul(a, d)?, k.mul(b, c)?);
            let (cc, dd) = (k.mul(c, c)?, k.mul(d, d)?);
            let n = (k.add(ac, bd)?, k.sub(bc, ad)?);
            let den = k.add(cc, dd)?;
            [k.div(n.0, den)?, k.div(n.1, den)?]
        }
    };
    Some(Ref { w: [raw(w[0]), raw(w[1])], panic_ok: !k.ok })
}

fn big<T: Elem>() -> f64 {
    if T::BITS == 32 {
        f32::MAX as f64 / 16.0
    } else {
        f64::MAX / 16.0
    }
}
fn tiny<T: Elem>() -> f64 {
    if T::BITS == 32 {
        f32::MIN_POSITIVE as f64
    } else {
        f64::MIN_POSITIVE
    }
}
/// The float operation in the component type itself (one correctly rounded operation).
fn flt1<T: Elem>(op: u8, a: T, b: T) -> Want {
    let g = |x: f64, y: f64| match op {
        ADD => x + y,
        SUB => x - y,
        MUL => x * y,
        _ => x / y,
    };
    if T::BITS == 32 {
        let (x, y) = (a.f() as f32, b.f() as f32);
        let v = match op {
            ADD => x + y,
            SUB => x - y,
            MUL => x * y,
            _ => x / y,
        };
        Want::Bits(v.en())
    } else {
        Want::Bits(g(a.f(), b.f()).en())
    }
}
/// A single rounded product or quotient, up to a few units in the last place (a*r or a*(1/r) are both fine).
fn flt_scale<T: Elem>(op: u8, a: T, b: T) -> Want {
    let Want::Bits(v) = flt1::<T>(op, a, b) else { return Want::Any };
    let v = T::de(v).f();
    if !v.is_finite() || v.abs() > big::<T>() || (v != 0.0 && v.abs() < tiny::<T>() * 1e4) || b.f().abs() < tiny::<T>() * 1e4 || b.f().abs() > big::<T>() {
        return if v.is_nan() || v.is_infinite() || v == 0.0 { Want::Any } else { Want::Flt(v, v.abs() * 1e-2 + tiny::<T>()) };
    }
    Want::Flt(v, v.abs() * 4.0 * T::EPS)
}
fn float_ref<T: Elem>(op: u8, x: (T, T), y: (T, T), real: bool) -> Ref {
    let no = |w: [Want; 2]| Ref { w, panic_ok: false };
    match (op, real) {
        (ADD | SUB, true) => return no([flt1::<T>(op, x.0, y.0), Want::Bits(x.1.en())]),
        (ADD | SUB, _) => return no([flt1::<T>(op, x.0, y.0), flt1::<T>(op, x.1, y.1)]),
        (_, true) => return no([flt_scale::<T>(op, x.0, y.0), flt_scale::<T>(op, x.1, y.0)]),
        _ => {}
    }
    let (a, b, c, d) = (x.0.f(), x.1.f(), y.0.f(), y.1.f());
    let prods = [a * c, b * d, a * d, b * c, c * c, d * d];
    if prods.iter().any(|p| !p.is_finite() || p.abs() > big::<T>()) {
        return no([Want::Any; 2]);
    }
    let t = tiny::<T>();
    let tol1 = 4.0 * T::EPS * (prods[0].abs() + prods[1].abs()) + 4.0 * t;
    let tol2 = 4.0 * T::EPS * (prods[2].abs() + prods[3].abs()) + 4.0 * t;
    if op == MUL {
        return no([Want::Flt(prods[0] - prods[1], tol1), Want::Flt(prods[2] + prods[3], tol2)]);
    }
    let den = prods[4] + prods[5];
    if den < t * 1e6 {
        return no([Want::Any; 2]);
    }
    let (p, q) = ((prods[0] + prods[1]) / den, (prods[3] - prods[2]) / den);
    if p.abs() > big::<T>() || q.abs() > big::<T>() {
        return no([Want::Any; 2]);
    }
    no([Want::Flt(p, tol1 / den + 12.0 * T::EPS * p.abs() + 4.0 * t), Want::Flt(q, tol2 / den + 12.0 * T::EPS * q.abs() + 4.0 * t)])
}

/// Accuracy of sine and cosine of the type, absolute (for an angle of ordinary size).
pub fn trig_err<T: Elem>(ang: f64) -> f64 {
    if T::KIND == 0 {
        (8.0 + ang.abs()) * 4.0 * T::EPS
    } else {
        (T::FRAC as f64 + 12.0 + ang.abs()) * T::ulp() + 4e-16
    }
}

fn polar_ref<T: Elem>(x: (T, T), y: (T, T)) -> Ref {
    let (a, b, m, p) = (x.0.f(), x.1.f(), y.0.f(), y.1.f());
    if ![a, b, m, p].iter().all(|v| v.is_finite()) || p.abs() > 1e3 {
        return if T::KIND == 0 { Ref { w: [Want::Any; 2], panic_ok: false } } else { SKIP };
    }
    let size = (a.abs() + b.abs()) * m.abs();
    let ulp = if T::KIND == 0 { 0.0 } else { T::ulp() };
    let e = trig_err::<T>(p) + T::EPS * 8.0;
    let tol = size * e + ulp * (3.0 + a.abs() + b.abs()) + size * 1e-15 + if T::KIND == 0 { 16.0 * tiny::<T>() } else { 0.0 };
    if T::KIND == 0 {
        if !size.is_finite() || a.abs() + b.abs() > big::<T>() || size > big::<T>() || m.abs() > big::<T>() {
            return Ref { w: [Want::Any; 2], panic_ok: false };
        }
        // Underflow of the converted operand is not amplified beyond the size of the target.
        let tol = tol + (a.abs() + b.abs()) * 4.0 * tiny::<T>();
        return Ref { w: [Want::Flt(a * m * p.cos() - b * m * p.sin(), tol), Want::Flt(a * m * p.sin() + b * m * p.cos(), tol)], panic_ok: false };
    }
    let max = T::max_raw() as f64 * ulp;
    let panic_ok = size + m.abs() * (1.0 + e) + tol * 2.0 + 4.0 * ulp >= max || T::FRAC < 4 || max < 4.0;
    if T::FRAC < 4 {
        return SKIP;
    }
    Ref { w: [Want::Flt(a * m * p.cos() - b * m * p.sin(), tol), Want::Flt(a * m * p.sin() + b * m * p.cos(), tol)], panic_ok }
}

pub fn reference<T: Elem>(c: Code, x: (T, T), y: (T, T), b: u128) -> Ref {
    if (POWN..=PMUT).contains(&c.kind) {
        return polar_ref::<T>(x, y);
    }
    let mut y = y;
    let real = c.kind == REAL || c.kind == FREE_S;
    if c.kind == REAL {
        let Some(p) = prim(c, b) else { return SKIP };
        let zero = p == Prim::I(0) || p == Prim::F(0.0);
        if zero && c.op == DIV {
            let m = if T::KIND == 0 { Want::Bits(T::of(big::<T>() * 16.0).en()) } else { Want::Raw(T::max_raw(), T::max_raw()) };
            return Ref { w: [m, m], panic_ok: false };
        }
        let Some(v) = T::of_prim(p) else { return SKIP };
        // A divisor that becomes zero (or a NaN or overflow) in the component type.
        if (c.op == DIV && v.f() == 0.0) || (T::KIND == 0 && !v.f().is_finite()) {
            return if T::KIND == 0 { Ref { w: [Want::Any; 2], panic_ok: false } } else { SKIP };
        }
        y = (v, v);
    }
    if c.kind == FREE_S && y.0.f() == 0.0 {
        let m = if T::KIND == 0 { Want::Bits(T::of(big::<T>() * 16.0).en()) } else { Want::Raw(T::max_raw(), T::max_raw()) };
        return Ref { w: [m, m], panic_ok: false };
    }
    if T::KIND == 0 {
        float_ref::<T>(c.op, x, y, real)
    } else {
        exact_ref::<T>(c.op, x, y, real).unwrap_or(SKIP)
    }
}

pub struct Type {
    pub name: &'static str,
    pub polar: bool,
    pub bits: u32,
    pub gen: fn(&mut Rng, Style) -> u128,
    pub history: fn(&Plan),
    pub cut: fn(&Plan),
    pub weight: u32,
}
macro_rules! types {
    ($($t:ident * $w:expr),*) => { pub const TYPES: &[Type] = &[ $( Type { name: <$t as Elem>::NAME, polar: <$t as Pol>::HAS, bits: <$t as Elem>::BITS, gen: <$t as Elem>::gen, history: history::<$t>, cut: cut::<$t>, weight: $w } ),* ]; };
}
types!(f32 * 3, f64 * 3, SimNum * 3, i8 * 2, i16 * 2, i32 * 3, i64 * 2, i128 * 2, isize * 1, I8F0 * 1, I8F3 * 1, I8F5 * 1, I16F0 * 1, I16F8 * 2, I16F13 * 1, I32F0 * 1, I32F8 * 1, I32F16 * 3, I32F22 * 1, I32F28 * 1, I32F29 * 1, I64F0 * 1, I64F16 * 1, I64F32 * 2, I64F48 * 1, I64F61 * 1);

pub fn pick_type(r: &mut Rng) -> usize {
    let total: u32 = TYPES.iter().map(|t| t.weight).sum();
    let mut k = r.below(total as u64) as u32;
    for (i, t) in TYPES.iter().enumerate() {
        if k < t.weight {
            return i;
        }
        k -= t.weight;
    }
    0
}
pub fn type_of(p: &Plan) -> &'static Type {
    &TYPES[(find(p, "type").map_or(0, |r| r.n(0)) % TYPES.len() as u128) as usize]
}

pub const BUDGET: u64 = 2_000_000;
const NREG: usize = 4;

/// What happened to a step run on the real code.
pub struct Done<T> {
    pub ok: bool,
    pub x: Cartesian<T>,
    pub y: (T, T),
    pub fault: bool,
}
pub fn step<T: Num>(c: Code, x: Cartesian<T>, y: (T, T), b: u128, fault: u64) -> Done<T> {
    let mut x = x;
    let mut yy = y;
    simnum::plan_fault(fault);
    // The target and the operand live outside the call, as a caller's registers do.
    let (px, py) = (&mut x as *mut Cartesian<T>, &mut yy as *mut (T, T));
    let (r, _, _) = rt::call(BUDGET, || unsafe { perform::<T>(c, &mut *px, &mut *py, b) });
    simnum::plan_fault(0);
    stat(St::CALLS);
    let fault = matches!(&r, Err(e) if e.is::<simnum::SimFault>());
    if fault {
        stat(St::SIMFAULT);
    } else if r.is_err() {
        stat(St::PANICS);
    }
    log128(x.re.en());
    log128(x.im.en());
    Done { ok: r.is_ok(), x, y: yy, fault }
}
fn pair<T: Elem>(c: &Cartesian<T>) -> (T, T) {
    (c.re, c.im)
}
fn show<T: Elem>(x: (T, T)) -> String {
    if T::KIND == 1 {
        format!("({}, {})", x.0.raw(), x.1.raw())
    } else {
        format!("({:?}, {:?})", x.0.f(), x.1.f())
    }
}

fn code_of(r: &Rec, polar: bool) -> Code {
    Code::fix(r.n(0), r.n(1), r.n(2), r.n(3), polar)
}

/// The right-hand pair of a step: a register, or the operands in the plan.
fn rhs<T: Num>(r: &Rec, regs: &[Cartesian<T>; NREG]) -> (T, T) {
    let s = r.n(5) as usize;
    if s < NREG {
        pair(&regs[s])
    } else {
        (T::de(r.n(6)), T::de(r.n(7)))
    }
}

fn history<T: Num>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let z = Cartesian { re: T::de(0), im: T::de(0) };
        let mut regs = [z; NREG];
        let mut saved = regs;
        for r in p {
            let t = (r.n(4) % NREG as u128) as usize;
            match r.k {
                "set" => regs[(r.n(0) % NREG as u128) as usize] = Cartesian { re: T::de(r.n(1)), im: T::de(r.n(2)) },
                "flip" => {
                    let g = &mut regs[(r.n(0) % NREG as u128) as usize];
                    let m = 1u128 << (r.n(2) % T::BITS as u128);
                    if r.n(1) & 1 == 0 {
                        g.re = T::de(g.re.en() ^ m);
                    } else {
                        g.im = T::de(g.im.en() ^ m);
                    }
                    stat(St::BITFLIP);
                }
                "save" => saved = regs,
                "restore" => {
                    regs = saved;
                    stat(St::RESTORE);
                }
                "step" => {
                    let c = code_of(r, T::HAS);
                    let (x, y) = (regs[t], rhs(r, &regs));
                    let want = reference::<T>(c, pair(&x), y, r.n(8));
                    let d = step::<T>(c, x, y, r.n(8), r.n(9) as u64);
                    stat(St::STEPS);
                    let what = || format!("{}: {} {} {} (real operand bits 0x{:x})", T::NAME, show(pair(&x)), c.show(), show(y), r.n(8));
                    if want.w == [Want::Any; 2] {
                        stat(St::SKIPPED);
                    }
                    if d.ok {
                        stat(St::CHECKED);
                        if !meets(d.x.re, want.w[0]) || !meets(d.x.im, want.w[1]) {
                            fail("wrong-result", &format!("{} left {} where {:?} is specified", what(), show(pair(&d.x)), want.w));
                        }
                        state(mix(mix((c.op as u64) << 16 | (c.kind as u64) << 8 | c.assign as u64) ^ mix((T::FRAC + 2) as u64 * 1000 + T::BITS as u64) ^ (x.re.en() as u64 & 0xff)));
                    } else if !d.fault {
                        stat(St::OVERFLOW);
                        if !want.panic_ok {
                            fail("unexpected-panic", &format!("{} panicked although every value it needs fits", what()));
                        }
                    }
                    if (d.y.0.en(), d.y.1.en()) != (y.0.en(), y.1.en()) {
                        fail("operand-changed", &format!("{} changed its right-hand operand to {}", what(), show(d.y)));
                    }
                    if d.ok || r.n(10) == 0 {
                        regs[t] = d.x;
                    } else {
                        stat(St::RETRY);
                        // The caller puts the old value back and tries again without the fault.
                        let e = step::<T>(c, x, y, r.n(8), 0);
                        if e.ok && (!meets(e.x.re, want.w[0]) || !meets(e.x.im, want.w[1])) {
                            fail("wrong-after-retry", &format!("{} gives {} after a failed attempt, {:?} is specified", what(), show(pair(&e.x)), want.w));
                        }
                        if !e.ok && !want.panic_ok {
                            fail("unexpected-panic", &format!("{} panicked when retried after a fault", what()));
                        }
                        regs[t] = e.x;
                    }
                }
                _ => {}
            }
        }
    })]);
}

/// C05: one in-place update, faulted at each of its component operations in turn.
fn cut<T: Num>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let mut regs = [Cartesian { re: T::de(0), im: T::de(0) }; NREG];
        for r in p {
            if r.k == "set" {
                regs[(r.n(0) % NREG as u128) as usize] = Cartesian { re: T::de(r.n(1)), im: T::de(r.n(2)) };
            }
            if r.k != "step" {
                continue;
            }
            let mut c = code_of(r, T::HAS);
            c.assign = !matches!(c.kind, FREE | FREE_S) && !(c.op == MUL && c.kind < POWN);
            if !c.assign {
                continue;
            }
            let t = (r.n(4) % NREG as u128) as usize;
            let (x, y, b) = (regs[t], rhs(r, &regs), r.n(8));
            stat(St::STEPS);
            let full = step::<T>(c, x, y, b, 0);
            let nops = simnum_ops::<T>(c, x, y, b);
            let want = reference::<T>(c, pair(&x), y, b);
            let only = r.n(9) as u64;
            for k in 0..=nops {
                if only > 0 && k != only {
                    continue;
                }
                // k = 0: no injected fault; the update may still fail because a value does not fit.
                let d = if k == 0 { step::<T>(c, x, y, b, 0) } else { step::<T>(c, x, y, b, k) };
                if d.ok {
                    if full.ok && (d.x.re.en(), d.x.im.en()) != (full.x.re.en(), full.x.im.en()) {
                        fail("update-not-repeatable", &format!("{}: {} {} {}: {} and then {}", T::NAME, show(pair(&x)), c.show(), show(y), show(pair(&full.x)), show(pair(&d.x))));
                    }
                    continue;
                }
                stat(St::CHECKED);
                for (i, (now, old, done, w)) in [(d.x.re, x.re, full.x.re, want.w[0]), (d.x.im, x.im, full.x.im, want.w[1])].into_iter().enumerate() {
                    let new_ok = if full.ok { now.en() == done.en() } else { w != Want::Any && meets(now, w) };
                    let unjudged = !full.ok && w == Want::Any;
                    if now.en() != old.en() && !new_ok && !unjudged {
                        fail(
                            "torn-component",
                            &format!("{}: {} {} {} cut short at component operation {k}: {} holds {:?}, neither the old {:?} nor the new value", T::NAME, show(pair(&x)), c.show(), show(y), ["re", "im"][i], now.f(), old.f()),
                        );
                    }
                }
                if (d.y.0.en(), d.y.1.en()) != (y.0.en(), y.1.en()) {
                    fail("operand-changed", &format!("{}: {} cut short changed its right-hand operand to {}", T::NAME, c.show(), show(d.y)));
                }
                // Restore and repeat.
                let e = step::<T>(c, x, y, b, 0);
                stat(St::RETRY);
                if e.ok != full.ok || (e.ok && (e.x.re.en(), e.x.im.en()) != (full.x.re.en(), full.x.im.en())) {
                    fail("retry-differs", &format!("{}: {} {} {} gives {} when repeated after a fault", T::NAME, show(pair(&x)), c.show(), show(y), show(pair(&e.x))));
                }
                state(mix(mix((c.op as u64) << 16 | (c.kind as u64) << 8 | k) ^ mix((T::FRAC + 2) as u64 * 1000 + T::BITS as u64 + c.prim as u64)));
            }
            regs[t] = full.x;
        }
    })]);
}
fn simnum_ops<T: Num>(c: Code, x: Cartesian<T>, y: (T, T), b: u128) -> u64 {
    if T::NAME != "SimNum" {
        return 0;
    }
    let (mut x, mut y) = (x, y);
    simnum::plan_fault(0);
    let _ = rt::call(BUDGET, || perform::<T>(c, &mut x, &mut y, b));
    simnum::ops_done().min(200)
}

pub struct Registers;
pub struct Cut;

fn gen_step(r: &mut Rng, ty: &Type, st: Style, assign_only: bool) -> Rec {
    let op = r.below(4) as u128;
    let kind = r.below(NKINDS as u64) as u128;
    let assign = if assign_only { 1 } else { r.below(2) as u128 };
    let prim = r.below(14) as u8;
    let src = if r.chance(1, 2) { r.below(NREG as u64) as u128 } else { NREG as u128 };
    let pst = if st == Style::Wild && r.chance(1, 3) { Style::Wild } else { Style::Tame };
    let mut a = (ty.gen)(r, st);
    let mut b = (ty.gen)(r, st);
    match r.below(12) {
        0 => a = 0,
        1 => b = 0,
        2 => {
            a = 0;
            b = 0
        }
        _ => {}
    }
    let rb = if r.chance(1, 12) { 0 } else { gen_prim(prim, r, pst) };
    let fault = if ty.name == "SimNum" && r.chance(1, 3) { 1 + r.below(10) as u128 } else { 0 };
    rec("step", &[op, kind, assign, prim as u128, r.below(NREG as u64) as u128, src, a, b, rb, if assign_only { 0 } else { fault }, r.below(2) as u128])
}

impl Prop for Registers {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn runs(&self) -> (u64, u64) {
        (100_000, 3_000_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let ti = pick_type(r);
        let ty = &TYPES[ti];
        let mut p = vec![rec("type", &[ti as u128])];
        for i in 0..NREG {
            p.push(rec("set", &[i as u128, (ty.gen)(r, Style::Tame), (ty.gen)(r, Style::Tame)]));
        }
        let wild = *r.pick(&[0u64, 1, 4]);
        for _ in 0..r.range(5, 60) {
            match r.below(20) {
                0 => p.push(rec("flip", &[r.below(4) as u128, r.below(2) as u128, r.below(ty.bits as u64) as u128])),
                1 => p.push(rec("save", &[])),
                2 => p.push(rec("restore", &[])),
                3 | 4 | 5 => {
                    let st = if r.chance(wild, 10) { Style::Wild } else { Style::Tame };
                    p.push(rec("set", &[r.below(4) as u128, (ty.gen)(r, st), (ty.gen)(r, st)]))
                }
                _ => {
                    let st = if r.chance(wild, 10) { Style::Wild } else { Style::Tame };
                    p.push(gen_step(r, ty, st, false))
                }
            }
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (type_of(p).history)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        describe(r)
    }
    fn rule(&self) -> &'static str {
        "each run: 5-60 steps on four Cartesian registers of one of 26 component types; each step is an operator in binary or in-place form with a Cartesian, num::Complex, Polar or real (14 primitive types) right-hand side, owned or borrowed, or a free function of complex::ops; between steps registers are set, corrupted by a bit flip, saved and restored; SimNum operations are faulted at a random component operation. Non-trivial: at least two steps completed and were compared with the reference. Distinct: by plan."
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::CHECKED as usize] > 1
    }
    fn stub(&self) -> &'static str {
        "the register file of the caller and the component type SimNum are simulated"
    }
}

impl Prop for Cut {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn runs(&self) -> (u64, u64) {
        (80_000, 2_000_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        // Half on the faultable user-defined type, half on types that overflow by themselves.
        let ti = if r.chance(1, 2) { TYPES.iter().position(|t| t.name == "SimNum").unwrap_or(3) } else { 3 + r.below(TYPES.len() as u64 - 3) as usize };
        let ty = &TYPES[ti];
        let mut p = vec![rec("type", &[ti as u128])];
        for i in 0..NREG {
            let st = if r.chance(1, 2) && ty.name != "SimNum" { Style::Wild } else { Style::Tame };
            p.push(rec("set", &[i as u128, (ty.gen)(r, st), (ty.gen)(r, Style::Tame)]));
        }
        for _ in 0..r.range(1, 8) {
            if r.chance(1, 4) {
                p.push(rec("set", &[r.below(4) as u128, (ty.gen)(r, Style::Tame), (ty.gen)(r, Style::Wild)]));
            }
            let st = if r.chance(1, 3) && ty.name != "SimNum" { Style::Wild } else { Style::Tame };
            p.push(gen_step(r, ty, st, true));
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (type_of(p).cut)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        describe(r)
    }
    fn rule(&self) -> &'static str {
        "each run: 1-8 in-place updates (+=, -=, *=, /= with every right-hand-side kind) on SimNum registers, each update repeated with a fault at every one of its component operations, or on integer and fixed-point registers whose values make a component overflow or divide by zero. Non-trivial: at least one update was cut short. Distinct: by plan."
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::CHECKED as usize] > 0
    }
    fn stub(&self) -> &'static str {
        "the register file of the caller and the component type SimNum (whose n-th operation the plan fails) are simulated"
    }
}

pub fn describe(r: &Rec) -> String {
    match r.k {
        "type" => TYPES[(r.n(0) % TYPES.len() as u128) as usize].name.to_string(),
        "step" => {
            let c = code_of(r, true);
            let src = if r.n(5) < NREG as u128 { format!("register {}", r.n(5)) } else { "operands given".into() };
            format!("register {} {} {}{}", r.n(4) % 4, c.show(), src, if r.n(9) > 0 { format!(", component operation {} fails", r.n(9)) } else { String::new() })
        }
        "set" => format!("register {}", r.n(0) % 4),
        "flip" => format!("register {} {} bit {}", r.n(0) % 4, ["re", "im"][(r.n(1) & 1) as usize], r.n(2)),
        _ => String::new(),
    }
}
