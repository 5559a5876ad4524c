//! The component types the simulation covers, with a bit encoding and seeded generators for each.
use crate::rng::Rng;
use crate::simnum::SimNum;
use core::ops::*;
use mixed_num::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    /// Moderate values: most operations succeed.
    Tame,
    /// Anything the type can hold: corrupted bits, extremes, NaN, infinities, subnormals.
    Wild,
}

pub trait Elem: Copy + Send + 'static {
    const NAME: &'static str;
    /// Fractional bits of fixed point, 0 for integers, -1 for floats.
    const FRAC: i32;
    const BITS: u32;
    /// 0 float, 1 integer, 2 fixed point
    const KIND: u8;
    const SIGNED: bool = true;
    /// Machine epsilon of floats.
    const EPS: f64 = 0.0;
    fn de(b: u128) -> Self;
    fn en(self) -> u128;
    fn gen(r: &mut Rng, s: Style) -> u128;
    /// Nearest value, saturating. Never runs library code.
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn is_float() -> bool {
        Self::FRAC < 0
    }
    /// Raw integer (fixed and integers) for exact reference arithmetic.
    fn raw(self) -> i128;
    fn unraw(r: i128) -> Option<Self>;
    /// The language's conversion of a primitive; None when the value does not fit.
    fn of_prim(p: Prim) -> Option<Self>;
    fn ulp() -> f64 {
        2.0f64.powi(-Self::FRAC)
    }
    fn max_raw() -> i128 {
        if Self::SIGNED {
            i128::MAX >> (128 - Self::BITS)
        } else if Self::BITS == 128 {
            i128::MAX
        } else {
            (1i128 << Self::BITS) - 1
        }
    }
    fn min_raw() -> i128 {
        if Self::SIGNED {
            -Self::max_raw() - 1
        } else {
            0
        }
    }
}

/// Everything the covered types offer is required of them here, whether the library asks for it today or not, so that a
/// library that comes to need more of its component types still builds with the simulator.
pub trait Basic:
    Elem
    + MixedReal
    + MixedOps
    + MixedZero
    + MixedOne
    + MixedPowi
    + MixedAbs
    + MixedNumConversion<f32>
    + MixedNumConversion<f64>
    + MixedNumConversion<u8>
    + MixedNumConversion<u16>
    + MixedNumConversion<u32>
    + MixedNumConversion<u64>
    + MixedNumConversion<u128>
    + MixedNumConversion<usize>
    + MixedNumConversion<i8>
    + MixedNumConversion<i16>
    + MixedNumConversion<i32>
    + MixedNumConversion<i64>
    + MixedNumConversion<i128>
    + MixedNumConversion<isize>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + RemAssign
    + Rem<Output = Self>
    + PartialOrd
    + core::fmt::Debug
    + core::fmt::Display
    + Default
{
}
/// Signed numbers.
pub trait Signed: Basic + MixedNumSigned {}
/// Numbers with a square root: floats and fixed point.
pub trait Rooted: Basic + MixedSqrt + MixedPi {}
/// Signed numbers with trigonometry: floats, signed fixed point and the user-defined type.
pub trait Trig: Signed + Rooted + MixedTrigonometry + MixedSin + MixedCos + MixedAtan + MixedWrapPhase + MixedExp {}
macro_rules! is { ($tr:ident: $($t:ident)*) => { $( impl $tr for $t {} )* } }
is!(Basic: SimNum f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);
is!(Signed: SimNum f32 f64 i8 i16 i32 i64 i128 isize I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);
is!(Rooted: SimNum f32 f64 I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);
is!(Trig: SimNum f32 f64 I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);

/// A primitive number as a right-hand side.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prim {
    F(f64),
    I(i128),
}

fn tame_f64(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => r.range(-8, 8) as f64,
        1 => r.range(-64, 64) as f64 / 8.0,
        2 => r.f64(),
        3 => -r.f64(),
        4 => (r.f64() - 0.5) * 6.0,
        5 => (r.f64() - 0.5) * 2.0f64.powi(r.range(-12, 12) as i32),
        6 => r.range(1, 4) as f64 / 4.0,
        _ => (r.f64() - 0.5) * 2.0,
    }
}

macro_rules! float {
    ($t:ident, $u:ident, $bits:expr) => {
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const FRAC: i32 = -1;
            const BITS: u32 = $bits;
            const KIND: u8 = 0;
            const EPS: f64 = $t::EPSILON as f64;
            fn of_prim(p: Prim) -> Option<Self> {
                Some(match p {
                    Prim::F(x) => x as $t,
                    Prim::I(x) => x as $t,
                })
            }
            fn de(b: u128) -> Self {
                $t::from_bits(b as $u)
            }
            fn en(self) -> u128 {
                if self.is_nan() {
                    $t::NAN.to_bits() as u128
                } else {
                    self.to_bits() as u128
                }
            }
            fn gen(r: &mut Rng, s: Style) -> u128 {
                if s == Style::Tame {
                    return (tame_f64(r) as $t).to_bits() as u128;
                }
                let x: $t = match r.below(10) {
                    0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, $t::MAX, $t::MIN, $t::MIN_POSITIVE, $t::EPSILON]),
                    1 => *r.pick(&[$t::NAN, $t::INFINITY, $t::NEG_INFINITY]),
                    2 => $t::from_bits(r.below(100) as $u),
                    3 => std::f64::consts::PI as $t * r.range(-4, 4) as $t / 2.0,
                    4 => (r.range(-1000, 1000) as $t) * (2.0 as $t).powi(r.range(0, 120) as i32),
                    5 | 6 => {
                        let e = r.range(-140, 140) as i32;
                        (r.f64() as $t - 0.5) * (2.0 as $t).powi(e)
                    }
                    7 => {
                        // one flipped bit in an ordinary sample
                        let b = (tame_f64(r) as $t).to_bits();
                        $t::from_bits(b ^ (1 << r.below($bits)))
                    }
                    _ => $t::from_bits(r.u64() as $u),
                };
                x.to_bits() as u128
            }
            fn of(x: f64) -> Self {
                x as $t
            }
            fn f(self) -> f64 {
                self as f64
            }
            fn raw(self) -> i128 {
                self as i128
            }
            fn unraw(r: i128) -> Option<Self> {
                Some(r as $t)
            }
        }
    };
}
float!(f32, u32, 32);
float!(f64, u64, 64);

fn gen_int(r: &mut Rng, s: Style, bits: u32, signed: bool) -> u128 {
    if s == Style::Tame {
        let lo = if signed { -9 } else { 0 };
        return match r.below(3) {
            0 => r.range(lo, 9) as i128 as u128,
            1 => r.range(0, 4) as i128 as u128,
            _ => r.range(lo, 15) as i128 as u128,
        };
    }
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let top = 1u128 << (bits - 1);
    match r.below(6) {
        0 => top,
        1 => top - 1,
        2 => mask,
        3 => r.range(-4, 4) as i128 as u128 & mask,
        4 => (r.u128() & mask) >> r.below(bits as u64),
        _ => r.u128() & mask,
    }
}

macro_rules! int {
    ($($t:ident, $u:ident, $bits:expr, $signed:expr;)*) => { $(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const FRAC: i32 = 0;
            const BITS: u32 = $bits;
            const KIND: u8 = 1;
            const SIGNED: bool = $signed;
            fn of_prim(p: Prim) -> Option<Self> {
                match p {
                    Prim::F(x) => {
                        let t = x.trunc();
                        // Limits are powers of two (or one less), so this comparison is exact where it matters.
                        if x.is_nan() || t >= 2.0f64.powi($bits - $signed as i32) || t < (if $signed { -(2.0f64.powi($bits - 1)) } else { 0.0 }) { None } else { Some(t as $t) }
                    }
                    Prim::I(x) => $t::try_from(x).ok(),
                }
            }
            fn de(b: u128) -> Self { b as $t }
            fn en(self) -> u128 { self as $u as u128 }
            fn gen(r: &mut Rng, s: Style) -> u128 { gen_int(r, s, $bits, $signed) }
            fn of(x: f64) -> Self { x as $t }
            fn f(self) -> f64 { self as f64 }
            fn raw(self) -> i128 { self as i128 }
            fn unraw(r: i128) -> Option<Self> { $t::try_from(r).ok() }
        }
    )* };
}
int! {
    i8, u8, 8, true; i16, u16, 16, true; i32, u32, 32, true; i64, u64, 64, true; i128, u128, 128, true; isize, usize, 64, true;
    u8, u8, 8, false; u16, u16, 16, false; u32, u32, 32, false; u64, u64, 64, false; u128, u128, 128, false; usize, usize, 64, false;
}

use fixed::types::extra::*;
use fixed::*;

macro_rules! fx {
    ($($n:ident = $t:ident<$fr:ident>, $i:ident, $u:ident, $bits:expr, $f:expr, $signed:expr;)*) => { $(
        pub type $n = $t<$fr>;
        impl Elem for $n {
            const NAME: &'static str = stringify!($n);
            const FRAC: i32 = $f;
            const BITS: u32 = $bits;
            const KIND: u8 = 2;
            const SIGNED: bool = $signed;
            fn of_prim(p: Prim) -> Option<Self> {
                match p {
                    Prim::F(x) if !x.is_finite() => None,
                    Prim::F(x) => <$n>::checked_from_num(x),
                    Prim::I(x) => <$n>::checked_from_num(x),
                }
            }
            fn de(b: u128) -> Self { <$n>::from_bits(b as $i) }
            fn en(self) -> u128 { self.to_bits() as $u as u128 }
            fn gen(r: &mut Rng, s: Style) -> u128 {
                if s == Style::Tame {
                    let mut x = tame_f64(r);
                    if !$signed { x = x.abs(); }
                    let lim = ((1u64 << ($bits - $f - 2).min(20)) as f64) * 0.9;
                    while x.abs() > lim { x /= 3.0; }
                    return <$n>::saturating_from_num(x).to_bits() as $u as u128;
                }
                match r.below(4) {
                    0 => {
                        let x = std::f64::consts::PI * r.range(-4, 4) as f64 / 2.0;
                        let b = <$n>::saturating_from_num(x).to_bits();
                        b.wrapping_add(r.range(-2, 2) as $i) as $u as u128
                    }
                    1 => {
                        let b = <$n>::saturating_from_num(tame_f64(r)).to_bits();
                        (b ^ ((1 as $i) << r.below($bits))) as $u as u128
                    }
                    _ => gen_int(r, Style::Wild, $bits, $signed),
                }
            }
            fn of(x: f64) -> Self { if x.is_nan() { Self::de(0) } else { <$n>::saturating_from_num(x) } }
            fn f(self) -> f64 { self.to_num::<f64>() }
            fn raw(self) -> i128 { self.to_bits() as i128 }
            fn unraw(r: i128) -> Option<Self> { <$i>::try_from(r).ok().map(<$n>::from_bits) }
        }
    )* };
}
fx! {
    I8F0 = FixedI8<U0>, i8, u8, 8, 0, true;
    I8F3 = FixedI8<U3>, i8, u8, 8, 3, true;
    I8F5 = FixedI8<U5>, i8, u8, 8, 5, true;
    I16F0 = FixedI16<U0>, i16, u16, 16, 0, true;
    I16F8 = FixedI16<U8>, i16, u16, 16, 8, true;
    I16F13 = FixedI16<U13>, i16, u16, 16, 13, true;
    I32F0 = FixedI32<U0>, i32, u32, 32, 0, true;
    I32F8 = FixedI32<U8>, i32, u32, 32, 8, true;
    I32F16 = FixedI32<U16>, i32, u32, 32, 16, true;
    I32F22 = FixedI32<U22>, i32, u32, 32, 22, true;
    I32F28 = FixedI32<U28>, i32, u32, 32, 28, true;
    I32F29 = FixedI32<U29>, i32, u32, 32, 29, true;
    I64F0 = FixedI64<U0>, i64, u64, 64, 0, true;
    I64F16 = FixedI64<U16>, i64, u64, 64, 16, true;
    I64F32 = FixedI64<U32>, i64, u64, 64, 32, true;
    I64F48 = FixedI64<U48>, i64, u64, 64, 48, true;
    I64F61 = FixedI64<U61>, i64, u64, 64, 61, true;
    U8F5 = FixedU8<U5>, u8, u8, 8, 5, false;
    U16F8 = FixedU16<U8>, u16, u16, 16, 8, false;
    U32F16 = FixedU32<U16>, u32, u32, 32, 16, false;
    U32F29 = FixedU32<U29>, u32, u32, 32, 29, false;
    U64F32 = FixedU64<U32>, u64, u64, 64, 32, false;
}

#[cfg(feature = "stand_in")]
fx! {
    StandIn = FixedI64<U24>, i64, u64, 64, 24, true;
}
#[cfg(not(feature = "stand_in"))]
impl Elem for SimNum {
    const NAME: &'static str = "SimNum";
    const FRAC: i32 = -1;
    const BITS: u32 = 64;
    const KIND: u8 = 0;
    const EPS: f64 = f64::EPSILON;
    fn of_prim(p: Prim) -> Option<Self> {
        f64::of_prim(p).map(SimNum)
    }
    fn de(b: u128) -> Self {
        SimNum(f64::from_bits(b as u64))
    }
    fn en(self) -> u128 {
        self.0.en()
    }
    fn gen(r: &mut Rng, s: Style) -> u128 {
        f64::gen(r, s)
    }
    fn of(x: f64) -> Self {
        SimNum(x)
    }
    fn f(self) -> f64 {
        self.0
    }
    fn raw(self) -> i128 {
        self.0 as i128
    }
    fn unraw(r: i128) -> Option<Self> {
        Some(SimNum(r as f64))
    }
}
