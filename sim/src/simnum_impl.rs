//! The implementation of the user-defined number type `SimNum`.

use crate::simnum::op;
use mixed_num::*;

#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct SimNum(pub f64);

macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $o:tt) => {
        impl core::ops::$tr for SimNum {
            type Output = SimNum;
            fn $f(self, r: SimNum) -> SimNum {
                op();
                SimNum(self.0 $o r.0)
            }
        }
        impl core::ops::$tra for SimNum {
            fn $fa(&mut self, r: SimNum) {
                op();
                self.0 = self.0 $o r.0;
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, +);
bin!(Sub, sub, SubAssign, sub_assign, -);
bin!(Mul, mul, MulAssign, mul_assign, *);
bin!(Div, div, DivAssign, div_assign, /);
bin!(Rem, rem, RemAssign, rem_assign, %);

impl core::ops::Neg for SimNum {
    type Output = SimNum;
    fn neg(self) -> SimNum {
        op();
        SimNum(-self.0)
    }
}

macro_rules! conv { ($($t:ty),*) => { $(
    impl MixedNumConversion<$t> for SimNum {
        fn mixed_from_num(n: $t) -> Self { op(); SimNum(n as f64) }
        fn mixed_to_num(&self) -> $t { op(); self.0 as $t }
    }
)* } }
conv!(f32, f64, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl MixedNumConversion<SimNum> for SimNum {
    fn mixed_from_num(n: SimNum) -> Self {
        op();
        n
    }
    fn mixed_to_num(&self) -> SimNum {
        op();
        *self
    }
}

macro_rules! un { ($tr:ident: $($f:ident),*) => {
    impl $tr for SimNum { $( fn $f(&self) -> Self { op(); SimNum(self.0.$f()) } )* }
} }
un!(MixedAbs: mixed_abs);
un!(MixedSqrt: mixed_sqrt, mixed_niirf);
un!(MixedCos: mixed_cos, mixed_acos);
un!(MixedExp: mixed_exp);
impl MixedSin for SimNum {
    fn mixed_sin(&self) -> Self {
        op();
        SimNum(self.0.mixed_sin())
    }
    fn mixed_sincos(&self) -> (Self, Self) {
        op();
        let (s, c) = self.0.mixed_sincos();
        (SimNum(s), SimNum(c))
    }
    fn mixed_asin(&self) -> Self {
        op();
        SimNum(self.0.mixed_asin())
    }
}
impl MixedAtan for SimNum {
    fn mixed_atan(&self) -> Self {
        op();
        SimNum(self.0.mixed_atan())
    }
    fn mixed_atan2(&self, o: Self) -> Self {
        op();
        SimNum(self.0.mixed_atan2(o.0))
    }
    fn mixed_atan2_poly(&self, o: Self) -> Self {
        trigonometry::atan::atan2(*self, o)
    }
}
impl MixedTrigonometry for SimNum {}
impl MixedPowi for SimNum {
    fn mixed_powi(&self, e: i32) -> Self {
        op();
        SimNum(self.0.powi(e))
    }
}
impl MixedWrapPhase for SimNum {
    fn mixed_wrap_phase(&self) -> Self {
        trigonometry::wrap_phase(*self)
    }
}
impl MixedZero for SimNum {
    fn mixed_zero() -> Self {
        op();
        SimNum(0.0)
    }
}
impl MixedOne for SimNum {
    fn mixed_one() -> Self {
        op();
        SimNum(1.0)
    }
}
impl MixedPi for SimNum {
    fn mixed_pi() -> Self {
        op();
        SimNum(std::f64::consts::PI)
    }
    fn mixed_tau() -> Self {
        op();
        SimNum(std::f64::consts::TAU)
    }
}
impl MixedNum for SimNum {}
impl MixedOps for SimNum {}
impl MixedNumSigned for SimNum {}
impl MixedReal for SimNum {
    fn mixed_max_value() -> Self {
        SimNum(f64::MAX)
    }
    fn mixed_min_value() -> Self {
        SimNum(f64::MIN)
    }
    fn mixed_sign(&self) -> Self {
        trigonometry::sign(*self)
    }
    fn mixed_is_positive(&self) -> bool {
        op();
        self.0.is_sign_positive()
    }
    fn mixed_is_negative(&self) -> bool {
        op();
        self.0.is_sign_negative()
    }
}
impl std::fmt::Display for SimNum {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.0, f)
    }
}
