//! Every public operation of the library, for every covered component type, as a callable table entry.
use crate::elem::*;
use crate::rng::Rng;
use crate::simnum::{self, SimNum};
use core::fmt::Write;
use mixed_num::*;

pub const NARGS: usize = 5;
/// Argument bits; the last is the fault plan of `SimNum` operations (0: none).
pub type A = [u128; NARGS + 1];

pub struct Text {
    pub b: [u8; 320],
    pub n: usize,
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.as_bytes() {
            if self.n < self.b.len() {
                self.b[self.n] = *c;
            }
            self.n += 1;
        }
        Ok(())
    }
}

/// What a call returned: numbers as bits, and/or text.
pub struct Out {
    pub v: [u128; 8],
    pub n: usize,
    pub text: Text,
}
impl Out {
    pub fn new() -> Out {
        Out { v: [0; 8], n: 0, text: Text { b: [0; 320], n: 0 } }
    }
    fn e<T: Elem>(&mut self, x: T) {
        self.v[self.n] = x.en();
        self.n += 1;
    }
    fn c<T: Elem>(&mut self, x: Cartesian<T>) {
        self.e(x.re);
        self.e(x.im);
    }
    fn p<T: Elem>(&mut self, x: Polar<T>) {
        self.e(x.mag);
        self.e(x.ang);
    }
    fn b(&mut self, x: bool) {
        self.v[self.n] = x as u128;
        self.n += 1;
    }
}

#[derive(Clone, Copy)]
pub enum Ar {
    E(fn(&mut Rng, Style) -> u128),
    /// Small signed exponent.
    Exp,
    /// 0..=max
    Count(u8),
}

pub struct Op {
    pub name: &'static str,
    pub ty: &'static str,
    pub args: Vec<Ar>,
    pub f: fn(&A, &mut Out),
    /// How many leading results are values of the component type (can be fed back).
    pub feeds: usize,
    pub bits: u32,
    /// Generator of the component type.
    pub own: fn(&mut Rng, Style) -> u128,
}

pub type Reg = Vec<Op>;

impl Op {
    pub fn gen(&self, r: &mut Rng, s: Style) -> A {
        let mut a = [0u128; NARGS + 1];
        for (i, k) in self.args.iter().enumerate() {
            a[i] = match k {
                Ar::E(g) => g(r, s),
                Ar::Exp => r.range(-3, 9) as i128 as u128,
                Ar::Count(m) => r.below(*m as u64 + 1) as u128,
            };
        }
        a
    }
    pub fn show(&self, a: &A) -> String {
        let v: Vec<String> = self.args.iter().enumerate().map(|(i, k)| match k {
            Ar::E(_) => format!("0x{:x}", a[i]),
            _ => format!("{}", a[i] as i128),
        }).collect();
        let f = if a[NARGS] != 0 { format!(" fault@{}", a[NARGS]) } else { String::new() };
        format!("{}::{}({}){}", self.ty, self.name, v.join(","), f)
    }
}

macro_rules! o {
    ($r:ident, $T:ty, $name:expr, $feeds:expr, [$($a:expr),*], $f:expr) => {
        $r.push(Op { name: $name, ty: <$T as Elem>::NAME, args: vec![$($a),*], f: $f, feeds: $feeds, bits: <$T as Elem>::BITS, own: <$T as Elem>::gen })
    };
}
macro_rules! e { ($T:ty) => { Ar::E(<$T as Elem>::gen) }; }
fn d<T: Elem>(a: &A, i: usize) -> T {
    T::de(a[i])
}
fn c<T: Elem>(a: &A, i: usize) -> Cartesian<T> {
    Cartesian::new(T::de(a[i]), T::de(a[i + 1]))
}
fn p<T: Elem>(a: &A, i: usize) -> Polar<T> {
    Polar::new(T::de(a[i]), T::de(a[i + 1]))
}
fn nc<T: Elem>(a: &A, i: usize) -> num::Complex<T> {
    num::Complex { re: T::de(a[i]), im: T::de(a[i + 1]) }
}
fn ex(a: &A, i: usize) -> i32 {
    a[i] as i128 as i32
}

macro_rules! conv {
    ($r:ident, $T:ty: $($p:ident)*) => { $(
        o!($r, $T, concat!("from_", stringify!($p)), 1, [e!($p)], |a, o| o.e(<$T as MixedNumConversion<$p>>::mixed_from_num(d::<$p>(a, 0))));
        o!($r, $T, concat!("to_", stringify!($p)), 0, [e!($T)], |a, o| o.e(<$T as MixedNumConversion<$p>>::mixed_to_num(&d::<$T>(a, 0))));
    )* };
}
macro_rules! conv_cart {
    ($r:ident, $T:ty: $($p:ident)*) => { $(
        o!($r, $T, concat!("from_cartesian_", stringify!($p)), 1, [e!($p), e!($p)], |a, o| o.e(<$T as MixedNumConversion<Cartesian<$p>>>::mixed_from_num(c::<$p>(a, 0))));
        o!($r, $T, concat!("to_cartesian_", stringify!($p)), 0, [e!($T)], |a, o| o.c(<$T as MixedNumConversion<Cartesian<$p>>>::mixed_to_num(&d::<$T>(a, 0))));
    )* };
}

fn real<T: Basic>(r: &mut Reg) {
    o!(r, T, "mixed_zero", 1, [], |_, o| o.e(T::mixed_zero()));
    o!(r, T, "mixed_one", 1, [], |_, o| o.e(T::mixed_one()));
    o!(r, T, "mixed_max_value", 1, [], |_, o| o.e(T::mixed_max_value()));
    o!(r, T, "mixed_min_value", 1, [], |_, o| o.e(T::mixed_min_value()));
    o!(r, T, "mixed_sign", 1, [e!(T)], |a, o| o.e(d::<T>(a, 0).mixed_sign()));
    o!(r, T, "mixed_is_positive", 0, [e!(T)], |a, o| o.b(d::<T>(a, 0).mixed_is_positive()));
    o!(r, T, "mixed_is_negative", 0, [e!(T)], |a, o| o.b(d::<T>(a, 0).mixed_is_negative()));
    o!(r, T, "mixed_abs", 1, [e!(T)], |a, o| o.e(d::<T>(a, 0).mixed_abs()));
    o!(r, T, "mixed_powi", 1, [e!(T), Ar::Exp], |a, o| o.e(d::<T>(a, 0).mixed_powi(ex(a, 1))));
    o!(r, T, "trigonometry::powi", 1, [e!(T), Ar::Count(9)], |a, o| o.e(trigonometry::powi(d::<T>(a, 0), a[1] as usize)));
    o!(r, T, "trigonometry::sign", 1, [e!(T)], |a, o| o.e(trigonometry::sign(d::<T>(a, 0))));
    conv!(r, T: f32 f64 u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
}

/// Types with a square root and pi: floats and all fixed point.
fn common<T: Rooted>(r: &mut Reg) {
    o!(r, T, "mixed_pi", 1, [], |_, o| o.e(T::mixed_pi()));
    o!(r, T, "mixed_tau", 1, [], |_, o| o.e(T::mixed_tau()));
    o!(r, T, "mixed_sqrt", 1, [e!(T)], |a, o| o.e(d::<T>(a, 0).mixed_sqrt()));
    o!(r, T, "mixed_niirf", 1, [e!(T)], |a, o| o.e(d::<T>(a, 0).mixed_niirf()));
    o!(r, T, "sqrt::niirf", 1, [e!(T), Ar::Count(5)], |a, o| o.e(trigonometry::sqrt::niirf(d::<T>(a, 0), a[1] as usize)));
}

/// Complex arithmetic: every signed type.
fn arith<T: Signed>(r: &mut Reg) {
    macro_rules! bin {
        ($($n:expr, $op:tt, $rhs:expr;)*) => { $( o!(r, T, $n, 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { #[allow(unused_mut)] let rhs = $rhs(a); o.c(c::<T>(a, 0) $op rhs) }); )* };
    }
    macro_rules! asg {
        ($($n:expr, $op:tt, $rhs:expr;)*) => { $( o!(r, T, $n, 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let mut x = c::<T>(a, 0); x $op $rhs(a); o.c(x) }); )* };
    }
    bin! {
        "Cartesian+Cartesian", +, |a| c::<T>(a, 2);
        "Cartesian-Cartesian", -, |a| c::<T>(a, 2);
        "Cartesian*Cartesian", *, |a| c::<T>(a, 2);
        "Cartesian/Cartesian", /, |a| c::<T>(a, 2);
        "Cartesian+Complex", +, |a| nc::<T>(a, 2);
        "Cartesian-Complex", -, |a| nc::<T>(a, 2);
        "Cartesian/Complex", /, |a| nc::<T>(a, 2);
    }
    asg! {
        "Cartesian+=Cartesian", +=, |a| c::<T>(a, 2);
        "Cartesian-=Cartesian", -=, |a| c::<T>(a, 2);
        "Cartesian/=Cartesian", /=, |a| c::<T>(a, 2);
        "Cartesian+=Complex", +=, |a| nc::<T>(a, 2);
        "Cartesian-=Complex", -=, |a| nc::<T>(a, 2);
        "Cartesian/=Complex", /=, |a| nc::<T>(a, 2);
    }
    macro_rules! refs {
        ($($n:expr, $op:tt, $aop:tt, $y:ident;)*) => { $(
            o!(r, T, concat!("Cartesian", $n, "&"), 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let y = $y::<T>(a, 2); o.c(c::<T>(a, 0) $op &y) });
            o!(r, T, concat!("Cartesian", $n, "&mut"), 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let mut y = $y::<T>(a, 2); o.c(c::<T>(a, 0) $op &mut y); o.e(y.re); o.e(y.im) });
            o!(r, T, concat!("Cartesian", $n, "=&"), 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let y = $y::<T>(a, 2); let mut x = c::<T>(a, 0); x $aop &y; o.c(x) });
            o!(r, T, concat!("Cartesian", $n, "=&mut"), 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let mut y = $y::<T>(a, 2); let mut x = c::<T>(a, 0); x $aop &mut y; o.c(x); o.e(y.re); o.e(y.im) });
        )* };
    }
    refs! { "+", +, +=, c; "-", -, -=, c; "/", /, /=, c; "+C", +, +=, nc; "-C", -, -=, nc; "/C", /, /=, nc; }
    o!(r, T, "Cartesian*&", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let y = c::<T>(a, 2); o.c(c::<T>(a, 0) * &y) });
    o!(r, T, "Cartesian*&mut", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let mut y = c::<T>(a, 2); o.c(c::<T>(a, 0) * &mut y) });
    o!(r, T, "conj", 2, [e!(T), e!(T)], |a, o| { let z: Cartesian<T> = c::<T>(a, 0).conj(); o.c(z) });
    o!(r, T, "ops::add", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| o.c(complex::add(c::<T>(a, 0), c::<T>(a, 2))));
    o!(r, T, "ops::sub", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| o.c(complex::sub(c::<T>(a, 0), c::<T>(a, 2))));
    o!(r, T, "ops::mul_cartesian", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| o.c(complex::mul_cartesian(c::<T>(a, 0), c::<T>(a, 2))));
    o!(r, T, "ops::mul_polar", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| o.p(complex::mul_polar(p::<T>(a, 0), p::<T>(a, 2))));
    o!(r, T, "ops::div_cartesian", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| o.c(complex::div_cartesian(c::<T>(a, 0), c::<T>(a, 2))));
    o!(r, T, "ops::div_scalar_cartesian", 2, [e!(T), e!(T), e!(T)], |a, o| o.c(complex::div_scalar_cartesian(c::<T>(a, 0), d::<T>(a, 2))));
    o!(r, T, "Polar*Polar", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| o.p(p::<T>(a, 0) * p::<T>(a, 2)));
    o!(r, T, "Polar*T", 2, [e!(T), e!(T), e!(T)], |a, o| o.p(p::<T>(a, 0) * d::<T>(a, 2)));
    o!(r, T, "Polar/T", 2, [e!(T), e!(T), e!(T)], |a, o| o.p(p::<T>(a, 0) / d::<T>(a, 2)));
    o!(r, T, "Polar::mixed_abs", 2, [e!(T), e!(T)], |a, o| o.p(p::<T>(a, 0).mixed_abs()));
    o!(r, T, "Polar::mag,arg", 2, [e!(T), e!(T)], |a, o| { o.e(p::<T>(a, 0).mag()); o.e(p::<T>(a, 0).arg()); o.e(Mag::abs(&p::<T>(a, 0))); o.e(p::<T>(a, 0).ang()) });
    o!(r, T, "Cartesian::mixed_zero,one", 2, [], |_, o| { o.c(Cartesian::<T>::mixed_zero()); o.c(Cartesian::<T>::mixed_one()) });
    o!(r, T, "Polar::mixed_zero,one", 2, [], |_, o| { o.p(Polar::<T>::mixed_zero()); o.p(Polar::<T>::mixed_one()) });
    o!(r, T, "mixed_to_complex", 2, [e!(T)], |a, o| { o.c(Cartesian::<T>::mixed_to_complex(d(a, 0))); o.p(Polar::<T>::mixed_to_complex(d(a, 0))) });
    o!(r, T, "Cartesian+-*f64", 2, [e!(T), e!(T), e!(f64)], |a, o| { o.c(c::<T>(a, 0) + d::<f64>(a, 2)); o.c(c::<T>(a, 0) - d::<f64>(a, 2)); o.c(c::<T>(a, 0) * d::<f64>(a, 2)) });
    o!(r, T, "Cartesian+-*i32", 2, [e!(T), e!(T), e!(i32)], |a, o| { o.c(c::<T>(a, 0) + d::<i32>(a, 2)); o.c(c::<T>(a, 0) - d::<i32>(a, 2)); o.c(c::<T>(a, 0) * d::<i32>(a, 2)) });
    o!(r, T, "Cartesian/f64", 2, [e!(T), e!(T), e!(f64)], |a, o| o.c(c::<T>(a, 0) / d::<f64>(a, 2)));
    o!(r, T, "Cartesian/=f64", 2, [e!(T), e!(T), e!(f64)], |a, o| { let mut x = c::<T>(a, 0); x /= d::<f64>(a, 2); o.c(x) });
    o!(r, T, "Cartesian/i32", 2, [e!(T), e!(T), e!(i32)], |a, o| o.c(c::<T>(a, 0) / d::<i32>(a, 2)));
    o!(r, T, "Cartesian/=i64", 2, [e!(T), e!(T), e!(i64)], |a, o| { let mut x = c::<T>(a, 0); x /= d::<i64>(a, 2); o.c(x) });
    o!(r, T, "Cartesian+=f32,-=i16", 2, [e!(T), e!(T), e!(f32), e!(i16)], |a, o| { let mut x = c::<T>(a, 0); x += d::<f32>(a, 2); x -= d::<i16>(a, 3); o.c(x) });
    o!(r, T, "Cartesian<->Cartesian<f32>", 2, [e!(f32), e!(f32)], |a, o| {
        let z = <Cartesian<T> as MixedNumConversion<Cartesian<f32>>>::mixed_from_num(c::<f32>(a, 0));
        o.c(z);
        let w: Cartesian<f32> = z.mixed_to_num();
        o.c(w)
    });
    o!(r, T, "Polar<->f64", 2, [e!(f64)], |a, o| {
        let z = <Polar<T> as MixedNumConversion<f64>>::mixed_from_num(d::<f64>(a, 0));
        o.p(z);
        let w: f64 = z.mixed_to_num();
        o.e(w)
    });
}

/// Trigonometry and polar form: floats, signed fixed point and the user-defined type.
fn trig<T: Trig>(r: &mut Reg) {
    macro_rules! u { ($($f:ident)*) => { $( o!(r, T, stringify!($f), 1, [e!(T)], |a, o| o.e(d::<T>(a, 0).$f())); )* } }
    u!(mixed_wrap_phase mixed_sin mixed_cos mixed_asin mixed_acos mixed_atan mixed_exp);
    o!(r, T, "mixed_sincos", 2, [e!(T)], |a, o| { let (s, c) = d::<T>(a, 0).mixed_sincos(); o.e(s); o.e(c) });
    o!(r, T, "mixed_atan2", 1, [e!(T), e!(T)], |a, o| o.e(d::<T>(a, 0).mixed_atan2(d(a, 1))));
    o!(r, T, "mixed_atan2_poly", 1, [e!(T), e!(T)], |a, o| o.e(d::<T>(a, 0).mixed_atan2_poly(d(a, 1))));
    o!(r, T, "trigonometry::sin", 1, [e!(T)], |a, o| o.e(trigonometry::sin(d::<T>(a, 0))));
    o!(r, T, "trigonometry::cos", 1, [e!(T)], |a, o| o.e(trigonometry::cos(d::<T>(a, 0))));
    o!(r, T, "trigonometry::wrap_phase", 1, [e!(T)], |a, o| o.e(trigonometry::wrap_phase(d::<T>(a, 0))));
    o!(r, T, "atan::atan", 1, [e!(T)], |a, o| o.e(trigonometry::atan::atan(d::<T>(a, 0))));
    o!(r, T, "atan::atan2", 1, [e!(T), e!(T)], |a, o| o.e(trigonometry::atan::atan2(d::<T>(a, 0), d::<T>(a, 1))));
    o!(r, T, "Cartesian::to_polar", 2, [e!(T), e!(T)], |a, o| o.p(c::<T>(a, 0).to_polar()));
    o!(r, T, "Polar::to_cartesian", 2, [e!(T), e!(T)], |a, o| o.c(p::<T>(a, 0).to_cartesian()));
    o!(r, T, "ops::to_polar", 2, [e!(T), e!(T)], |a, o| o.p(complex::to_polar(c::<T>(a, 0))));
    o!(r, T, "ops::to_cartesian", 2, [e!(T), e!(T)], |a, o| o.c(complex::to_cartesian(p::<T>(a, 0))));
    o!(r, T, "new_from_polar", 2, [e!(T), e!(T)], |a, o| { o.c(Cartesian::<T>::new_from_polar(d(a, 0), d(a, 1))); o.p(Polar::<T>::new_from_polar(d(a, 0), d(a, 1))) });
    o!(r, T, "new_from_cartesian", 2, [e!(T), e!(T)], |a, o| { o.p(Polar::<T>::new_from_cartesian(d(a, 0), d(a, 1))); o.c(Cartesian::<T>::new_from_cartesian(d(a, 0), d(a, 1))) });
    o!(r, T, "ops::abs", 1, [e!(T), e!(T)], |a, o| o.e(complex::abs(c::<T>(a, 0))));
    o!(r, T, "Cartesian::mag", 1, [e!(T), e!(T)], |a, o| o.e(c::<T>(a, 0).mag()));
    o!(r, T, "Cartesian::abs", 1, [e!(T), e!(T)], |a, o| o.e(Mag::abs(&c::<T>(a, 0))));
    o!(r, T, "Cartesian::mixed_abs", 2, [e!(T), e!(T)], |a, o| o.c(c::<T>(a, 0).mixed_abs()));
    o!(r, T, "Cartesian::arg", 1, [e!(T), e!(T)], |a, o| { o.e(c::<T>(a, 0).arg()); o.e(c::<T>(a, 0).ang()) });
    o!(r, T, "Cartesian::mixed_exp", 2, [e!(T), e!(T)], |a, o| o.c(c::<T>(a, 0).mixed_exp()));
    o!(r, T, "Cartesian.conj->Polar", 2, [e!(T), e!(T)], |a, o| { let z: Polar<T> = c::<T>(a, 0).conj(); o.p(z) });
    o!(r, T, "Polar.conj->Cartesian", 2, [e!(T), e!(T)], |a, o| { let z: Cartesian<T> = p::<T>(a, 0).conj(); o.c(z) });
    o!(r, T, "Polar.conj->Polar", 2, [e!(T), e!(T)], |a, o| { let z: Polar<T> = p::<T>(a, 0).conj(); o.p(z) });
    o!(r, T, "Cartesian*Polar", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| o.c(c::<T>(a, 0) * p::<T>(a, 2)));
    o!(r, T, "Cartesian*&Polar", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let y = p::<T>(a, 2); o.c(c::<T>(a, 0) * &y) });
    o!(r, T, "Cartesian*=Polar", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let mut x = c::<T>(a, 0); x *= p::<T>(a, 2); o.c(x) });
    o!(r, T, "Cartesian*=&mutPolar", 2, [e!(T), e!(T), e!(T), e!(T)], |a, o| { let mut x = c::<T>(a, 0); let mut y = p::<T>(a, 2); x *= &mut y; o.c(x) });
}

/// `Polar * Cartesian` needs `T: ToPolar<T>`, which no real type has; complex powers need fixed point.
fn cpowi<T: Trig + fixed::traits::FixedSigned>(r: &mut Reg) {
    o!(r, T, "ops::powi", 2, [e!(T), e!(T), Ar::Count(6)], |a, o| o.c(complex::powi(c::<T>(a, 0), a[2] as usize)));
}

fn display<T: Basic>(r: &mut Reg) {
    o!(r, T, "fmt Cartesian {}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{}", c::<T>(a, 0)); });
    o!(r, T, "fmt Cartesian {:+.2}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:+.2}", c::<T>(a, 0)); });
    // The width takes effect with the std feature.
    o!(r, T, "fmt Cartesian {:20}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:20}", c::<T>(a, 0)); });
    o!(r, T, "fmt Cartesian {:+24.1}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:+24.1}", c::<T>(a, 0)); });
    o!(r, T, "fmt Polar {}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{}", p::<T>(a, 0)); });
}
fn exp_fmt<T: Basic + core::fmt::LowerExp + core::fmt::UpperExp>(r: &mut Reg) {
    o!(r, T, "fmt Cartesian {:e}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:e}", c::<T>(a, 0)); });
    o!(r, T, "fmt Cartesian {:30e}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:30e}", c::<T>(a, 0)); });
    o!(r, T, "fmt Cartesian {:E}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:E}", c::<T>(a, 0)); });
}
fn radix_fmt<T: Basic + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::Octal + core::fmt::Binary>(r: &mut Reg) {
    o!(r, T, "fmt Cartesian {:#x}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:#x}", c::<T>(a, 0)); });
    o!(r, T, "fmt Cartesian {:#40x}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:#40x}", c::<T>(a, 0)); });
    o!(r, T, "fmt Cartesian {:X}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:X}", c::<T>(a, 0)); });
    o!(r, T, "fmt Cartesian {:o}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:o}", c::<T>(a, 0)); });
    o!(r, T, "fmt Cartesian {:#b}", 0, [e!(T), e!(T)], |a, o| { let _ = write!(o.text, "{:#b}", c::<T>(a, 0)); });
}

macro_rules! floats {
    ($r:ident: $($t:ident)*) => { $(
        macro_rules! g { ($f:ident) => { o!($r, $t, stringify!($f), 1, [e!($t)], |a, o| o.e(d::<$t>(a, 0).$f())) } }
        g!(mixed_sinh); g!(mixed_asinh); g!(mixed_cosh); g!(mixed_acosh); g!(mixed_tan); g!(mixed_tanh); g!(mixed_atanh);
        g!(mixed_cbrt); g!(mixed_ceil); g!(mixed_floor); g!(mixed_exp10); g!(mixed_exp2); g!(mixed_log); g!(mixed_log10); g!(mixed_log2);
        g!(mixed_mag2db); g!(mixed_db2mag); g!(mixed_pow2db); g!(mixed_db2pow);
        o!($r, $t, "mixed_pow", 1, [e!($t), e!($t)], |a, o| o.e(d::<$t>(a, 0).mixed_pow(d::<$t>(a, 1))));
    )* };
}

fn run_sim(a: &A, o: &mut Out, f: fn(&A, &mut Out)) {
    // An interrupted call's own fault plan is put back, also when this one panics.
    struct Back((u64, u64));
    impl Drop for Back {
        fn drop(&mut self) {
            simnum::restore(self.0)
        }
    }
    let _back = Back(simnum::save());
    simnum::plan_fault(a[NARGS] as u64);
    f(a, o);
}

macro_rules! signed_fixed { ($r:ident: $($t:ident)*) => { $( real::<$t>($r); common::<$t>($r); arith::<$t>($r); trig::<$t>($r); cpowi::<$t>($r); display::<$t>($r); conv_cart!($r, $t: f32 f64 i32 u64); )* } }

pub fn all() -> Reg {
    let mut reg: Reg = vec![];
    let r = &mut reg;
    floats_all(r);
    ints(r);
    fixed_small(r);
    fixed_large(r);
    unsigned_fixed(r);
    real::<SimNum>(r);
    common::<SimNum>(r);
    arith::<SimNum>(r);
    trig::<SimNum>(r);
    display::<SimNum>(r);
    reg
}
fn floats_all(r: &mut Reg) {
    real::<f32>(r);
    common::<f32>(r);
    arith::<f32>(r);
    trig::<f32>(r);
    display::<f32>(r);
    exp_fmt::<f32>(r);
    conv_cart!(r, f32: f32 f64 i32 u64);
    real::<f64>(r);
    common::<f64>(r);
    arith::<f64>(r);
    trig::<f64>(r);
    display::<f64>(r);
    exp_fmt::<f64>(r);
    conv_cart!(r, f64: f32 f64 i32 u64);
    floats!(r: f32 f64);
}
fn ints(r: &mut Reg) {
    macro_rules! s { ($($t:ident)*) => { $( real::<$t>(r); arith::<$t>(r); display::<$t>(r); exp_fmt::<$t>(r); radix_fmt::<$t>(r); )* } }
    s!(i8 i16 i32 i64 i128 isize);
    macro_rules! u { ($($t:ident)*) => { $( real::<$t>(r); display::<$t>(r); radix_fmt::<$t>(r); )* } }
    u!(u8 u16 u32 u64 u128 usize);
}
fn fixed_small(r: &mut Reg) {
    signed_fixed!(r: I8F0 I8F3 I8F5 I16F0 I16F8 I16F13);
    radix_fmt::<I16F8>(r);
}
fn fixed_large(r: &mut Reg) {
    signed_fixed!(r: I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);
    radix_fmt::<I32F16>(r);
}
fn unsigned_fixed(r: &mut Reg) {
    macro_rules! u { ($($t:ident)*) => { $( real::<$t>(r); common::<$t>(r); display::<$t>(r); conv_cart!(r, $t: f32 f64 i32 u64); )* } }
    u!(U8F5 U16F8 U32F16 U32F29 U64F32);
}

/// Runs the operation (inside `rt::call`).
pub fn invoke(op: &Op, a: &A, o: &mut Out) {
    if op.ty == "SimNum" {
        run_sim(a, o, op.f)
    } else {
        (op.f)(a, o)
    }
}
