//! C16: an actuator that is stepped to its commands by the sign and the size of what is left, between the limits of its
//! type, through end stops, corrupted positions, restarts and changes of the command.
//!
//! Oracle: exact comparisons in the component type's own order, and exact integer (or f64) sizes.

use crate::elem::*;
use crate::harness::*;
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::SimNum;
use crate::track::guarded;
use mixed_num::*;
use std::f64::consts::{PI, TAU};

fn num<T: Elem>(x: T) -> String {
    format!("{:?} (0x{:x})", x.f(), x.en())
}

pub trait Axis: Basic {
    /// Half a turn and a full turn as the library gives them; None where the type has none.
    fn half() -> Option<Self> {
        None
    }
    fn turn() -> Option<Self> {
        None
    }
}
macro_rules! plain { ($($t:ident)*) => { $( impl Axis for $t {} )* } }
plain!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
macro_rules! rotary { ($($t:ident)*) => { $( impl Axis for $t {
    fn half() -> Option<Self> { Some(<$t as MixedPi>::mixed_pi()) }
    fn turn() -> Option<Self> { Some(<$t as MixedPi>::mixed_tau()) }
} )* } }
rotary!(SimNum f32 f64 I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);

fn neg<T: Elem>(x: T) -> bool {
    if T::KIND == 0 { x.f().is_sign_negative() } else { T::SIGNED && x.raw() < 0 }
}
fn pos<T: Elem>(x: T) -> bool {
    if T::KIND == 0 { !x.f().is_sign_negative() } else { !T::SIGNED || x.raw() > 0 }
}
/// The value of equal size that is not negative; None when the type does not hold it.
fn size<T: Elem>(x: T) -> Option<T> {
    match T::KIND {
        0 => Some(T::de(x.en() & !(1 << (T::BITS - 1)))),
        _ if !T::SIGNED => Some(x),
        _ => x.raw().checked_abs().filter(|r| *r <= T::max_raw()).map(|r| T::de(r as u128)),
    }
}
fn top<T: Elem>() -> T {
    match T::KIND {
        0 => T::of(if T::BITS == 32 { f32::MAX as f64 } else { f64::MAX }),
        _ => T::de(if T::SIGNED { T::max_raw() as u128 } else { u128::MAX >> (128 - T::BITS) }),
    }
}
fn bottom<T: Elem>() -> T {
    match T::KIND {
        0 => T::of(if T::BITS == 32 { f32::MIN as f64 } else { f64::MIN }),
        _ => T::de(if T::SIGNED { T::min_raw() as u128 } else { 0 }),
    }
}

struct Servo<T> {
    pos: T,
    cmd: T,
    step: T,
    /// Running extremes, and what they must be.
    seen: Option<(T, T)>,
    hi: T,
    lo: T,
    way: u128,
    fault: u64,
}

impl<T: Axis> Servo<T> {
    fn sign(&mut self, d: T) -> T {
        let free = self.way & 1 == 1;
        let Some(s) = guarded(&mut self.fault, || if free { trigonometry::sign(d) } else { d.mixed_sign() }) else {
            fail("unexpected-panic", &format!("{}: the sign of {} panics", T::NAME, num(d)))
        };
        stat(St::CHECKED);
        log128(s.en());
        let w = T::of(if d < T::de(0) { -1.0 } else { 1.0 });
        if s.en() != w.en() {
            fail("wrong-sign", &format!("{}: the sign of {} is {}, not {}", T::NAME, num(d), num(s), num(w)));
        }
        let n = guarded(&mut self.fault, || d.mixed_is_negative());
        let p = guarded(&mut self.fault, || d.mixed_is_positive());
        if n != Some(neg(d)) || p != Some(pos(d)) {
            fail("wrong-sign", &format!("{}: {} is negative: {n:?}, positive: {p:?}", T::NAME, num(d)));
        }
        s
    }
    fn size(&mut self, d: T) -> Option<T> {
        let a = guarded(&mut self.fault, || d.mixed_abs());
        stat(St::CHECKED);
        let w = size(d);
        match (a, w) {
            (Some(a), Some(w)) if a.en() == w.en() => Some(a),
            (None, None) => {
                stat(St::OVERFLOW);
                None
            }
            (a, _) => fail("wrong-size", &format!("{}: the absolute value of {} is {}", T::NAME, num(d), a.map_or("a panic".into(), num))),
        }
    }
    /// What is left to go, and whether it is half of it.
    fn left(&self) -> (T, bool) {
        let (c, p) = (self.cmd, self.pos);
        if T::KIND == 0 {
            let (d, _, _) = rt::call(10_000, || c - p);
            if let Ok(d) = d {
                if d.f().is_finite() {
                    return (d, false);
                }
            }
            return (T::of(c.f() / 2.0 - p.f() / 2.0), true);
        }
        if !T::SIGNED {
            let (a, b) = (c.en(), p.en());
            return (T::de(if a > b { a - b } else { b - a }), false);
        }
        match c.raw().checked_sub(p.raw()).and_then(T::unraw) {
            Some(d) => (d, false),
            None => (T::unraw(c.raw() / 2 - p.raw() / 2).unwrap_or(T::de(0)), true),
        }
    }
    /// One step towards the command. Returns whether the actuator is there.
    fn tick(&mut self) -> bool {
        stat(St::STEPS);
        let (d, half) = self.left();
        let s = self.sign(d);
        let a = self.size(d);
        // What is left is too large to be held: certainly more than a step.
        let arrived = !half && a.is_some_and(|a| a <= self.step);
        if arrived {
            self.pos = self.cmd;
        } else {
            let (p, st) = (self.pos, self.step);
            let down = !T::SIGNED && self.cmd < p;
            match rt::call(10_000, || if down { p - s * st } else { p + s * st }).0 {
                Ok(n) => {
                    // Between where it was and the command.
                    if n < p && n < self.cmd || n > p && n > self.cmd {
                        fail("overshoot", &format!("{}: a step of {} from {} towards {} leads to {}", T::NAME, num(st), num(p), num(self.cmd), num(n)));
                    }
                    self.pos = n;
                }
                Err(_) => harness_error("a step towards the command does not fit"),
            }
        }
        let p = self.pos;
        if p > self.hi {
            self.hi = p;
        }
        if p < self.lo {
            self.lo = p;
        }
        self.seen = Some(match self.seen {
            None => (p, p),
            Some((h, l)) => (if p > h { p } else { h }, if p < l { p } else { l }),
        });
        let (h, l) = self.seen.unwrap();
        stat(St::CHECKED);
        if !(self.hi == h) || !(self.lo == l) {
            fail("wrong-extremes", &format!("{}: the extremes since the restart are {} and {}, recorded are {} and {}", T::NAME, num(l), num(h), num(self.lo), num(self.hi)));
        }
        state(mix((p.en() as u64) ^ (T::BITS as u64) << 40 ^ (T::FRAC as u64) << 50));
        log128(p.en());
        arrived
    }
    /// All registers from the constants of the type.
    fn restart(&mut self) {
        stat(St::RESTORE);
        let f = &mut self.fault;
        let zero = guarded(f, T::mixed_zero);
        let one = guarded(f, T::mixed_one);
        let z = guarded(f, <Cartesian<T> as MixedZero>::mixed_zero).map(|z| (z.re, z.im));
        let o = guarded(f, <Cartesian<T> as MixedOne>::mixed_one).map(|z| (z.re, z.im));
        let pz = guarded(f, <Polar<T> as MixedZero>::mixed_zero).map(|z| (z.mag, z.ang));
        let po = guarded(f, <Polar<T> as MixedOne>::mixed_one).map(|z| (z.mag, z.ang));
        let max = guarded(f, T::mixed_max_value);
        let min = guarded(f, T::mixed_min_value);
        let (n, e) = (T::de(0), T::of(1.0));
        for (name, got, want) in [
            ("zero", zero.map(|x| (x, n)), (n, n)),
            ("one", one.map(|x| (x, n)), (e, n)),
            ("the Cartesian zero", z, (n, n)),
            ("the Cartesian one", o, (e, n)),
            ("the polar zero", pz, (n, n)),
            ("the polar one", po, (e, n)),
            ("the largest value", max.map(|x| (x, n)), (top::<T>(), n)),
            ("the least value", min.map(|x| (x, n)), (bottom::<T>(), n)),
        ] {
            stat(St::CHECKED);
            match got {
                Some(g) if g.0.en() == want.0.en() && g.1.en() == want.1.en() => {}
                Some(g) => fail("wrong-constant", &format!("{}: {name} is ({}, {})", T::NAME, num(g.0), num(g.1))),
                None => fail("unexpected-panic", &format!("{}: {name} panics", T::NAME)),
            }
        }
        for (name, true_, get) in [("pi", PI, T::half as fn() -> Option<T>), ("tau", TAU, T::turn)] {
            stat(St::CHECKED);
            match guarded(f, get) {
                Some(None) => {}
                Some(Some(v)) => {
                    let tol = if T::KIND == 0 { 0.0 } else { 0.5 * T::ulp() + true_ * 2.3e-16 };
                    let w = if T::KIND == 0 { T::of(true_).f() } else { true_ };
                    if (v.f() - w).abs() > tol {
                        fail("wrong-constant", &format!("{}: {name} is {}", T::NAME, num(v)));
                    }
                }
                None if top::<T>().f() < true_ => stat(St::OVERFLOW),
                None => fail("unexpected-panic", &format!("{}: {name} panics although the type holds it", T::NAME)),
            }
        }
        self.pos = zero.unwrap();
        self.seen = None;
        self.hi = min.unwrap();
        self.lo = max.unwrap();
    }
    /// It arrives within a bounded number of steps, and stays.
    fn must_arrive(&mut self) {
        let (d, half) = self.left();
        let d = d.f().abs() * if half { 2.0 } else { 1.0 };
        let coarse = d / if half { 128.0 } else { 256.0 };
        let limit = top::<T>().f() / 4.0;
        let big = self.pos.f().abs().max(self.cmd.f().abs());
        if d / self.step.f() > 256.0 || !(self.step.f() >= big * T::EPS * 8.0) {
            // Too slow: a larger step.
            let s = coarse.max(d / 256.0).min(limit).max(big * T::EPS * 8.0);
            self.step = if T::KIND == 0 { T::of(s.max(if T::BITS == 32 { 1e-38 } else { 1e-300 })) } else { T::of(s.max(T::ulp())) };
        }
        let per = self.step.f() * if T::KIND == 0 { 0.75 } else { 1.0 };
        let n = (d / per).min(4000.0).ceil() as u64 + 3;
        if n >= 4000 {
            stat(St::SKIPPED);
            return;
        }
        let mut there = false;
        for _ in 0..n {
            there = self.tick();
        }
        for _ in 0..3 {
            stat(St::CHECKED);
            if !there || !(self.pos == self.cmd) {
                fail("does-not-arrive", &format!("{}: {n} steps of {} after the last fault the actuator is at {}, commanded is {}", T::NAME, num(self.step), num(self.pos), num(self.cmd)));
            }
            there = self.tick();
        }
        stat(St::SETTLED);
    }
}

fn servo<T: Axis>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let mut s = Servo { pos: T::de(0), cmd: T::de(0), step: T::of(1.0), seen: None, hi: bottom::<T>(), lo: top::<T>(), way: 0, fault: 0 };
        let mut saved = s.pos;
        for r in p {
            match r.k {
                "command" => {
                    let v = T::de(r.n(0));
                    if v.f().is_finite() {
                        s.cmd = v;
                        stat(St::DETUNE);
                    }
                }
                "step" => {
                    let v = T::de(r.n(0));
                    if v > T::de(0) && v.f().is_finite() && v.f() <= top::<T>().f() / 4.0 && (T::KIND != 0 || v.f() > 1e-38) {
                        s.step = v;
                    }
                }
                "way" => s.way = r.n(0),
                "run" => {
                    for _ in 0..r.n(0) % 64 {
                        s.tick();
                    }
                }
                "stop" => {
                    stat(St::SPIKE);
                    let up = r.n(0) & 1 == 1;
                    match guarded(&mut s.fault, || if up { T::mixed_max_value() } else { T::mixed_min_value() }) {
                        Some(v) if v.en() == (if up { top::<T>() } else { bottom::<T>() }).en() => s.pos = v,
                        v => fail("wrong-constant", &format!("{}: the {} value is {}", T::NAME, if up { "largest" } else { "least" }, v.map_or("a panic".into(), num))),
                    }
                }
                "flip" | "wild" => {
                    let v = if r.k == "flip" { T::de(s.pos.en() ^ 1 << (r.n(0) % T::BITS as u128)) } else { T::de(r.n(0)) };
                    if v.f().is_finite() {
                        stat(if r.k == "flip" { St::BITFLIP } else { St::WILD });
                        s.pos = v;
                    }
                }
                "save" => saved = s.pos,
                "restore" => {
                    stat(St::RESTORE);
                    s.pos = saved;
                }
                "restart" => s.restart(),
                "fault" => s.fault = r.n(0) as u64 % 32,
                "arrive" => s.must_arrive(),
                _ => {}
            }
        }
        s.fault = 0;
        s.must_arrive();
    })]);
}

struct Ty {
    name: &'static str,
    bits: u32,
    gen: fn(&mut Rng, Style) -> u128,
    run: fn(&Plan),
}
macro_rules! tys { ($($t:ident)*) => { const TYS: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, bits: <$t as Elem>::BITS, gen: <$t as Elem>::gen, run: servo::<$t> } ),* ]; } }
tys!(SimNum f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);

pub struct Actuator;
impl Prop for Actuator {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn runs(&self) -> (u64, u64) {
        (60_000, 1_500_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let t = r.below(TYS.len() as u64) as usize;
        let ty = &TYS[t];
        let val = |r: &mut Rng| {
            let st = if r.chance(1, 2) { Style::Tame } else { Style::Wild };
            (ty.gen)(r, st)
        };
        let mut p = vec![rec("type", &[t as u128]), rec("way", &[r.below(2) as u128])];
        if r.chance(2, 3) {
            p.push(rec("restart", &[]));
        }
        for _ in 0..r.range(3, 12) {
            match r.below(16) {
                0..=2 => p.push(rec("command", &[val(r)])),
                3 | 4 => p.push(rec("step", &[val(r)])),
                5 => p.push(rec("stop", &[r.below(2) as u128])),
                6 => p.push(rec("flip", &[r.below(ty.bits as u64) as u128])),
                7 => p.push(rec("wild", &[val(r)])),
                8 => p.push(rec("save", &[])),
                9 => p.push(rec("restore", &[])),
                10 => p.push(rec("restart", &[])),
                11 => p.push(rec("way", &[r.below(2) as u128])),
                12 if ty.name == "SimNum" => p.push(rec("fault", &[1 + r.below(8) as u128])),
                13 if r.chance(1, 3) => p.push(rec("arrive", &[])),
                _ => p.push(rec("run", &[r.below(64) as u128])),
            }
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (TYS[(find(p, "type").map_or(0, |r| r.n(0)) % TYS.len() as u128) as usize].run)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        match r.k {
            "type" => TYS[(r.n(0) % TYS.len() as u128) as usize].name.to_string(),
            "command" => format!("commanded to the value 0x{:x}", r.n(0)),
            "step" => format!("steps of the size 0x{:x}", r.n(0)),
            "way" => (if r.n(0) & 1 == 1 { "sign by trigonometry::sign" } else { "sign by mixed_sign" }).into(),
            "run" => format!("{} steps", r.n(0) % 64),
            "stop" => format!("driven to the {} end stop", if r.n(0) & 1 == 1 { "upper" } else { "lower" }),
            "flip" => format!("bit {} of the position flips", r.n(0)),
            "wild" => format!("the position is overwritten by 0x{:x}", r.n(0)),
            "restart" => "restarted: all registers from the constants of the type".into(),
            "fault" => format!("component operation {} fails, then the call is repeated", r.n(0)),
            "arrive" => "it must arrive now".into(),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::SETTLED as usize] > 0 && r.stats[St::CHECKED as usize] > 20
    }
    fn rule(&self) -> &'static str {
        "each run: an actuator whose position is one of 37 real types is stepped towards its commands by the library's sign and absolute value, through end stops at the library's limits, flipped and overwritten positions, save and restore, restarts from the library's constants, and component faults; every sign, predicate, size, constant and running extreme is compared exactly, and after the last fault the actuator must arrive within a bounded number of steps and stay. Non-trivial: arrived at least once. Distinct: by plan."
    }
    fn stub(&self) -> &'static str {
        "the actuator, its registers and additions, and the component type SimNum are simulated"
    }
}
