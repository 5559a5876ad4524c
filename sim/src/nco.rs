//! C09: a phase-accumulating oscillator, run for long histories with corruption, detuning, restarts and faults.
//!
//! Oracle: the exact accumulated phase modulo 2*pi, in 2^-96 rad integers, with an error bound that grows by the
//! type's rounding per addition and per turn removed; and f64 sine and cosine of the stored phase.

use crate::acc::trig_err;
use crate::elem::*;
use crate::harness::*;
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::{self, SimFault, SimNum};
use mixed_num::*;

/// pi * 2^96
const PI96: i128 = 0x3_243F6A88_85A308D3_13198A2E;
pub const TAU96: i128 = 2 * PI96;
/// Phases up to here are followed exactly.
const FAR: f64 = (1u64 << 30) as f64;
const BUDGET: u64 = 20_000_000;

pub fn u96<T: Elem>(x: T) -> i128 {
    if T::KIND != 0 {
        return x.raw() << (96 - T::FRAC);
    }
    let b = x.f().to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    if e == 0 {
        return 0;
    }
    let m = (b & ((1 << 52) - 1) | 1 << 52) as i128;
    let s = e - 1075 + 96;
    let v = if s >= 0 { m << s } else if s > -64 { m >> -s } else { 0 };
    if b >> 63 != 0 { -v } else { v }
}
/// Difference of two phases modulo a turn, in (-pi, pi].
pub fn apart(a: i128, b: i128) -> f64 {
    let mut d = (a - b).rem_euclid(TAU96);
    if d > PI96 {
        d -= TAU96;
    }
    d as f64 / 2.0f64.powi(96)
}

pub trait Osc: Trig {
    fn cexp(_p: Self) -> Option<(Self, Self)> {
        None
    }
    fn poly_cos(_p: Self) -> Option<Self> {
        None
    }
    /// Polynomial sine and cosine.
    fn poly(_p: Self) -> Option<(Self, Self)> {
        None
    }
}
macro_rules! osc_float { ($($t:ident)*) => { $( impl Osc for $t {
    fn cexp(p: Self) -> Option<(Self, Self)> {
        let z = Cartesian::new(Self::of(0.0), p).mixed_exp();
        Some((z.im, z.re))
    }
    fn poly_cos(p: Self) -> Option<Self> {
        Some(trigonometry::cos(p))
    }
    fn poly(p: Self) -> Option<(Self, Self)> {
        Some((trigonometry::sin(p), trigonometry::cos(p)))
    }
} )* } }
osc_float!(f32 f64 SimNum);
macro_rules! osc_fixed { ($($t:ident)*) => { $( impl Osc for $t {} )* } }
osc_fixed!(I8F0 I8F3 I8F5 I16F0 I32F0 I64F0);
macro_rules! osc_wide { ($($t:ident)*) => { $( impl Osc for $t {
    fn poly_cos(p: Self) -> Option<Self> {
        Some(trigonometry::cos(p))
    }
    fn poly(p: Self) -> Option<(Self, Self)> {
        Some((trigonometry::sin(p), trigonometry::cos(p)))
    }
} )* } }
osc_wide!(I16F8 I16F13 I32F8 I32F16 I32F22 I32F28 I32F29 I64F16 I64F32 I64F48 I64F61);

/// Performs a library call with the component fault of the plan, if any; a faulted call is repeated.
fn guarded<R>(fault: &mut u64, mut f: impl FnMut() -> R) -> Option<R> {
    let k = core::mem::take(fault);
    simnum::plan_fault(k);
    let (r, t, _) = rt::call(BUDGET, &mut f);
    simnum::plan_fault(0);
    stat(St::CALLS);
    log(t);
    match r {
        Ok(v) => Some(v),
        Err(e) if e.is::<SimFault>() => {
            stat(St::SIMFAULT);
            stat(St::RETRY);
            let (r, t, _) = rt::call(BUDGET, &mut f);
            stat(St::CALLS);
            log(t);
            r.ok()
        }
        Err(_) => {
            stat(St::PANICS);
            None
        }
    }
}

#[derive(Clone, Copy)]
struct State<T> {
    phase: T,
    /// Exact phase (2^-96 rad, modulo a turn) and the bound of the error the type may have accumulated.
    ideal: i128,
    tol: f64,
}
fn ulp<T: Elem>() -> f64 {
    if T::KIND == 0 { 0.0 } else { T::ulp() }
}
fn in_range<T: Osc>(x: T) -> bool {
    // The type's own pi is the nearest value.
    let pi = if T::NAME == "f32" { std::f32::consts::PI as f64 } else { std::f64::consts::PI };
    if T::KIND == 0 {
        return -pi <= x.f() && x.f() < pi;
    }
    let p = ((PI96 >> (95 - T::FRAC)) + 1) >> 1;
    -p <= x.raw() && x.raw() < p
}
fn bits<T: Elem>(x: T) -> String {
    format!("{:?} (0x{:x})", x.f(), x.en())
}

/// One wrap, checked by itself. Returns the number of turns removed.
fn wrap<T: Osc>(a: T, how: u128, fault: &mut u64) -> (T, f64) {
    let p = match guarded(fault, || if how & 1 == 0 { a.mixed_wrap_phase() } else { trigonometry::wrap_phase(a) }) {
        Some(p) => p,
        None => fail("wrap-panics", &format!("{}: wrapping {} panics", T::NAME, bits(a))),
    };
    stat(St::CHECKED);
    log128(p.en());
    if !in_range(p) {
        fail("out-of-range", &format!("{}: {} is wrapped to {}, outside [-pi, pi)", T::NAME, bits(a), bits(p)));
    }
    if a.f().abs() > FAR {
        return (p, f64::INFINITY);
    }
    let turns = ((a.f() - p.f()) / std::f64::consts::TAU).round().abs();
    let tol = wrap_tol::<T>(turns);
    let d = apart(u96(p), u96(a));
    if d.abs() > tol {
        fail("not-congruent", &format!("{}: {} is wrapped to {}, which is {d:e} rad off after {turns} turns", T::NAME, bits(a), bits(p)));
    }
    (p, tol)
}
fn wrap_tol<T: Elem>(turns: f64) -> f64 {
    if turns == 0.0 {
        0.0
    } else if T::KIND == 0 {
        turns * 2.0 * T::EPS + 16.0 * T::EPS
    } else {
        turns * (2.0 * T::ulp() + 5e-16)
    }
}

fn phasor<T: Osc>(p: T, kind: u128, mag: T, fault: &mut u64) {
    let a = p.f();
    if T::KIND == 2 && T::FRAC < 6 || !a.is_finite() || a.abs() > 1000.0 {
        stat(St::SKIPPED);
        return;
    }
    let (s, c) = (a.sin(), a.cos());
    // Unwrapped phases are wrapped by the function first.
    let mut e = trig_err::<T>(a) + if T::KIND == 2 { wrap_tol::<T>((a.abs() / std::f64::consts::TAU).ceil()) } else { 0.0 };
    let (mut ws, mut wc) = (s, c);
    let (name, r): (&str, Option<(Option<T>, Option<T>)>) = match kind % 8 {
        0 => ("mixed_sin", guarded(fault, || (Some(p.mixed_sin()), None))),
        1 => ("mixed_cos", guarded(fault, || (None, Some(p.mixed_cos())))),
        2 => ("mixed_sincos", guarded(fault, || p.mixed_sincos()).map(|(s, c)| (Some(s), Some(c)))),
        3 | 4 => {
            let m = mag.f();
            let max = if T::KIND == 0 { 1e30 } else { T::max_raw() as f64 * T::ulp() };
            if !m.is_finite() || m.abs() * (1.0 + 2.0 * e) + 4.0 * ulp::<T>() >= max {
                stat(St::SKIPPED);
                return;
            }
            ws *= m;
            wc *= m;
            e = m.abs() * (e + 1e-15 + 2.0 * T::EPS) + 2.0 * ulp::<T>() + if T::KIND == 0 { 1e-44 } else { 0.0 };
            let z = match kind % 8 {
                3 => guarded(fault, || Polar::new(mag, p).to_cartesian()),
                _ => guarded(fault, || <Cartesian<T> as NewFromPolar<T>>::new_from_polar(mag, p)),
            };
            ("conversion to Cartesian", z.map(|z| (Some(z.im), Some(z.re))))
        }
        5 => match guarded(fault, || T::cexp(p)) {
            Some(None) => return,
            r => ("complex exponential", r.flatten().map(|(s, c)| (Some(s), Some(c)))),
        },
        6 => {
            e += 1e-5 + 40.0 * ulp::<T>();
            if !in_range(p) {
                // The cosine wraps by itself, the sine does not.
                match guarded(fault, || T::poly_cos(p)) {
                    Some(None) => return,
                    r => ("polynomial cosine", r.flatten().map(|c| (None, Some(c)))),
                }
            } else {
                match guarded(fault, || T::poly(p)) {
                    Some(None) => return,
                    r => ("polynomial sine and cosine", r.flatten().map(|(s, c)| (Some(s), Some(c)))),
                }
            }
        }
        _ => {
            // The pair and the single functions agree.
            let r = guarded(fault, || (p.mixed_sincos(), p.mixed_sin(), p.mixed_cos()));
            if let Some(((s, c), s1, c1)) = r {
                stat(St::CHECKED);
                let near = 4.0 * T::EPS + 4.0 * ulp::<T>();
                if (s.f() - s1.f()).abs() > near || (c.f() - c1.f()).abs() > near {
                    fail("pair-disagrees", &format!("{}: at {} sincos gives ({:?}, {:?}), sin and cos give ({:?}, {:?})", T::NAME, bits(p), s.f(), c.f(), s1.f(), c1.f()));
                }
            }
            ("mixed_sincos", r.map(|((s, c), _, _)| (Some(s), Some(c))))
        }
    };
    let Some((gs, gc)) = r else { fail("phasor-panics", &format!("{}: {name} at {} (magnitude {}) panics", T::NAME, bits(p), bits(mag))) };
    stat(St::CHECKED);
    for (g, w, n) in [(gs, ws, "sine"), (gc, wc, "cosine")] {
        if let Some(g) = g {
            log128(g.en());
            if !((g.f() - w).abs() <= e) {
                fail("wrong-phasor", &format!("{}: {name} at {} (magnitude {}): the {n} part is {:?}, true is {w:?}, allowed error {e:e}", T::NAME, bits(p), bits(mag), g.f()));
            }
        }
    }
}

fn fits<T: Elem>(a: T, b: T) -> bool {
    T::KIND == 0 || (T::min_raw()..=T::max_raw()).contains(&(a.raw() + b.raw()))
}
fn advance<T: Osc>(st: &mut State<T>, step: T, how: u128, look: u128, mag: T, fault: &mut u64) {
    let x = st.phase;
    stat(St::STEPS);
    let Some(a) = guarded(&mut 0, || x + step) else {
        stat(St::OVERFLOW);
        if fits(x, step) {
            harness_error("an addition that fits panicked");
        }
        return;
    };
    // Sometimes the phasor is taken before wrapping: the functions wrap by themselves.
    if look & 8 != 0 && look & 7 < 6 {
        phasor(a, look & 7, mag, fault);
    }
    let (p, tol) = wrap(a, how, fault);
    let far = step.f().abs() > FAR || tol.is_infinite();
    st.phase = p;
    st.tol += tol + if T::KIND == 0 { T::EPS * (x.f().abs() + step.f().abs()) + 1e-28 } else { 0.0 };
    if far || st.tol > 1.0 {
        // Not followed any further: start again from here.
        st.ideal = u96(p);
        st.tol = 0.0;
    } else {
        st.ideal = (st.ideal + u96(step)).rem_euclid(TAU96);
        let d = apart(u96(p), st.ideal);
        if d.abs() > st.tol {
            fail("phase-drift", &format!("{}: the phase is {} after adding {} to {}, {d:e} rad from the exact phase, allowed {:e}", T::NAME, bits(p), bits(step), bits(x), st.tol));
        }
    }
    if look & 8 == 0 {
        phasor(p, look & 7, mag, fault);
    }
    state(mix((p.en() as u64) ^ (T::BITS as u64) << 40 ^ (T::FRAC as u64) << 50 ^ look as u64));
}

fn oscillator<T: Osc>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let zero = T::de(0);
        let mut st = State { phase: zero, ideal: 0, tol: 0.0 };
        let mut step = zero;
        let mut mag = T::of(1.0);
        let mut saved = st;
        let mut fault = 0u64;
        // Steps taken since the save: (step, way of wrapping), and the phase reached.
        let mut since: Vec<(T, u128)> = vec![];
        let mut clean = true;
        let mut known = false;
        for r in p {
            match r.k {
                "phase" | "corrupt" | "flip" => {
                    let v = if r.k == "flip" { T::de(st.phase.en() ^ 1 << (r.n(0) % T::BITS as u128)) } else { T::de(r.n(0)) };
                    if !v.f().is_finite() {
                        stat(St::SKIPPED);
                        continue;
                    }
                    stat(if r.k == "flip" { St::BITFLIP } else { St::WILD });
                    // The next wrap brings it back, congruent to what it was corrupted to.
                    let (w, tol) = wrap(v, r.n(1), &mut fault);
                    st = State { phase: w, ideal: if tol.is_infinite() || tol > 1.0 { u96(w) } else { u96(v).rem_euclid(TAU96) }, tol: if tol.is_infinite() || tol > 1.0 { 0.0 } else { tol } };
                    phasor(w, r.n(2), mag, &mut fault);
                    if r.n(3) & 1 == 1 {
                        phasor(v, r.n(2), mag, &mut fault);
                    }
                    stat(St::SETTLED);
                    clean = false;
                }
                "step" => {
                    let v = T::de(r.n(0));
                    if v.f().is_finite() {
                        step = v;
                        stat(St::DETUNE);
                    }
                }
                "mag" => {
                    let v = T::de(r.n(0));
                    if v.f().is_finite() {
                        mag = v;
                    }
                }
                "fault" => fault = r.n(0) as u64 % 64,
                "save" => {
                    saved = st;
                    since.clear();
                    clean = true;
                    known = true;
                }
                "restore" => {
                    stat(St::RESTORE);
                    let end = st.phase;
                    st = saved;
                    if clean && known {
                        for &(s, how) in &since {
                            advance(&mut st, s, how, 16, mag, &mut fault);
                        }
                        stat(St::CHECKED);
                        if st.phase.en() != end.en() {
                            fail("does-not-resume", &format!("{}: after reloading the saved phase {} and repeating {} steps the phase is {}, it was {}", T::NAME, bits(saved.phase), since.len(), bits(st.phase), bits(end)));
                        }
                        st = saved;
                    }
                    since.clear();
                    clean = true;
                }
                "run" => {
                    for i in 0..r.n(0) % 400 {
                        let look = if r.n(2) == 0 { i * 5 + r.n(1) % 4096 } else { r.n(1) };
                        advance(&mut st, step, i + r.n(1) % 4096, look & 15, mag, &mut fault);
                        since.push((step, i + r.n(1) % 4096));
                    }
                }
                _ => {}
            }
        }
    })]);
}

struct Ty {
    name: &'static str,
    bits: u32,
    frac: i32,
    gen: fn(&mut Rng, Style) -> u128,
    of: fn(f64) -> u128,
    run: fn(&Plan),
}
fn of<T: Elem>(x: f64) -> u128 {
    T::of(x).en()
}
macro_rules! tys { ($($t:ident)*) => { const TYS: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, bits: <$t as Elem>::BITS, frac: <$t as Elem>::FRAC, gen: <$t as Elem>::gen, of: of::<$t>, run: oscillator::<$t> } ),* ]; } }
tys!(f32 f64 SimNum I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);

fn gen_step(ty: &Ty, r: &mut Rng) -> u128 {
    let pi = std::f64::consts::PI;
    let lim = if ty.frac < 0 { 1e6 } else { 2.0f64.powi(ty.bits as i32 - 1 - ty.frac) - pi };
    let x = match r.below(10) {
        0 => 0.0,
        1 => (r.f64() - 0.5) * 1e-3,
        2 => pi * r.range(-4, 4) as f64 / 2.0,
        3 => pi * r.range(-8, 8) as f64 / 4.0 + (r.f64() - 0.5) * 1e-6,
        4 | 5 => (r.f64() - 0.5) * lim.min(40.0) * 2.0,
        6 => (r.f64() - 0.5) * lim.min(2e4) * 2.0,
        7 => return (ty.gen)(r, Style::Wild),
        _ => (r.f64() - 0.5) * 2.0 * lim.min(pi),
    };
    (ty.of)(x.clamp(-lim, lim))
}
fn gen_phase(ty: &Ty, r: &mut Rng) -> u128 {
    let pi = std::f64::consts::PI;
    match r.below(6) {
        0 => {
            // At a boundary, a few bits off.
            let b = (ty.of)(pi * r.range(-12, 12) as f64 / if r.chance(1, 2) { 1.0 } else { 2.0 });
            let m = u128::MAX >> (128 - ty.bits);
            b.wrapping_add(r.range(-3, 3) as i128 as u128) & m
        }
        1 | 2 => (ty.gen)(r, Style::Wild),
        3 => (ty.of)((r.f64() - 0.5) * 200.0),
        4 => (ty.of)((r.f64() - 0.5) * 2.0 * 10f64.powi(r.range(0, 9) as i32)),
        _ => (ty.of)((r.f64() - 0.5) * 2.0 * pi),
    }
}

pub struct Nco;
impl Prop for Nco {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self) -> (u64, u64) {
        (60_000, 1_500_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let t = if r.chance(1, 4) { r.below(3) as usize } else { r.below(TYS.len() as u64) as usize };
        let ty = &TYS[t];
        let mut p = vec![rec("type", &[t as u128])];
        p.push(rec("phase", &[gen_phase(ty, r), r.below(2) as u128, r.below(8) as u128, r.below(2) as u128]));
        p.push(rec("step", &[gen_step(ty, r)]));
        if r.chance(1, 2) {
            p.push(rec("mag", &[(ty.gen)(r, Style::Tame)]));
        }
        for _ in 0..r.range(2, 14) {
            match r.below(16) {
                0 => p.push(rec("corrupt", &[gen_phase(ty, r), r.below(2) as u128, r.below(8) as u128, r.below(2) as u128])),
                1 => p.push(rec("flip", &[r.below(ty.bits as u64) as u128, r.below(2) as u128, r.below(8) as u128, r.below(2) as u128])),
                2 | 3 => p.push(rec("step", &[gen_step(ty, r)])),
                4 => p.push(rec("save", &[])),
                5 => p.push(rec("restore", &[])),
                6 => {
                    let s = if r.chance(1, 3) { Style::Wild } else { Style::Tame };
                    p.push(rec("mag", &[(ty.gen)(r, s)]))
                }
                7 if ty.name == "SimNum" => p.push(rec("fault", &[1 + r.below(12) as u128])),
                _ => {
                    let n = if r.chance(1, 20) { r.below(400) } else { r.below(24) };
                    p.push(rec("run", &[n as u128, r.below(16) as u128, r.below(3) as u128]))
                }
            }
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (TYS[(find(p, "type").map_or(0, |r| r.n(0)) % TYS.len() as u128) as usize].run)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        match r.k {
            "type" => TYS[(r.n(0) % TYS.len() as u128) as usize].name.to_string(),
            "phase" | "corrupt" => "the stored phase becomes these bits, then is wrapped".into(),
            "flip" => format!("bit {} of the stored phase flips, then it is wrapped", r.n(0)),
            "step" => "the step becomes these bits".into(),
            "mag" => "magnitude of the phasor".into(),
            "fault" => format!("component operation {} fails, then the call is repeated", r.n(0)),
            "run" => format!("{} steps", r.n(0) % 400),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::STEPS as usize] > 2 && r.stats[St::CHECKED as usize] > 4
    }
    fn rule(&self) -> &'static str {
        "each run: an oscillator of one of 20 component types takes up to a few hundred steps (step sizes from zero to many turns, changed at random) through wrap_phase or mixed_wrap_phase, observed at every step through one of sine, cosine, sincos, polar conversion, complex exponential or polynomial sine and cosine; its phase is corrupted, bit-flipped, saved and reloaded. Non-trivial: at least three steps and five comparisons. Distinct: by plan."
    }
    fn stub(&self) -> &'static str {
        "the oscillator loop of the caller, its storage and the component type SimNum are simulated"
    }
}
