//! C14: nodes that compute in different number types hand values on over links and checkpoints of primitive words,
//! through message loss, duplication, reordering and crashes.
//!
//! Oracle: the conversions as the language and the definition of fixed point give them, and the numeric value itself.

use crate::acc::{gen_prim, PRIMS};
use crate::elem::*;
use crate::harness::*;
use crate::rng::{mix, Rng};
use crate::rt;
use crate::simnum::{self, SimFault, SimNum};
use mixed_num::*;

const BUDGET: u64 = 1_000_000;
const SHAPES: &[&str] = &["real", "Cartesian", "real as Cartesian", "Polar", "mixed_to_complex", "two reals"];
const WBITS: &[u32] = &[32, 64, 8, 16, 32, 64, 128, 64, 8, 16, 32, 64, 128, 64];

type Pair = (u128, u128);

/// A component type as a node of the system: what it can be converted to and from.
trait Node: Basic {
    const CART: bool;
    const RC: bool;
    fn cart_out(c: &Cartesian<Self>, w: u8) -> Pair;
    fn cart_in(w: u8, p: Pair) -> Cartesian<Self>;
    fn rc_out(x: &Self, w: u8) -> Pair;
    fn rc_in(w: u8, p: Pair) -> Self;
}
macro_rules! wires {
    ($w:expr, $W:ident => $e:expr) => {
        match $w {
            0 => { type $W = f32; $e }
            1 => { type $W = f64; $e }
            2 => { type $W = i8; $e }
            3 => { type $W = i16; $e }
            4 => { type $W = i32; $e }
            5 => { type $W = i64; $e }
            6 => { type $W = i128; $e }
            7 => { type $W = isize; $e }
            8 => { type $W = u8; $e }
            9 => { type $W = u16; $e }
            10 => { type $W = u32; $e }
            11 => { type $W = u64; $e }
            12 => { type $W = u128; $e }
            _ => { type $W = usize; $e }
        }
    };
}
macro_rules! cart_yes { () => {
    const CART: bool = true;
    fn cart_out(c: &Cartesian<Self>, w: u8) -> Pair {
        wires!(w, W => { let q: Cartesian<W> = c.mixed_to_num(); (q.re.en(), q.im.en()) })
    }
    fn cart_in(w: u8, p: Pair) -> Cartesian<Self> {
        wires!(w, W => <Cartesian<Self> as MixedNumConversion<Cartesian<W>>>::mixed_from_num(Cartesian { re: W::de(p.0), im: W::de(p.1) }))
    }
} }
macro_rules! cart_no { () => {
    const CART: bool = false;
    fn cart_out(_: &Cartesian<Self>, _: u8) -> Pair { unreachable!() }
    fn cart_in(_: u8, _: Pair) -> Cartesian<Self> { unreachable!() }
} }
macro_rules! rc_yes { () => {
    const RC: bool = true;
    fn rc_out(x: &Self, w: u8) -> Pair {
        wires!(w, W => { let q: Cartesian<W> = x.mixed_to_num(); (q.re.en(), q.im.en()) })
    }
    fn rc_in(w: u8, p: Pair) -> Self {
        wires!(w, W => <Self as MixedNumConversion<Cartesian<W>>>::mixed_from_num(Cartesian { re: W::de(p.0), im: W::de(p.1) }))
    }
} }
macro_rules! rc_no { () => {
    const RC: bool = false;
    fn rc_out(_: &Self, _: u8) -> Pair { unreachable!() }
    fn rc_in(_: u8, _: Pair) -> Self { unreachable!() }
} }
macro_rules! node { ($a:ident $b:ident: $($t:ident)*) => { $( impl Node for $t { $a!(); $b!(); } )* } }
node!(cart_yes rc_yes: f32 f64 I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);
node!(cart_no rc_yes: U8F5 U16F8 U32F16 U32F29 U64F32);
#[cfg(not(feature = "stand_in"))]
node!(cart_yes rc_no: SimNum);
#[cfg(feature = "stand_in")]
node!(cart_yes rc_yes: StandIn);
node!(cart_yes rc_no: i8 i16 i32 i64 i128 isize);
node!(cart_no rc_no: u8 u16 u32 u64 u128 usize);

fn real_out<T: Basic>(x: &T, w: u8) -> u128 {
    wires!(w, W => { let q: W = x.mixed_to_num(); q.en() })
}
fn real_in<T: Basic>(w: u8, b: u128) -> T {
    wires!(w, W => <T as MixedNumConversion<W>>::mixed_from_num(W::de(b)))
}
fn polar_out<T: Basic>(x: Polar<T>, w: u8) -> u128 {
    wires!(w, W => { let q: W = x.mixed_to_num(); q.en() })
}
fn polar_in<T: Basic>(w: u8, b: u128) -> Polar<T> {
    wires!(w, W => <Polar<T> as MixedNumConversion<W>>::mixed_from_num(W::de(b)))
}

/// The shape, or one the type has.
fn shape<T: Node>(s: u128) -> u8 {
    match (s % 6) as u8 {
        1 if !T::CART => 5,
        2 if !T::RC => 0,
        s => s,
    }
}

fn mask(b: u32) -> u128 {
    if b == 128 { u128::MAX } else { (1 << b) - 1 }
}
/// The value in a primitive word, as the definitions have it. None: does not fit.
fn out_ref<T: Elem>(x: T, w: u8) -> Option<u128> {
    let bits = WBITS[w as usize];
    let signed = w < 8;
    if T::KIND == 0 {
        let v = x.f();
        return Some(wires!(w, W => (v as W).en()));
    }
    if T::KIND == 1 {
        if w < 2 {
            let f = if T::SIGNED { (x.raw() as f64, x.raw() as f32) } else { (x.en() as f64, x.en() as f32) };
            return Some(if w == 0 { f.1.en() } else { f.0.en() });
        }
        return Some((x.raw() as u128) & mask(bits));
    }
    let r = x.raw();
    let scale = 2.0f64.powi(-T::FRAC);
    if w == 0 {
        return Some((r as f32 * scale as f32).en());
    }
    if w == 1 {
        return Some((r as f64 * scale).en());
    }
    let n = r >> T::FRAC;
    let (lo, hi) = if !signed { (0, if bits == 128 { i128::MAX } else { (1i128 << bits) - 1 }) } else if bits == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) };
    if n < lo || n > hi {
        return None;
    }
    Some(n as u128 & mask(bits))
}
/// The value of a primitive word in the type.
fn in_ref<T: Elem>(w: u8, b: u128) -> Option<T> {
    if T::KIND == 0 {
        let v = wires!(w, W => if T::BITS == 32 { (W::de(b) as f32) as f64 } else { W::de(b) as f64 });
        return Some(T::of(v));
    }
    if T::KIND == 1 {
        if w < 2 {
            let v = if w == 0 { f32::de(b) as f64 } else { f64::de(b) };
            // The cast of the language: towards zero, saturating, NaN to 0.
            let (lo, hi) = (T::min_raw(), if !T::SIGNED && T::BITS == 128 { i128::MAX } else { T::max_raw() });
            if !T::SIGNED && T::BITS == 128 {
                return Some(T::de(v as u128));
            }
            let n = (v as i128).clamp(lo, hi);
            return Some(T::de(n as u128 & mask(T::BITS)));
        }
        let n = wires!(w, W => W::de(b) as i128 as u128);
        return Some(T::de(n & mask(T::BITS)));
    }
    if w < 2 {
        return T::of_prim(Prim::F(if w == 0 { f32::de(b) as f64 } else { f64::de(b) }));
    }
    let n = if w == 12 { i128::try_from(b).ok()? } else { wires!(w, W => W::de(b) as i128) };
    let r = n.checked_mul(1i128 << T::FRAC)?;
    if r < T::min_raw() || r > T::max_raw() {
        return None;
    }
    T::unraw(r)
}

/// The exact value: odd mantissa and exponent. None: not finite.
fn value<T: Elem>(x: T) -> Option<(i128, i32)> {
    let (mut m, mut e) = if T::KIND == 0 {
        let v = x.f();
        if !v.is_finite() {
            return None;
        }
        let b = v.abs().to_bits();
        let (ex, f) = ((b >> 52) as i32, b & ((1 << 52) - 1));
        let m = if ex == 0 { f } else { f | 1 << 52 } as i128;
        (if v < 0.0 { -m } else { m }, ex.max(1) - 1075)
    } else if !T::SIGNED && T::BITS == 128 {
        let b = x.en();
        let z = if b == 0 { 0 } else { b.trailing_zeros() };
        if b >> z > i128::MAX as u128 {
            return None;
        }
        ((b >> z) as i128, z as i32)
    } else {
        (x.raw(), -T::FRAC)
    };
    if m == 0 {
        return Some((0, 0));
    }
    let z = m.trailing_zeros();
    m >>= z;
    e += z as i32;
    Some((m, e))
}
fn word_value(w: u8, b: u128) -> Option<(i128, i32)> {
    wires!(w, W => value(W::de(b)))
}

fn guarded<R>(fault: &mut u64, mut f: impl FnMut() -> R) -> Option<R> {
    let k = core::mem::take(fault);
    simnum::plan_fault(k);
    let (r, t, _) = rt::call(BUDGET, &mut f);
    simnum::plan_fault(0);
    stat(St::CALLS);
    log(t);
    match r {
        Ok(v) => Some(v),
        Err(e) if e.is::<SimFault>() => {
            stat(St::SIMFAULT);
            stat(St::RETRY);
            let (r, t, _) = rt::call(BUDGET, &mut f);
            log(t);
            r.ok()
        }
        Err(_) => {
            stat(St::PANICS);
            None
        }
    }
}

/// What a value looks like on the wire: the words, and whether they hold it exactly.
type Sent = Option<(Pair, bool)>;

fn send<T: Node>(x: Pair, sh: u8, w: u8, fault: &mut u64) -> Sent {
    let (a, b) = (T::de(x.0), T::de(x.1));
    let sh = shape::<T>(sh as u128);
    let zero = T::de(0);
    let got = guarded(fault, || match sh {
        0 => (real_out(&a, w), 0),
        1 => T::cart_out(&Cartesian { re: a, im: b }, w),
        2 => T::rc_out(&a, w),
        3 => (polar_out(Polar { mag: a, ang: b }, w), 0),
        4 => {
            let c = <Cartesian<T> as MixedComplexConversion<T>>::mixed_to_complex(a);
            (real_out(&c.re, w), real_out(&c.im, w))
        }
        _ => (real_out(&a, w), real_out(&b, w)),
    });
    let second = matches!(sh, 1 | 5);
    let want = out_ref(a, w).and_then(|p| Some((p, if second { out_ref(b, w)? } else { out_ref(zero, w)? })));
    let show = || format!("({:?}, {:?}) of {} sent as {} of {}", a.f(), b.f(), T::NAME, SHAPES[sh as usize], PRIMS[w as usize]);
    stat(St::CHECKED);
    match (got, want) {
        (None, None) => {
            stat(St::OVERFLOW);
            None
        }
        (None, Some(_)) => fail("unexpected-panic", &format!("{}: panics although it fits", show())),
        (Some(g), None) => fail("wrong-value", &format!("{}: gives the words {g:x?} although it does not fit", show())),
        (Some(g), Some(v)) => {
            log128(g.0);
            log128(g.1);
            if g != v {
                fail("wrong-value", &format!("{}: words {g:x?}, expected {v:x?}", show()));
            }
            let exact = value(a).is_some() && value(a) == word_value(w, g.0) && (!second || value(b).is_some() && value(b) == word_value(w, g.1));
            Some((g, exact))
        }
    }
}
fn receive<T: Node>(p: Pair, sh: u8, w: u8, fault: &mut u64) -> Sent {
    let sh = shape::<T>(sh as u128);
    let got = guarded(fault, || match sh {
        0 => (real_in::<T>(w, p.0), T::de(0)),
        1 => {
            let c = T::cart_in(w, p);
            (c.re, c.im)
        }
        2 => (T::rc_in(w, p), T::de(0)),
        3 => {
            let q = polar_in::<T>(w, p.0);
            (q.mag, q.ang)
        }
        4 => {
            let x = real_in::<T>(w, p.0);
            if p.1 & 1 == 0 {
                let c = <Cartesian<T> as MixedComplexConversion<T>>::mixed_to_complex(x);
                (c.re, c.im)
            } else {
                let q = <Polar<T> as MixedComplexConversion<T>>::mixed_to_complex(x);
                (q.mag, q.ang)
            }
        }
        _ => (real_in::<T>(w, p.0), real_in::<T>(w, p.1)),
    });
    let second = matches!(sh, 1 | 5);
    let want = in_ref::<T>(w, p.0).and_then(|a| Some((a.en(), if second { in_ref::<T>(w, p.1)?.en() } else { T::de(0).en() })));
    let show = || format!("words {p:x?} of {} received as {} of {}", PRIMS[w as usize], SHAPES[sh as usize], T::NAME);
    stat(St::CHECKED);
    match (got, want) {
        (None, None) => {
            stat(St::OVERFLOW);
            None
        }
        (None, Some(_)) => fail("unexpected-panic", &format!("{}: panics although it fits", show())),
        (Some(g), None) => fail("wrong-value", &format!("{}: gives ({:?}, {:?}) although it does not fit", show(), g.0.f(), g.1.f())),
        (Some(g), Some(v)) => {
            let h = (g.0.en(), g.1.en());
            log128(h.0);
            log128(h.1);
            if h != v {
                fail("wrong-value", &format!("{}: ({:?}, {:?}), expected ({:?}, {:?})", show(), g.0.f(), g.1.f(), T::de(v.0).f(), T::de(v.1).f()));
            }
            let exact = word_value(w, p.0).is_some() && word_value(w, p.0) == value(g.0) && (!second || word_value(w, p.1) == value(g.1));
            Some((h, exact))
        }
    }
}
fn values<T: Node>(x: Pair) -> (Option<(i128, i32)>, Option<(i128, i32)>) {
    (value(T::de(x.0)), value(T::de(x.1)))
}
fn has<T: Node>(s: u128) -> u8 {
    shape::<T>(s)
}

struct Ty {
    name: &'static str,
    gen: fn(&mut Rng, Style) -> u128,
    send: fn(Pair, u8, u8, &mut u64) -> Sent,
    receive: fn(Pair, u8, u8, &mut u64) -> Sent,
    values: fn(Pair) -> (Option<(i128, i32)>, Option<(i128, i32)>),
    shape: fn(u128) -> u8,
}
macro_rules! tys { ($($t:ident)*) => { const TYS: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, gen: <$t as Elem>::gen, send: send::<$t>, receive: receive::<$t>, values: values::<$t>, shape: has::<$t> } ),* ]; } }
tys!(SimNum f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);

#[derive(Clone, Copy, Default)]
struct Slot {
    valid: bool,
    seq: usize,
    /// None: the value was refused, or the storage could not hold it.
    words: Option<Pair>,
    half: bool,
}
#[derive(Clone, Copy)]
struct Held {
    seq: usize,
    /// The value, the exact value it stands for in each part (None: rounded on the way), whether a value is there.
    v: Option<Pair>,
    exact: (bool, bool),
}
struct Peer {
    ty: &'static Ty,
    store_w: u8,
    store_sh: u8,
    out_w: u8,
    out_sh: u8,
    in_sh: u8,
    held: Held,
    acked: bool,
    slots: [Slot; 2],
    down: u32,
}
#[derive(Clone, Copy)]
struct Packet {
    to: usize,
    at: u64,
    /// 0 data, 1 acknowledgement
    ack: bool,
    seq: usize,
    words: Option<Pair>,
    exact: (bool, bool),
}

fn go(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| system(p))]);
}
fn system(p: &Plan) {
    let mut nodes: Vec<Peer> = vec![];
    let mut input: Vec<Pair> = vec![];
    let mut net: Vec<u128> = vec![];
    let mut sched: Vec<u128> = vec![];
    let mut crashes: Vec<(usize, u64, u32)> = vec![];
    let mut tears: Vec<(usize, u64, u8)> = vec![];
    let mut faults: Vec<(usize, u64, u64)> = vec![];
    for r in p {
        match r.k {
            "node" if nodes.len() < 5 => {
                let ty = &TYS[(r.n(0) % TYS.len() as u128) as usize];
                nodes.push(Peer {
                    ty,
                    store_w: (r.n(1) % 14) as u8,
                    // A checkpoint keeps both parts.
                    store_sh: if r.n(2) & 1 == 0 { 5 } else { (ty.shape)(1) },
                    out_w: (r.n(3) % 14) as u8,
                    out_sh: (ty.shape)(r.n(4)),
                    in_sh: (ty.shape)(r.n(5)),
                    held: Held { seq: 0, v: None, exact: (true, true) },
                    acked: true,
                    slots: [Slot::default(); 2],
                    down: 0,
                })
            }
            "val" => input.push((r.n(0), r.n(1))),
            "net" => net.extend(r.v.iter()),
            "sched" => sched.extend(r.v.iter()),
            "crash" => crashes.push((r.n(0) as usize, r.n(1) as u64, (r.n(2) % 20) as u32)),
            "tear" => tears.push((r.n(0) as usize, r.n(1) as u64, (r.n(2) % 5) as u8)),
            "fault" => faults.push((r.n(0) as usize, r.n(1) as u64, (r.n(2) % 64) as u64)),
            _ => {}
        }
    }
    if nodes.is_empty() {
        return;
    }
    let n = nodes.len();
    let (mut tick, mut netpos, mut writes) = (0u64, 0usize, vec![0u64; n]);
    let mut convs = vec![0u64; n];
    let mut air: Vec<Packet> = vec![];
    let mut sink = 0usize;
    let end = sched.len().max(crashes.iter().map(|c| c.1 as usize).max().unwrap_or(0)).min(2000) as u64;
    let quiet_bound = (input.len() as u64 + 2) * n as u64 * n as u64 * 12 + 60;
    let mut quiet_from = None;
    loop {
        tick += 1;
        stat(St::STEPS);
        if sink == input.len() {
            break;
        }
        let calm = tick > end && netpos >= net.len() && nodes.iter().all(|x| x.down == 0);
        if calm && quiet_from.is_none() {
            quiet_from = Some(tick);
        }
        if quiet_from.map_or(false, |q| tick > q + quiet_bound) {
            fail("not-delivered", &format!("{sink} of {} values arrived, {quiet_bound} steps after the last fault", input.len()));
        }
        for c in &crashes {
            if c.1 == tick && c.0 % n < n {
                let x = &mut nodes[c.0 % n];
                if x.down == 0 {
                    stat(St::TASKCRASH);
                    x.down = 1 + c.2;
                }
            }
        }
        for i in 0..n {
            if nodes[i].down > 0 {
                nodes[i].down -= 1;
                if nodes[i].down == 0 {
                    restart(&mut nodes[i], &input, i, &mut convs[i]);
                }
            }
        }
        let i = if (tick as usize) <= sched.len() { (sched[tick as usize - 1] % n as u128) as usize } else { tick as usize % n };
        if nodes[i].down > 0 {
            continue;
        }
        let mut fault = faults.iter().find(|f| f.0 % n == i && f.1 == convs[i]).map_or(0, |f| f.2);
        if n == 1 {
            // Nobody to hand over to: values go through the checkpoint only.
            sink = sink.max(nodes[0].held.seq);
            nodes[0].acked = true;
        }
        // The source takes the next value.
        if i == 0 && nodes[0].acked && nodes[0].held.seq < input.len() {
            let h = Held { seq: nodes[0].held.seq + 1, v: Some(input[nodes[0].held.seq]), exact: (true, true) };
            // Bits of the plan as the type has them.
            accept(&mut nodes[0], h, &tears, 0, &mut writes[0], &mut fault);
            convs[0] += 1;
            continue;
        }
        // Messages, oldest first unless the network says otherwise.
        for _ in 0..8 {
            let Some(k) = air.iter().position(|m| m.to == i && m.at <= tick) else { break };
            if nodes[i].down > 0 {
                break;
            }
            let m = air.remove(k);
            if m.ack {
                if m.seq == nodes[i].held.seq {
                    nodes[i].acked = true;
                }
                continue;
            }
            let up = i - 1;
            if m.seq == nodes[i].held.seq + 1 && (nodes[i].acked || i == n - 1) {
                let (w, sh) = (nodes[up].out_w, nodes[i].in_sh);
                convs[i] += 1;
                let got = m.words.and_then(|ws| (nodes[i].ty.receive)(ws, sh, w, &mut fault));
                let both = matches!(sh, 1 | 5);
                let ex = m.words.zip(got).map_or((false, false), |(ws, g)| {
                    let v = (nodes[i].ty.values)(g.0);
                    let a = m.exact.0 && word_value(w, ws.0).is_some() && word_value(w, ws.0) == v.0;
                    (a, both && m.exact.1 && word_value(w, ws.1) == v.1)
                });
                let h = Held { seq: m.seq, v: got.map(|g| g.0), exact: ex };
                accept(&mut nodes[i], h, &tears, i, &mut writes[i], &mut 0);
            }
            if nodes[i].down == 0 && m.seq <= nodes[i].held.seq {
                let a = Packet { to: up, at: tick + 1, ack: true, seq: m.seq, words: None, exact: (false, false) };
                transmit(&mut air, a, &net, &mut netpos);
                if i == n - 1 && nodes[i].held.seq == sink + 1 {
                    sink += 1;
                    // Exact all the way: the number itself.
                    if let Some(v) = nodes[i].held.v {
                        let src = (nodes[0].ty.values)(input[sink - 1]);
                        let dst = (nodes[i].ty.values)(v);
                        let e = nodes[i].held.exact;
                        stat(St::CHECKED);
                        if e.0 && src.0 != dst.0 || e.1 && src.1 != dst.1 {
                            fail("wrong-value", &format!("value {} left as {src:?} and arrived as {dst:?} although every type on its way holds it", sink));
                        }
                        if e.0 {
                            stat(St::READBACK);
                        }
                    }
                    nodes[i].acked = true;
                }
            }
        }
        // Send again what is not acknowledged.
        if i + 1 < n && nodes[i].down == 0 && nodes[i].held.seq > 0 && !nodes[i].acked {
            let x = &nodes[i];
            convs[i] += 1;
            let got = x.held.v.and_then(|v| (x.ty.send)(v, x.out_sh, x.out_w, &mut fault));
            let both = matches!(x.out_sh, 1 | 5);
            let ex = x.held.v.zip(got).map_or((false, false), |(v, g)| {
                let v = (x.ty.values)(v);
                (x.held.exact.0 && v.0.is_some() && v.0 == word_value(x.out_w, g.0 .0), both && x.held.exact.1 && v.1.is_some() && v.1 == word_value(x.out_w, g.0 .1))
            });
            stat(St::RECORDS);
            let m = Packet { to: i + 1, at: tick + 1, ack: false, seq: x.held.seq, words: got.map(|g| g.0), exact: ex };
            transmit(&mut air, m, &net, &mut netpos);
        }
        state(mix(nodes.iter().fold(0, |h, x| mix(h ^ x.held.seq as u64) ^ (x.acked as u64) << 9 ^ (x.down as u64) << 10) ^ air.len() as u64));
    }
    stat(St::SETTLED);
}
fn transmit(air: &mut Vec<Packet>, m: Packet, net: &[u128], pos: &mut usize) {
    let d = net.get(*pos).copied().unwrap_or(0);
    *pos += 1;
    match d & 7 {
        1 | 2 => stat(St::LOST),
        3 => {
            stat(St::DUPLICATE);
            air.push(m);
            air.push(Packet { at: m.at + (d >> 3 & 15) as u64, ..m });
        }
        4 | 5 => {
            stat(St::DELAY);
            air.push(Packet { at: m.at + (d >> 3 & 31) as u64, ..m });
        }
        _ => air.push(m),
    }
}
/// Takes the value into the node's state and its checkpoint; a crash may tear the checkpoint.
fn accept(x: &mut Peer, h: Held, tears: &[(usize, u64, u8)], i: usize, writes: &mut u64, fault: &mut u64) {
    let old = x.held;
    x.held = h;
    let words = h.v.and_then(|v| (x.ty.send)(v, x.store_sh, x.store_w, fault));
    *writes += 1;
    let slot = h.seq & 1;
    let phase = tears.iter().find(|t| t.0 % 5 == i && t.1 == *writes).map(|t| t.2);
    let s = &mut x.slots[slot];
    let steps: [&dyn Fn(&mut Slot); 4] = [
        &|s| s.valid = false,
        &|s| {
            s.words = words.map(|w| (w.0 .0, s.words.map_or(0, |o| o.1)));
            s.half = true;
        },
        &|s| {
            s.words = words.map(|w| w.0);
            s.half = false;
        },
        &|s| {
            s.seq = h.seq;
            s.valid = true;
        },
    ];
    for (k, f) in steps.iter().enumerate() {
        if phase == Some(k as u8) {
            // Crashed: only the storage survives.
            stat(St::TORN);
            x.held = old;
            x.down = 3;
            return;
        }
        f(s);
    }
    x.acked = false;
    if phase == Some(4) {
        stat(St::TORN);
        x.down = 3;
    }
}
fn restart(x: &mut Peer, input: &[Pair], i: usize, convs: &mut u64) {
    stat(St::RESTORE);
    let best = x.slots.iter().filter(|s| s.valid && !s.half).max_by_key(|s| s.seq).copied();
    *convs += 1;
    match best {
        None => {
            x.held = Held { seq: 0, v: None, exact: (true, true) };
            x.acked = true;
        }
        Some(s) => {
            let lost = x.held;
            let got = s.words.and_then(|w| (x.ty.receive)(w, x.store_sh, x.store_w, &mut 0));
            let mut ex = (false, false);
            if let (Some(w), Some(g)) = (s.words, got) {
                let v = (x.ty.values)(g.0);
                // What the value stood for before the crash, if this is the same one.
                if lost.seq == s.seq {
                    if let Some(o) = lost.v {
                        let ov = (x.ty.values)(o);
                        let held = (ov.0.is_some() && ov.0 == word_value(x.store_w, w.0), ov.1.is_some() && ov.1 == word_value(x.store_w, w.1));
                        stat(St::CHECKED);
                        if held.0 && v.0 != ov.0 || held.1 && v.1 != ov.1 {
                            fail("wrong-value", &format!("node {i} ({}) restarts with {v:?} instead of {ov:?} although its checkpoint of {} holds it", x.ty.name, PRIMS[x.store_w as usize]));
                        }
                        ex = (lost.exact.0 && held.0, lost.exact.1 && held.1);
                    }
                }
                if i == 0 && lost.seq != s.seq {
                    let src = (x.ty.values)(input[s.seq - 1]);
                    ex = (src.0.is_some() && src.0 == v.0, src.1.is_some() && src.1 == v.1);
                }
            }
            x.held = Held { seq: s.seq, v: got.map(|g| g.0), exact: ex };
            x.acked = false;
        }
    }
}

/// A word close to the midpoint of two neighbouring floats, where rounding is decided by the last digits.
fn midpoint(r: &mut Rng) -> u128 {
    let bits = *r.pick(&[32u32, 63, 64, 64, 127, 128]);
    let keep = *r.pick(&[24u32, 24, 53]);
    let len = r.range(keep as i64 + 1, bits.max(keep + 2) as i64) as u32;
    let top = (r.u128() & ((1 << (keep - 1)) - 1)) | 1 << (keep - 1);
    let rest = len - keep;
    let mut v = top << rest | 1 << (rest - 1);
    if rest > 1 {
        let d = 1u128 << r.below(rest as u64 - 1);
        match r.below(3) {
            0 => v += d,
            1 => v -= d,
            _ => {}
        }
    }
    if r.chance(1, 3) { v.wrapping_neg() } else { v }
}

pub struct Hand;
impl Prop for Hand {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn runs(&self) -> (u64, u64) {
        (150_000, 4_000_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let mut p = vec![];
        let n = r.range(1, 4).max(if r.chance(9, 10) { 2 } else { 1 }) as usize;
        let mut first = 0;
        for i in 0..n {
            let t = if r.chance(1, 8) { 0 } else { r.below(TYS.len() as u64) as usize };
            if i == 0 {
                first = t;
            }
            let wire = |r: &mut Rng| if r.chance(1, 3) { *r.pick(&[1u128, 1, 5, 6]) } else { r.below(14) as u128 };
            let sh = |r: &mut Rng| if r.chance(1, 2) { *r.pick(&[1u128, 1, 5]) } else { r.below(6) as u128 };
            let a = [t as u128, wire(r), r.below(2) as u128, wire(r), sh(r), sh(r)];
            p.push(rec("node", &a));
        }
        let nv = r.range(1, 6);
        for _ in 0..nv {
            let g = TYS[first].gen;
            let one = |r: &mut Rng| {
                if r.chance(1, 8) {
                    return midpoint(r);
                }
                if r.chance(1, 5) {
                    // A word someone else may have written.
                    let w = r.below(14) as u8;
                    return gen_prim(w, r, Style::Wild);
                }
                let s = if r.chance(3, 5) { Style::Tame } else { Style::Wild };
                g(r, s)
            };
            let v = [one(r), one(r)];
            p.push(rec("val", &v));
        }
        let len = r.range(0, 40) as usize;
        p.push(rec("net", &(0..len).map(|_| if r.chance(1, 2) { 0 } else { r.below(256) as u128 }).collect::<Vec<_>>()));
        let len = r.range(0, 80) as usize;
        p.push(rec("sched", &(0..len).map(|_| r.below(n as u64) as u128).collect::<Vec<_>>()));
        for _ in 0..r.below(4) {
            p.push(rec("crash", &[r.below(n as u64) as u128, 1 + r.below(90) as u128, r.below(20) as u128]));
        }
        for _ in 0..r.below(3) {
            p.push(rec("tear", &[r.below(n as u64) as u128, 1 + r.below(8) as u128, r.below(5) as u128]));
        }
        for _ in 0..r.below(3) {
            p.push(rec("fault", &[r.below(n as u64) as u128, r.below(14) as u128, 1 + r.below(4) as u128]));
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        go(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        match r.k {
            "node" => {
                let ty = &TYS[(r.n(0) % TYS.len() as u128) as usize];
                format!("computes in {}, checkpoints in {}, receives as {}, sends as {} of {}", ty.name, PRIMS[(r.n(1) % 14) as usize], SHAPES[(ty.shape)(r.n(5)) as usize], SHAPES[(ty.shape)(r.n(4)) as usize], PRIMS[(r.n(3) % 14) as usize])
            }
            "val" => "a value (bits of the first node's type)".into(),
            "net" => "fate of each packet: 1, 2 lost; 3 duplicated; 4, 5 delayed".into(),
            "sched" => "the node that runs next".into(),
            "crash" => format!("node {} crashes at step {}, back after {} steps", r.n(0), r.n(1), r.n(2) % 20 + 1),
            "tear" => format!("node {} crashes in its checkpoint number {}, before word {}", r.n(0), r.n(1), r.n(2) % 5),
            "fault" => format!("component operation {} fails in conversion {} of node {}, which is repeated", r.n(2), r.n(1), r.n(0)),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::SETTLED as usize] > 0 && r.stats[St::CHECKED as usize] > 2
    }
    fn rule(&self) -> &'static str {
        "each run: one to four nodes, each computing in one of 37 number types, hand a sequence of values on, over links and double-buffered checkpoints of one of 14 primitive types, as real, Cartesian or Polar numbers, with packets lost, duplicated and reordered, nodes crashed at any step and inside a checkpoint, and component faults inside conversions; every conversion is compared with its definition, every value exact on its way must arrive as the same number, and all values must arrive within a bounded number of steps after the last fault. Non-trivial: everything arrived. Distinct: by plan."
    }
    fn stub(&self) -> &'static str {
        "the network, the storage, the hand-over protocol and the component type SimNum are simulated"
    }
}
