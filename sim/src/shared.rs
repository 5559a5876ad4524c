//! C06: callers adding into shared accumulators, one update at a time, under any schedule, with crashes and retries.

use crate::acc::*;
use crate::elem::*;
use crate::harness::*;
use crate::rng::{mix, Rng};
use crate::rt::{self, Act, Event, Trig};
use mixed_num::*;

pub struct Shared;
const NACC: usize = 3;

/// Exact value of a component in units of its resolution (of 1/8 for floats).
fn units<T: Elem>(v: T) -> i128 {
    if T::KIND == 0 {
        (v.f() * 8.0) as i128
    } else {
        v.raw()
    }
}
fn exact<T: Elem>(v: T, u: i128) -> bool {
    if T::KIND == 0 {
        v.f() * 8.0 == u as f64
    } else {
        v.raw() == u
    }
}

/// m + s * d, when it fits the model.
fn sum(m: (i128, i128), s: i128, d: (i128, i128)) -> Option<(i128, i128)> {
    Some((m.0.checked_add(s.checked_mul(d.0)?)?, m.1.checked_add(s.checked_mul(d.1)?)?))
}

struct World<T> {
    acc: [Cartesian<T>; NACC],
    /// Value before the update in progress, as a caller's write-ahead journal.
    journal: [Option<Cartesian<T>>; NACC],
    model: [(i128, i128); NACC],
    committed: u64,
}

struct Item {
    r: Rec,
}

fn run<T: Num>(p: &Plan) {
    let z = Cartesian { re: T::de(0), im: T::de(0) };
    let w = Box::into_raw(Box::new(World::<T> { acc: [z; NACC], journal: [None; NACC], model: [(0, 0); NACC], committed: 0 }));
    let nacc = (find(p, "split").map_or(1, |r| r.n(0)).max(1) as usize).min(NACC);
    let mut tasks: Vec<Vec<Item>> = (0..4).map(|_| vec![]).collect();
    let mut nt = 1;
    let mut events = vec![];
    let mut choices = vec![];
    for r in p {
        match r.k {
            "add" | "read" => {
                let t = (r.n(0) % 4) as usize;
                nt = nt.max(t + 1);
                tasks[t].push(Item { r: r.clone() });
            }
            "event" => events.push(Event { task: r.n(0) as u8, call: r.n(1) as u16, trig: Trig::Tick(r.n(2) as u64), act: Act::Switch(r.n(3) as u8) }),
            "choices" => choices.extend(r.v.iter().map(|x| *x as u8)),
            _ => {}
        }
    }
    let mut bodies: Vec<Box<dyn FnOnce() + '_>> = vec![];
    for (t, items) in tasks.into_iter().take(nt).enumerate() {
        bodies.push(Box::new(move || {
            let w = unsafe { &mut *w };
            for it in &items {
                let r = &it.r;
                let a = r.n(1) as usize % nacc;
                rt::lock(a as u8);
                if let Some(old) = w.journal[a].take() {
                    // The previous holder crashed inside its update: roll back.
                    w.acc[a] = old;
                    stat(St::RESTORE);
                }
                if r.k == "read" {
                    let v = w.acc[a];
                    if !exact(v.re, w.model[a].0) || !exact(v.im, w.model[a].1) {
                        fail("lost-or-torn", &format!("{}: task {t} reads ({:?}, {:?}) from accumulator {a}, committed contributions sum to {:?} units", T::NAME, v.re.f(), v.im.f(), w.model[a]));
                    }
                    rt::unlock(a as u8);
                    continue;
                }
                let mut c = Code::fix(r.n(2), r.n(3), r.n(4), r.n(5), false);
                if c.op > SUB {
                    c.op &= 1;
                }
                if c.kind >= POWN {
                    c.kind = OWN;
                }
                let mut y = (T::de(r.n(6)), T::de(r.n(7)));
                let b = r.n(8);
                let (dr, di) = if c.kind == REAL {
                    match prim(c, b).and_then(T::of_prim) {
                        Some(v) => (units(v), 0),
                        None => {
                            rt::unlock(a as u8);
                            continue;
                        }
                    }
                } else {
                    (units(y.0), units(y.1))
                };
                if T::KIND == 0 && !(exact(y.0, units(y.0)) && exact(y.1, units(y.1)) && (c.kind != REAL || prim(c, b).and_then(T::of_prim).map_or(false, |v| exact(v, dr))) && dr.abs().max(di.abs()) < 1 << 18) {
                    // Not a contribution whose sums are exact.
                    rt::unlock(a as u8);
                    continue;
                }
                let s = if c.op == SUB { -1 } else { 1 };
                let Some(next) = sum(w.model[a], s, (dr, di)) else {
                    rt::unlock(a as u8);
                    continue;
                };
                let fits = T::KIND == 0 || [next.0, next.1].iter().all(|v| (T::min_raw()..=T::max_raw()).contains(v));
                let mut fault = r.n(9) as u64;
                let mut tries = 0;
                let mut crashed = false;
                loop {
                    w.journal[a] = Some(w.acc[a]);
                    let old = w.acc[a];
                    let px = &mut w.acc[a] as *mut Cartesian<T>;
                    let py = &mut y as *mut (T, T);
                    crate::simnum::plan_fault(fault);
                    let (res, _, _) = rt::call(BUDGET, || unsafe { perform::<T>(c, &mut *px, &mut *py, b) });
                    crate::simnum::plan_fault(0);
                    stat(St::CALLS);
                    stat(St::STEPS);
                    if res.is_ok() {
                        w.journal[a] = None;
                        w.model[a] = next;
                        w.committed += 1;
                        break;
                    }
                    let injected = res.err().map_or(false, |e| e.is::<crate::simnum::SimFault>());
                    stat(if injected { St::SIMFAULT } else { St::OVERFLOW });
                    if !injected && fits {
                        fail("unexpected-panic", &format!("{}: {} of ({dr}, {di}) units panicked although the sum {next:?} fits", T::NAME, c.show()));
                    }
                    if injected && r.n(10) == 1 {
                        // The task dies with the lock held and the journal open.
                        crashed = true;
                        stat(St::TASKCRASH);
                        break;
                    }
                    w.acc[a] = old;
                    w.journal[a] = None;
                    if !injected || tries > 2 {
                        break;
                    }
                    tries += 1;
                    fault = 0;
                    stat(St::RETRY);
                }
                if crashed {
                    rt::unlock(a as u8);
                    return;
                }
                let v = w.acc[a];
                stat(St::CHECKED);
                log128(v.re.en());
                log128(v.im.en());
                if !exact(v.re, w.model[a].0) || !exact(v.im, w.model[a].1) {
                    fail(
                        "not-conserved",
                        &format!("{}: after task {t}'s {} accumulator {a} is ({:?}, {:?}), the committed contributions sum to {:?} units", T::NAME, c.show(), v.re.f(), v.im.f(), w.model[a]),
                    );
                }
                state(mix(mix(w.model[a].0 as u64) ^ w.model[a].1 as u64 ^ ((a as u64) << 56)));
                rt::unlock(a as u8);
            }
        }));
    }
    rt::run(rt::Setup { events, choices, nlocks: NACC, ..rt::Setup::plain() }, bodies);
    // Recovery of whatever a crashed caller left, then the partial sums are merged, in two orders.
    let w = unsafe { &mut *w };
    for a in 0..NACC {
        if let Some(old) = w.journal[a].take() {
            w.acc[a] = old;
        }
        if !exact(w.acc[a].re, w.model[a].0) || !exact(w.acc[a].im, w.model[a].1) {
            fail("not-conserved", &format!("{}: accumulator {a} ends as ({:?}, {:?}), the committed contributions sum to {:?} units", T::NAME, w.acc[a].re.f(), w.acc[a].im.f(), w.model[a]));
        }
    }
    let total = w.model.iter().fold(Some((0, 0)), |t, m| sum(t?, 1, *m));
    let mm = find(p, "merge").map_or(0, |r| r.n(0));
    for rev in 0..2 {
        let mut merged = z;
        let mut fits = true;
        let mut m = (0i128, 0i128);
        for k in 0..nacc {
            let k = if rev == 1 { nacc - 1 - k } else { k };
            let c = Code::fix(0, mm % 7, mm / 7 + rev, 0, false);
            let Some(next) = sum(m, 1, w.model[k]) else {
                fits = false;
                break;
            };
            m = next;
            fits &= T::KIND == 0 || [m.0, m.1].iter().all(|v| (T::min_raw()..=T::max_raw()).contains(v));
            let d = step::<T>(c, merged, (w.acc[k].re, w.acc[k].im), 0, 0);
            if !d.ok {
                if fits {
                    fail("unexpected-panic", &format!("{}: merging partial sums with {} panicked although they fit", T::NAME, c.show()));
                }
                break;
            }
            merged = d.x;
        }
        let Some(total) = total else { continue };
        if fits && (!exact(merged.re, total.0) || !exact(merged.im, total.1)) {
            fail("not-conserved", &format!("{}: partial accumulators merge to ({:?}, {:?}) instead of {total:?} units", T::NAME, merged.re.f(), merged.im.f()));
        }
    }
    stat_n(St::RECORDS, 0);
}

macro_rules! table { ($($t:ident)*) => { const RUN: &[fn(&Plan)] = &[ $( run::<$t> ),* ]; } }
use crate::simnum::SimNum;
table!(f32 f64 SimNum i8 i16 i32 i64 i128 isize I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61);

fn amount(ty: &Type, r: &mut Rng) -> u128 {
    match ty.name {
        "f32" => ((r.range(-1000, 1000) as f32) / 8.0).to_bits() as u128,
        "f64" | "SimNum" => ((r.range(-1000, 1000) as f64) / 8.0).to_bits() as u128,
        _ => {
            // Mostly small against the range, so that sums fit.
            let room = ty.bits as u64 - 1 - 4;
            let m = 1i64 << (r.below(room.min(60)) + 1);
            r.range(-m, m) as i128 as u128 & (u128::MAX >> (128 - ty.bits))
        }
    }
}

impl Prop for Shared {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn runs(&self) -> (u64, u64) {
        (60_000, 1_500_000)
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let ti = pick_type(r);
        let ty = &TYPES[ti];
        let nt = r.range(2, 4) as usize;
        let mut p = vec![rec("type", &[ti as u128]), rec("split", &[r.range(1, 3) as u128]), rec("merge", &[r.below(14) as u128])];
        for t in 0..nt {
            let n = r.range(1, 9);
            for k in 0..n {
                if r.chance(1, 8) {
                    p.push(rec("read", &[t as u128, r.below(3) as u128]));
                    continue;
                }
                let pr = r.below(14) as u8;
                let rb = match pr {
                    0 => (r.range(-40, 40) as f32 / 8.0).to_bits() as u128,
                    1 => (r.range(-40, 40) as f64 / 8.0).to_bits() as u128,
                    8..=13 => r.below(4) as u128,
                    _ => r.range(-3, 3) as i128 as u128,
                };
                let fault = if ty.name == "SimNum" && r.chance(1, 2) { 1 + r.below(4) as u128 } else { 0 };
                p.push(rec("add", &[t as u128, r.below(3) as u128, r.below(2) as u128, r.below(8) as u128, (r.below(4) > 0) as u128, pr as u128, amount(ty, r), amount(ty, r), rb, fault, r.chance(1, 3) as u128]));
                if r.chance(1, 2) {
                    // The update is a few dozen steps long.
                    p.push(rec("event", &[t as u128, k as u128, 1 + r.below(24) as u128, r.below(nt as u64) as u128]));
                }
            }
        }
        let n = r.range(8, 60);
        let ch: Vec<u128> = (0..n).map(|_| r.below(4) as u128).collect();
        p.push(Rec { k: "choices", v: ch });
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        RUN[(find(p, "type").map_or(0, |r| r.n(0)) % RUN.len() as u128) as usize](p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        match r.k {
            "type" => TYPES[(r.n(0) % TYPES.len() as u128) as usize].name.to_string(),
            "add" => {
                let c = Code::fix(r.n(2) & 1, r.n(3), r.n(4), r.n(5), false);
                format!("task {} on accumulator {}: {}{}", r.n(0) % 4, r.n(1), c.show(), if r.n(9) > 0 { format!(", component operation {} fails, then the task {}", r.n(9), if r.n(10) == 1 { "crashes" } else { "undoes and retries" }) } else { String::new() })
            }
            "event" => format!("in call {} of task {} at step {}: preempt, run task {}", r.n(1), r.n(0), r.n(2), r.n(3)),
            "choices" => "who runs next at each lock, unlock".into(),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::SWITCH as usize] > 0 && r.stats[St::CHECKED as usize] > 1
    }
    fn rule(&self) -> &'static str {
        "each run: 2-4 caller tasks add and subtract 1-9 contributions each (complex or real, owned, borrowed, num::Complex, binary or in-place) into 1-3 shared accumulators behind a lock; the plan chooses who runs at every lock and unlock and preempts inside updates; SimNum updates fail at a component operation, after which the caller undoes and retries or crashes with the lock and the next holder rolls back. Non-trivial: a preemption or hand-over happened and at least two commits were compared. Distinct: by plan and schedule."
    }
    fn stub(&self) -> &'static str {
        "callers, their lock and undo journal, the scheduler and the component type SimNum are simulated"
    }
}
