//! C01, C02, C03: library calls under preemption, interrupts, suspension and hostile histories.
//!
//! Oracle: the outcome of each call is the one the same call has as the first and only call of a fresh process.

use crate::elem::Style;
use crate::harness::*;
use crate::ops::{A, NARGS};
use crate::rng::{mix, Rng};
use crate::rt::{self, Act, Event, Trig};

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Preempt,
    Suspend,
    History,
}
pub struct Iso(pub Which);

fn args_of(r: &Rec, from: usize) -> A {
    let mut a = [0u128; NARGS + 1];
    for (i, x) in a.iter_mut().enumerate() {
        *x = r.n(from + i);
    }
    a
}
fn call_rec(task: u128, op: usize, a: &A) -> Rec {
    let mut v = vec![task, op as u128];
    v.extend_from_slice(a);
    Rec { k: "call", v }
}
fn isr_rec(op: usize, a: &A) -> Rec {
    let mut v = vec![0, op as u128];
    v.extend_from_slice(a);
    Rec { k: "isr", v }
}
fn ev(task: usize, call: usize, t: Trig, act: Act) -> Rec {
    let (tk, tn) = match t {
        Trig::Tick(n) => (0, n),
        Trig::Acc(n) => (1, n),
    };
    let (ak, an) = match act {
        Act::Switch(x) => (0, x as u128),
        Act::Stall => (1, 0),
        Act::Isr(n) => (2, n as u128),
    };
    rec("event", &[task as u128, call as u128, tk, tn as u128, ak, an])
}

struct X {
    /// Operation, operands, and how often in a row.
    calls: Vec<(usize, A, u64)>,
    expect: Vec<Outcome>,
}
struct State {
    ctx: *const Ctx,
    isr: X,
    slack: u64,
}
static mut STATE: *mut State = std::ptr::null_mut();

fn judge(ctx: &Ctx, who: &str, op: usize, a: &A, want: &Outcome) {
    let budget = want.ticks * 8 + 20_000;
    let got = call_op(&ctx.ops[op], a, budget);
    stat(St::CALLS);
    if a[NARGS] != 0 && ctx.ops[op].ty == "SimNum" {
        stat(St::SIMFAULT);
    }
    if got.kind == Kind::Panic {
        stat(St::PANICS);
    }
    log(got.hash());
    log(got.ticks);
    stat(St::CHECKED);
    if !got.same(want) {
        fail("outcome-differs", &format!("{who}: {} gives {} here but {} when run alone", ctx.show(op, a), got.show(), want.show()));
    }
    state(mix(op as u64 ^ mix(got.hash())));
}

#[allow(static_mut_refs)]
fn isr_handler(n: u16) {
    let s = unsafe { &*STATE };
    if s.isr.calls.is_empty() {
        return;
    }
    let ctx = unsafe { &*s.ctx };
    let i = n as usize % s.isr.calls.len();
    let (op, a, _) = s.isr.calls[i];
    judge(ctx, "interrupt handler", op, &a, &s.isr.expect[i]);
    let _ = s.slack;
}

/// A call that never finishes or crashes alone is C10's concern, not judged here.
fn usable(o: &Outcome) -> bool {
    matches!(o.kind, Kind::Value | Kind::Panic)
}

/// Neighbouring operands: what a cache keyed on part of its input confuses.
fn neighbour(ctx: &Ctx, op: usize, a: &A, r: &mut Rng) -> A {
    let mut b = *a;
    let o = &ctx.ops[op];
    if o.args.is_empty() {
        return b;
    }
    let i = r.below(o.args.len() as u64) as usize;
    match o.args[i] {
        crate::ops::Ar::E(_) => match r.below(4) {
            0 => b[i] ^= 1 << (o.bits - 1),
            1 => b[i] ^= 1 << r.below(o.bits as u64),
            2 => b[i] = b[i].wrapping_add(1),
            _ => b[i] = b[(i + 1) % o.args.len()],
        },
        _ => b[i] = o.gen(r, Style::Tame)[i],
    }
    b
}

fn gen_args(ctx: &Ctx, op: usize, r: &mut Rng, wild: u64) -> A {
    let st = if r.chance(wild, 10) { Style::Wild } else { Style::Tame };
    let mut a = ctx.ops[op].gen(r, st);
    if ctx.ops[op].ty == "SimNum" && r.chance(1, 3) {
        a[NARGS] = r.below(12) as u128 + 1;
    }
    a
}

/// A small pool of calls to draw from: a primary operation with several operand sets, and others of the same type.
fn pool(ctx: &mut Ctx, r: &mut Rng, i: u64, salt: u64, others: usize, wild: u64) -> Vec<(usize, A)> {
    let n = ctx.ops.len() as u64;
    let hot = r.chance(ctx.hot.len().min(6) as u64, 24);
    let prim = if hot { *r.pick(&ctx.hot) } else { ((i.wrapping_mul(2_654_435_761) + salt) % n) as usize };
    let mut p = vec![];
    let mut a = gen_args(ctx, prim, r, wild);
    if r.chance(1, if hot { 4 } else { 12 }) {
        // Zeros of both signs compare equal and are not the same operand.
        let o = &ctx.ops[prim];
        let es: Vec<usize> = (0..o.args.len()).filter(|k| matches!(o.args[*k], crate::ops::Ar::E(_))).collect();
        if !es.is_empty() {
            let k = *r.pick(&es);
            a[k] = 0;
            let mut b = a;
            b[k] = 1 << (o.bits - 1);
            if r.chance(1, 2) {
                std::mem::swap(&mut a, &mut b);
            }
            p.push((prim, b));
        }
    }
    p.push((prim, a));
    for _ in 0..r.range(1, 3) {
        let b = if r.chance(1, 2) { gen_args(ctx, prim, r, wild) } else { neighbour(ctx, prim, &a, r) };
        p.push((prim, b));
    }
    for _ in 0..others {
        let op = if hot && r.chance(1, 2) {
            *r.pick(&ctx.hot)
        } else if r.chance(3, 4) {
            let ty = ctx.ops[prim].ty;
            let v = &ctx.by_ty.iter().find(|x| x.0 == ty).unwrap().1;
            *r.pick(v)
        } else {
            r.below(n) as usize
        };
        p.push((op, gen_args(ctx, op, r, wild)));
    }
    p.retain(|(op, a)| usable(&ctx.pristine(*op, a)));
    p
}

impl Iso {
    fn gen_sched(&self, ctx: &mut Ctx, r: &mut Rng, i: u64) -> Plan {
        let others = r.below(3) as usize;
        let wild = *r.pick(&[0, 2, 5]);
        let pl = pool(ctx, r, i, 0, others, wild);
        let mut plan = vec![];
        if pl.is_empty() {
            return plan;
        }
        let nt = r.range(2, 3) as usize;
        let mut per: Vec<Vec<(usize, A)>> = vec![];
        for t in 0..nt {
            let mut v = vec![];
            for k in 0..r.range(1, 3) {
                // The first task starts with the primary operation.
                let c = if t == 0 && k == 0 { pl[0] } else { *r.pick(&pl) };
                v.push(c);
                plan.push(call_rec(t as u128, c.0, &c.1));
            }
            per.push(v);
        }
        let nisr = r.below(3) as usize;
        for _ in 0..nisr {
            let c = *r.pick(&pl);
            plan.push(isr_rec(c.0, &c.1));
        }
        let stall = self.0 == Which::Suspend;
        if stall {
            plan.push(rec("opt", &[r.below(2) as u128]));
        }
        let mut t0 = 0usize;
        let mut budget_events = 40;
        if stall {
            // Suspend one to nt-1 callers somewhere inside one of their calls.
            for t in 0..r.range(1, nt as i64 - 1) as usize {
                let k = r.below(per[t].len() as u64) as usize;
                let (op, a) = per[t][k];
                let o = ctx.pristine(op, &a);
                let trig = if o.acc > 0 && r.chance(1, 2) { Trig::Acc(1 + r.below(o.acc)) } else { Trig::Tick(1 + r.below(o.ticks.max(1))) };
                plan.push(ev(t, k, trig, Act::Stall));
            }
            t0 = if r.chance(1, 2) { 0 } else { 1 };
            budget_events = 12;
        }
        let mode = r.below(4);
        for t in t0..nt {
            for (k, (op, a)) in per[t].clone().into_iter().enumerate() {
                let o = ctx.pristine(op, &a);
                let ticks = o.ticks.max(1);
                let isr = nisr > 0 && r.chance(1, 2);
                let act = |r: &mut Rng| if isr && r.chance(3, 4) { Act::Isr(r.below(nisr as u64) as u16) } else { Act::Switch(r.below(nt as u64) as u8) };
                if o.acc > 0 && r.chance(3, 4) {
                    // Preempt around accesses to static storage.
                    let n = o.acc.min(budget_events as u64 / 2 + 1);
                    let every = r.chance(1, 2);
                    for j in 0..n {
                        if every || r.chance(1, 3) {
                            let at = if o.acc <= n { j + 1 } else { 1 + r.below(o.acc) };
                            let x = act(r);
                            plan.push(ev(t, k, Trig::Acc(at), x));
                            budget_events -= 1;
                        }
                    }
                }
                match mode {
                    0 => {
                        for _ in 0..r.range(0, 2) {
                            let x = act(r);
                            plan.push(ev(t, k, Trig::Tick(1 + r.below(ticks)), x));
                            budget_events -= 1;
                        }
                    }
                    1 | 2 => {
                        // Lockstep: change over every d steps.
                        let d = (ticks / 24).max(1).max(r.below(3));
                        let mut at = 1 + r.below(d);
                        while at <= ticks && budget_events > 0 {
                            let x = act(r);
                            plan.push(ev(t, k, Trig::Tick(at), x));
                            at += d;
                            budget_events -= 1;
                        }
                    }
                    _ => {
                        if r.chance(1, 2) {
                            let at = 1 + r.below(ticks);
                            for j in 0..r.range(1, 6) as u64 {
                                let x = act(r);
                                plan.push(ev(t, k, Trig::Tick(at + j), x));
                                budget_events -= 1;
                            }
                        }
                    }
                }
                if budget_events <= 0 {
                    return plan;
                }
            }
        }
        plan
    }

    fn gen_history(&self, ctx: &mut Ctx, r: &mut Rng, i: u64) -> Plan {
        let mut plan = vec![];
        let long = i % 40 == 7;
        let others = if long { 1 } else { r.range(1, 6) as usize };
        let wild = *r.pick(&[1, 4, 8]);
        let pl = pool(ctx, r, i, 17, others, wild);
        if pl.is_empty() {
            return plan;
        }
        // An abandoned caller first, half of the time.
        let side = r.chance(1, 3);
        let t = side as u128;
        if side {
            let (op, a) = *r.pick(&pl);
            let o = ctx.pristine(op, &a);
            plan.push(call_rec(0, op, &a));
            let trig = if o.acc > 0 && r.chance(1, 2) { Trig::Acc(1 + r.below(o.acc)) } else { Trig::Tick(1 + r.below(o.ticks.max(1))) };
            plan.push(ev(0, 0, trig, Act::Stall));
        }
        let mut n = if long { r.range(300, 2000) } else { r.range(4, 40) } as u64;
        let cost: u64 = pl.iter().map(|(op, a)| ctx.pristine(*op, a).ticks).max().unwrap_or(1).max(1);
        n = n.min(3_000_000 / cost).max(3);
        let repeat = r.chance(1, 2);
        let mut last = pl[0];
        for k in 0..n {
            let c = if k > 0 && repeat && r.chance(1, 3) { last } else { *r.pick(&pl) };
            last = c;
            plan.push(call_rec(t, c.0, &c.1));
        }
        if !ctx.hot.is_empty() && i % 800 == 7 {
            // Operations that touch static storage are also called very often: counters fill up and wrap.
            let op = ctx.hot[(i / 800) as usize % ctx.hot.len()];
            let a = gen_args(ctx, op, r, 1);
            let o = ctx.pristine(op, &a);
            if o.kind == Kind::Value {
                plan.push(call_rec(t, op, &a));
                plan.push(rec("again", &[t, (30_000_000 / o.ticks.max(100)) as u128]));
            }
        }
        // Every pool member once more at the end.
        for c in &pl {
            plan.push(call_rec(t, c.0, &c.1));
        }
        plan
    }
}

impl Prop for Iso {
    fn id(&self) -> &'static str {
        match self.0 {
            Which::Preempt => "C01",
            Which::Suspend => "C02",
            Which::History => "C03",
        }
    }
    fn runs(&self) -> (u64, u64) {
        match self.0 {
            Which::Preempt => (45_000, 1_500_000),
            Which::Suspend => (45_000, 1_500_000),
            Which::History => (40_000, 1_500_000),
        }
    }
    fn survey(&self) -> bool {
        true
    }
    fn gen(&self, ctx: &mut Ctx, r: &mut Rng, i: u64) -> Plan {
        if self.0 == Which::History {
            self.gen_history(ctx, r, i)
        } else {
            self.gen_sched(ctx, r, i)
        }
    }
    fn prepare(&self, ctx: &mut Ctx, p: &Plan) {
        for r in p {
            if r.k == "call" || r.k == "isr" {
                let op = ctx.op(r.n(1));
                ctx.pristine(op, &args_of(r, 2));
            }
        }
    }
    fn exec(&self, ctx: &Ctx, p: &Plan) {
        let mut nt = 1usize;
        let mut tasks: Vec<X> = (0..4).map(|_| X { calls: vec![], expect: vec![] }).collect();
        let mut isr = X { calls: vec![], expect: vec![] };
        let mut events = vec![];
        let mut resume = self.0 == Which::Preempt;
        for r in p {
            match r.k {
                "call" | "isr" => {
                    let (op, a) = (ctx.op(r.n(1)), args_of(r, 2));
                    let Some(o) = ctx.cache.get(&(op, a)) else { continue };
                    if !usable(o) {
                        continue;
                    }
                    let x = if r.k == "call" {
                        let t = (r.n(0) % 4) as usize;
                        nt = nt.max(t + 1);
                        &mut tasks[t]
                    } else {
                        &mut isr
                    };
                    x.calls.push((op, a, 1));
                    x.expect.push(o.clone());
                }
                "event" => {
                    let n = r.n(3) as u64;
                    let trig = if r.n(2) == 0 { Trig::Tick(n) } else { Trig::Acc(n) };
                    let act = match r.n(4) % 3 {
                        0 => Act::Switch(r.n(5) as u8),
                        1 if self.0 == Which::Preempt => Act::Switch(r.n(5) as u8),
                        1 => Act::Stall,
                        _ => Act::Isr(r.n(5) as u16),
                    };
                    events.push(Event { task: r.n(0) as u8, call: r.n(1) as u16, trig, act });
                }
                "again" => {
                    if let Some(c) = tasks[(r.n(0) % 4) as usize].calls.last_mut() {
                        c.2 += r.n(1).min(1 << 20) as u64;
                    }
                }
                "opt" => resume = r.n(0) != 0,
                _ => {}
            }
        }
        unsafe { STATE = Box::into_raw(Box::new(State { ctx, isr, slack: 0 })) };
        let mut bodies: Vec<Box<dyn FnOnce() + '_>> = vec![];
        for (t, x) in tasks.into_iter().take(nt).enumerate() {
            bodies.push(Box::new(move || {
                let who = format!("task {t}");
                for ((op, a, n), want) in x.calls.iter().zip(&x.expect) {
                    for _ in 0..*n {
                        judge(ctx, &who, *op, a, want);
                    }
                }
            }));
        }
        rt::run(rt::Setup { events, isr: Some(isr_handler), resume_stalled: resume, ..rt::Setup::plain() }, bodies);
    }
    fn describe(&self, ctx: &Ctx, r: &Rec) -> String {
        match r.k {
            "call" => format!("task {} calls {}", r.n(0) % 4, ctx.show(ctx.op(r.n(1)), &args_of(r, 2))),
            "isr" => format!("handler calls {}", ctx.show(ctx.op(r.n(1)), &args_of(r, 2))),
            "event" => format!(
                "in call {} of task {}, at {} {}: {}",
                r.n(1),
                r.n(0),
                if r.n(2) == 0 { "step" } else { "static access" },
                r.n(3),
                match r.n(4) % 3 {
                    0 => format!("preempt, run task {}", r.n(5)),
                    1 => "suspend the caller".to_string(),
                    _ => format!("interrupt, handler call {}", r.n(5)),
                }
            ),
            "again" => format!("{} times more", r.n(1)),
            "opt" => format!("suspended callers are {}", if r.n(0) != 0 { "resumed at the end" } else { "never resumed" }),
            _ => String::new(),
        }
    }
    fn nontrivial(&self, r: &Res) -> bool {
        let s = |x: St| r.stats[x as usize];
        match self.0 {
            Which::Preempt => s(St::SWITCH) + s(St::ISR) > 0 && s(St::CHECKED) > 1,
            Which::Suspend => s(St::STALL) > 0 && s(St::CHECKED) > 0,
            Which::History => s(St::CHECKED) > 3,
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Which::Preempt => "each run: 2-3 caller tasks with 1-3 calls from a pool of 2-7 (operation, operands) pairs, preempted or interrupted by handlers at planned basic blocks or static accesses (single points, bursts, lockstep); the primary operation cycles over all registered operations. Non-trivial: at least one preemption or handler inside a call and two outcomes compared. Distinct: by plan and by the sequence of (code offset, call, task switched to).",
            Which::Suspend => "each run: 2-3 caller tasks, one or more suspended for ever or until the end inside a call, the others and interrupt handlers calling on. Non-trivial: a caller was suspended inside a call and another call completed and was compared. Distinct: by plan and by the sequence of (code offset, call, task switched to).",
            Which::History => "each run: a history of 4 to 2000 calls (operations that touch writable statics also up to 300000 times in a row) in one process from a pool of operations and operands, including faulting and corrupted ones and an abandoned caller. Non-trivial: more than three outcomes compared. Distinct: by plan and schedule.",
        }
    }
    fn stub(&self) -> &'static str {
        "callers, interrupt handlers, the scheduler and the user-defined component type SimNum are simulated"
    }
}
