//! C10: a processing loop with a deadline per call, on registers whose contents are corrupted at any step.

use crate::elem::Style;
use crate::harness::*;
use crate::ops::{Ar, A, NARGS};
use crate::rng::{mix, Rng};
use crate::rt;

pub struct Deadline;
const NREG: usize = 6;

/// Steps a call may take: about twice what the slowest operation of the kind takes, plus a part per unit of an integer exponent.
pub fn allowed(ctx: &Ctx, op: usize, a: &A) -> u64 {
    let o = &ctx.ops[op];
    let base = match o.ty {
        "SimNum" => 200_000,
        "f32" | "f64" => 40_000,
        t if t.contains('F') => 90_000,
        _ => 25_000,
    };
    let mut e = 0u64;
    for (i, k) in o.args.iter().enumerate() {
        if !matches!(k, Ar::E(_)) {
            e = e.saturating_add((a[i] as i128).unsigned_abs().min(1 << 40) as u64);
        }
    }
    base + 2_000 * e
}

static mut NOW: (usize, A, *const Ctx) = (0, [0; NARGS + 1], std::ptr::null());
#[allow(static_mut_refs)]
fn late(what: &str) -> ! {
    let (op, a, ctx) = unsafe { NOW };
    let ctx = unsafe { &*ctx };
    fail("deadline-missed", &format!("{}: {what} (allowed {})", ctx.show(op, &a), allowed(ctx, op, &a)))
}

fn resolve(ctx: &Ctx, r: &Rec, regs: &[u128; NREG]) -> (usize, A) {
    let op = ctx.op(r.n(0));
    let o = &ctx.ops[op];
    let mut a = [0u128; NARGS + 1];
    for i in 0..NARGS {
        let s = r.n(1 + i) as usize;
        let own = matches!(o.args.get(i), Some(Ar::E(g)) if *g as usize == o.own as usize);
        a[i] = if own && s < NREG { regs[s] } else { r.n(6 + i) };
        if let Some(Ar::Exp | Ar::Count(_)) = o.args.get(i) {
            // Exponents stay modest, also in shrunk plans.
            let m = if matches!(o.args[i], Ar::Count(_)) { a[i] % 64 } else { a[i] };
            a[i] = m;
            if (a[i] as i128).unsigned_abs() > 64 {
                a[i] = 3;
            }
        }
    }
    a[NARGS] = r.n(6 + NARGS);
    (op, a)
}

impl Prop for Deadline {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn runs(&self) -> (u64, u64) {
        (100_000, 2_500_000)
    }
    fn gen(&self, ctx: &mut Ctx, r: &mut Rng, i: u64) -> Plan {
        let n = ctx.ops.len() as u64;
        let prim = (i.wrapping_mul(2_654_435_761) % n) as usize;
        let ty = ctx.ops[prim].ty;
        let v = ctx.by_ty.iter().find(|x| x.0 == ty).unwrap().1.clone();
        let own = ctx.ops[prim].own;
        let bits = ctx.ops[prim].bits;
        let mut p = vec![];
        for k in 0..NREG {
            let st = if r.chance(1, 3) { Style::Wild } else { Style::Tame };
            p.push(rec("set", &[k as u128, own(r, st)]));
        }
        for _ in 0..r.range(8, 40) {
            match r.below(10) {
                0 | 1 => p.push(rec("flip", &[r.below(NREG as u64) as u128, r.below(bits as u64) as u128])),
                2 => {
                    let st = if r.chance(2, 3) { Style::Wild } else { Style::Tame };
                    p.push(rec("set", &[r.below(NREG as u64) as u128, own(r, st)]));
                }
                _ => {
                    let op = if r.chance(1, 2) { prim } else { *r.pick(&v) };
                    let st = if r.chance(1, 2) { Style::Wild } else { Style::Tame };
                    let a = ctx.ops[op].gen(r, st);
                    let mut x = vec![op as u128];
                    for _ in 0..NARGS {
                        x.push(if r.chance(1, 2) { r.below(NREG as u64) as u128 } else { NREG as u128 });
                    }
                    x.extend_from_slice(&a[..NARGS]);
                    x.push(if ty == "SimNum" && r.chance(1, 4) { 1 + r.below(20) as u128 } else { 0 });
                    x.push(r.below(NREG as u64) as u128);
                    p.push(Rec { k: "call", v: x });
                }
            }
        }
        p
    }
    fn exec(&self, ctx: &Ctx, p: &Plan) {
        rt::run(rt::Setup { on_hang: late, ..rt::Setup::plain() }, vec![Box::new(|| {
            let mut regs = [0u128; NREG];
            let mut bits = 64u128;
            for r in p {
                match r.k {
                    "set" => {
                        regs[r.n(0) as usize % NREG] = r.n(1);
                        stat(St::STEPS);
                    }
                    "flip" => {
                        regs[r.n(0) as usize % NREG] ^= 1 << (r.n(1) % bits);
                        stat(St::BITFLIP);
                        stat(St::STEPS);
                    }
                    "call" => {
                        let (op, a) = resolve(ctx, r, &regs);
                        bits = ctx.ops[op].bits as u128;
                        unsafe { NOW = (op, a, ctx) };
                        let b = allowed(ctx, op, &a);
                        let o = call_op(&ctx.ops[op], &a, b);
                        stat(St::CALLS);
                        stat(St::STEPS);
                        stat(St::CHECKED);
                        if a[NARGS] > 0 {
                            stat(St::SIMFAULT);
                        }
                        if o.kind == Kind::Panic {
                            stat(St::PANICS);
                        }
                        log(o.hash());
                        log(o.ticks);
                        let d = r.n(7 + NARGS) as usize % NREG;
                        for (k, v) in o.v.iter().take(ctx.ops[op].feeds).enumerate() {
                            regs[(d + k) % NREG] = *v;
                        }
                        state(mix(op as u64 ^ mix(o.ticks)));
                    }
                    _ => {}
                }
            }
        })]);
    }
    fn describe(&self, ctx: &Ctx, r: &Rec) -> String {
        match r.k {
            "call" => {
                let o = &ctx.ops[ctx.op(r.n(0))];
                let s: Vec<String> = (0..o.args.len()).map(|i| if r.n(1 + i) < NREG as u128 { format!("reg{} or 0x{:x}", r.n(1 + i), r.n(6 + i)) } else { format!("0x{:x}", r.n(6 + i)) }).collect();
                format!("{}::{}({}) -> reg{}", o.ty, o.name, s.join(", "), r.n(7 + NARGS) % NREG as u128)
            }
            _ => String::new(),
        }
    }
    fn rule(&self) -> &'static str {
        "each run: 8-40 steps on six registers of one component type: calls of any registered operation on registers or given operands (ordinary, extreme, NaN, infinite, one flipped bit), results fed back into registers, registers overwritten or hit by bit flips between calls; every call has a deadline in executed basic blocks that does not depend on the magnitude of its operands. Non-trivial: at least three calls finished. Distinct: by plan. State measure: (operation, steps taken)."
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::CALLS as usize] > 2
    }
    fn stub(&self) -> &'static str {
        "the processing loop with its registers, the clock (executed basic blocks) and the component type SimNum are simulated"
    }
}
