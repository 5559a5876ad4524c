//! C18: a replicated state machine. A leader applies a log of library operations live; two followers, one in the leader's
//! configuration and one in the other feature configuration (a process of its own), receive the log over a faulty network,
//! crash at any step, restart as fresh processes from their newest intact snapshot and replay.
//!
//! What a follower does depends on the plan alone: it is run first, one forked process image per incarnation, with only
//! what it saved surviving; the leader then runs in the child of the run and compares.

use crate::elem::Style;
use crate::harness::*;
use crate::ops::{Ar, A, NARGS};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt;
use std::io::{BufReader, Read, Write};

extern "C" {
    fn _exit(code: i32) -> !;
}

pub struct Replicas;
const NREG: usize = 6;
const MAXENT: usize = 32;
const MAXAPP: usize = 256;
const RETRY: u64 = 12;

/// One application of a log entry.
#[repr(C)]
#[derive(Clone, Copy)]
struct App {
    idx: u32,
    kind: u32,
    n: u32,
    inc: u32,
    text: u64,
    v: [u128; 8],
    regs: [u128; NREG],
}

/// What of a follower survives its crashes, and its history.
#[repr(C)]
#[derive(Clone, Copy)]
struct Dur {
    t: u64,
    inc: u32,
    /// 0: incarnation died without saying so, 1: crashed as planned, 2: caught up, 3: a call did not finish, 4: log not delivered
    status: u32,
    at: u32,
    /// Inside a call of its own: not judged.
    own: u32,
    napp: u32,
    snaps: u32,
    torn: u32,
    mid: u32,
    ticks: u64,
    snap: [(u64, [u128; NREG]); 2],
    app: [App; MAXAPP],
}
const DUR: usize = std::mem::size_of::<Dur>();

fn canon(ty: &str, x: u128) -> u128 {
    match ty {
        "f32" if x >> 32 == 0 && f32::from_bits(x as u32).is_nan() => f32::NAN.to_bits() as u128,
        "f64" if x >> 64 == 0 && f64::from_bits(x as u64).is_nan() => f64::NAN.to_bits() as u128,
        _ => x,
    }
}
/// The width in a format takes effect with the std feature only: blanks in front do not count.
fn text(t: &[u8]) -> u64 {
    hash_bytes(&t[t.iter().take_while(|c| **c == b' ').count()..])
}

struct Step {
    op: usize,
    a: A,
    d: usize,
}
fn step(ctx: &Ctx, r: &Rec, from: usize, regs: &[u128; NREG]) -> Step {
    let op = ctx.op(r.n(from));
    let o = &ctx.ops[op];
    let mut a = [0u128; NARGS + 1];
    for i in 0..NARGS {
        let s = r.n(from + 1 + i) as usize;
        let own = matches!(o.args.get(i), Some(Ar::E(g)) if *g as usize == o.own as usize);
        a[i] = if own && s < NREG { regs[s] } else { r.n(from + 1 + NARGS + i) };
        match o.args.get(i) {
            // Exponents stay modest, also in shrunk plans.
            Some(Ar::Exp) if (a[i] as i128).unsigned_abs() > 64 => a[i] = 3,
            Some(Ar::Count(_)) => a[i] %= 64,
            _ => {}
        }
    }
    Step { op, a, d: r.n(from + 1 + 2 * NARGS) as usize % NREG }
}

#[inline(never)]
fn deep(n: u64, f: &mut dyn FnMut()) {
    let x = [n as u8; 112];
    std::hint::black_box(&x);
    if n == 0 {
        f()
    } else {
        deep(n - 1, f)
    }
    std::hint::black_box(&x);
}

/// Applies entry `idx` to the registers; a call that panics leaves them alone.
fn apply(ctx: &Ctx, e: &Rec, idx: usize, pad: u64, regs: &mut [u128; NREG]) -> App {
    if e.k == "sweep" {
        return sweep(ctx, e, idx, pad, regs);
    }
    let s = step(ctx, e, 0, regs);
    let op = &ctx.ops[s.op];
    let mut o = None;
    deep(pad % 200, &mut || o = Some(call_op(op, &s.a, 3_000_000)));
    let o = o.unwrap();
    let mut app = App { idx: idx as u32, kind: o.kind as u32, n: o.v.len() as u32, inc: 0, text: 0, v: [0; 8], regs: [0; NREG] };
    for (x, y) in app.v.iter_mut().zip(&o.v) {
        *x = canon(op.ty, *y);
    }
    app.text = text(&o.text);
    if o.kind == Kind::Value {
        for k in 0..op.feeds.min(o.v.len()) {
            regs[(s.d + k) % NREG] = app.v[k];
        }
    }
    app.regs = *regs;
    app
}

/// Operand set `k` of a sweep.
fn operands(ctx: &Ctx, e: &Rec, k: u64) -> (usize, A) {
    let op = ctx.op(e.n(0));
    let mut r = Rng::new(e.n(1) as u64, "sweep", k);
    let st = if r.chance(1, 5) { Style::Wild } else { Style::Tame };
    (op, ctx.ops[op].gen(&mut r, st))
}
/// A batch entry: one operation on a series of operands. Its result is that of the last, and a fingerprint of all.
fn sweep(ctx: &Ctx, e: &Rec, idx: usize, pad: u64, regs: &[u128; NREG]) -> App {
    let mut app = App { idx: idx as u32, kind: 0, n: 0, inc: 0, text: 0, v: [0; 8], regs: *regs };
    deep(pad % 200, &mut || {
        for k in 0..e.n(2) as u64 % 512 {
            let (op, a) = operands(ctx, e, k);
            let op = &ctx.ops[op];
            let o = call_op(op, &a, 3_000_000);
            app.n = o.v.len() as u32;
            app.v = [0; 8];
            let mut h = mix(app.text ^ o.kind as u64);
            for (x, y) in app.v.iter_mut().zip(&o.v) {
                *x = canon(op.ty, *y);
                h = mix(h ^ *x as u64 ^ mix((*x >> 64) as u64));
            }
            app.text = mix(h ^ text(&o.text));
        }
    });
    app
}

fn entries(p: &Plan) -> Vec<&Rec> {
    p.iter().filter(|r| r.k == "entry" || r.k == "sweep").take(MAXENT).collect()
}
fn first(p: &Plan, ty: &str) -> [u128; NREG] {
    let mut regs = [0; NREG];
    for r in p.iter().filter(|r| r.k == "set") {
        regs[r.n(0) as usize % NREG] = canon(ty, r.n(1));
    }
    regs
}
/// Calls a node makes for itself between two entries; the registers stay as they are.
fn local(ctx: &Ctx, p: &Plan, who: u128, idx: usize, regs: &[u128; NREG]) {
    for r in p.iter().filter(|r| r.k == "local" && r.n(0) % 3 == who && r.n(1) == idx as u128) {
        let s = step(ctx, r, 2, regs);
        call_op(&ctx.ops[s.op], &s.a, 3_000_000);
    }
}
fn value(p: &Plan, k: &str, who: u128) -> u128 {
    p.iter().find(|r| r.k == k && r.n(0) % 3 == who).map_or(0, |r| r.n(1))
}
/// When the messages with entry i reach follower `who`, apart from the leader's retries. Entry i is sent at 2 i.
fn arrivals(p: &Plan, who: u128, i: usize) -> Vec<u64> {
    let sent = 2 * i as u64;
    let mut v = vec![sent + 1];
    for r in p.iter().filter(|r| r.k == "net" && r.n(0) % 3 == who && r.n(1) == i as u128) {
        match r.n(2) % 3 {
            0 => v[0] = sent + 1 + r.n(3) as u64 % 20,
            1 => v[0] = u64::MAX,
            _ => v.push(sent + 1 + r.n(3) as u64 % 20),
        }
    }
    v
}

static mut D: *mut Dur = std::ptr::null_mut();
static mut D_OWNER: u32 = 0;

fn stuck(_: &str) -> ! {
    unsafe {
        (*D).status = 3;
        _exit(0)
    }
}

/// One incarnation of a follower: from its newest snapshot until it crashes or has everything.
fn incarnation(ctx: &Ctx, p: &Plan, who: u128, d: &mut Dur) {
    let ents = entries(p);
    let crash: Vec<&Rec> = p.iter().filter(|r| r.k == "crash" && r.n(0) % 3 == who).take(6).collect();
    let crash = crash.get(d.inc as usize).copied();
    let every = value(p, "every", who) as u64;
    let pad = value(p, "pad", who) as u64 + 7 * d.inc as u64;
    let arr: Vec<Vec<u64>> = (0..ents.len()).map(|i| arrivals(p, who, i)).collect();
    let (mut applied, mut regs) = (d.snap[0].0 as usize, d.snap[0].1);
    let end = d.t + 2 * ents.len() as u64 + 100;
    let mut held: Vec<usize> = vec![];
    while applied < ents.len() {
        if d.t > end {
            d.status = 4;
            return;
        }
        let mut due: Vec<usize> = (0..ents.len()).filter(|i| arr[*i].contains(&d.t)).collect();
        if d.t % RETRY == 0 {
            // The leader has no acknowledgement for these.
            due.extend((applied..ents.len()).filter(|i| 2 * (*i as u64) < d.t));
        }
        held.append(&mut due);
        let mut mid = false;
        if let Some(c) = crash {
            if c.n(1) as u64 % 80 <= d.t && d.t > 0 {
                mid = c.n(3) % 3 == 1;
                if !mid || d.inc as usize >= 5 {
                    return down(d, c);
                }
            }
        }
        while let Some(k) = held.iter().position(|i| *i == applied) {
            held.remove(k);
            d.at = applied as u32;
            d.own = 1;
            local(ctx, p, who, applied, &regs);
            d.own = 0;
            let mut a = apply(ctx, ents[applied], applied, pad, &mut regs);
            if mid {
                // After the call, before its result is anywhere but in memory.
                d.mid += 1;
                return down(d, crash.unwrap());
            }
            a.inc = d.inc;
            if (d.napp as usize) < MAXAPP {
                d.app[d.napp as usize] = a;
                d.napp += 1;
            }
            applied += 1;
            if every > 0 && applied as u64 % (1 + every % 8) == 0 {
                d.snap[1] = d.snap[0];
                d.snap[0] = (applied as u64, regs);
                d.snaps += 1;
            }
        }
        held.retain(|i| *i > applied);
        d.t += 1;
    }
    d.status = 2;
}
fn down(d: &mut Dur, c: &Rec) {
    if c.n(3) % 3 == 2 {
        // The newest snapshot was being written.
        d.snap[0] = d.snap[1];
        d.torn += 1;
    }
    d.t += 1 + c.n(2) as u64 % 10;
    d.inc += 1;
    d.status = 1;
}

/// The whole life of a follower, in this build of the library.
fn follow(ctx: &Ctx, p: &Plan, who: u128) -> &'static Dur {
    unsafe {
        if D_OWNER != std::process::id() {
            // Never the one of the process this one was forked from.
            D = shared::<Dur>(1);
            D_OWNER = std::process::id();
        }
        std::ptr::write_bytes(D as *mut u8, 0, DUR);
        let d = &mut *D;
        let ty = entries(p).first().map_or("", |e| ctx.ops[ctx.op(e.n(0))].ty);
        d.snap = [(0, first(p, ty)); 2];
        for _ in 0..8 {
            d.status = 0;
            in_fork(30, || {
                let body = || {
                    let d = &mut *D;
                    incarnation(ctx, p, who, d);
                };
                rt::run(rt::Setup { on_hang: stuck, ..rt::Setup::plain() }, vec![Box::new(body)]);
                (*D).ticks += rt::total_ticks();
            });
            if d.status != 1 {
                break;
            }
        }
        d
    }
}

/// Serves plans: length and text on the input, the follower's history on the output.
pub fn node(ctx: &Ctx) -> i32 {
    let mut inp = BufReader::new(std::io::stdin());
    let mut out = std::io::stdout();
    if out.write_all(&registry(ctx).to_le_bytes()).and_then(|_| out.flush()).is_err() {
        return 0;
    }
    loop {
        let mut n = [0u8; 8];
        if inp.read_exact(&mut n).is_err() {
            return 0;
        }
        let mut t = vec![0u8; u64::from_le_bytes(n) as usize];
        if inp.read_exact(&mut t).is_err() {
            return 0;
        }
        let p = from_text(&String::from_utf8_lossy(&t));
        let d = follow(ctx, &p, 2);
        let b = unsafe { std::slice::from_raw_parts(d as *const Dur as *const u8, DUR - (MAXAPP - d.napp as usize) * std::mem::size_of::<App>()) };
        if out.write_all(&(b.len() as u64).to_le_bytes()).and_then(|_| out.write_all(b)).and_then(|_| out.flush()).is_err() {
            return 0;
        }
    }
}
fn registry(ctx: &Ctx) -> u64 {
    ctx.ops.iter().fold(DUR as u64, |h, o| mix(h ^ hash_bytes(o.ty.as_bytes()) ^ mix(hash_bytes(o.name.as_bytes()))))
}

struct Node {
    owner: u32,
    child: std::process::Child,
}
static mut NODE: Option<Node> = None;
/// The other configuration's history for the plan being run, or why there is none.
static mut OTHER: Option<Result<Box<Dur>, String>> = None;

pub fn peer() -> std::path::PathBuf {
    let me = std::env::current_exe().unwrap();
    let (mine, other) = if cfg!(feature = "std") { ("std", "default") } else { ("default", "std") };
    // target/CONF/TRIPLE/debug/sim
    let mut v: Vec<_> = me.iter().map(|s| s.to_os_string()).collect();
    let n = v.len();
    if n > 4 && v[n - 4] == mine {
        v[n - 4] = other.into();
    }
    v.iter().collect()
}

#[allow(static_mut_refs)]
fn ask(ctx: &Ctx, p: &Plan) -> Result<Box<Dur>, String> {
    unsafe {
        let me = std::process::id();
        if NODE.as_ref().map_or(true, |n| n.owner != me) {
            // A node of the process this one was forked from is not ours to end.
            std::mem::forget(NODE.take());
            let mut child = std::process::Command::new(peer())
                .arg("node")
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .spawn()
                .map_err(|e| format!("{}: {e}", peer().display()))?;
            let mut h = [0u8; 8];
            child.stdout.as_mut().unwrap().read_exact(&mut h).map_err(|e| format!("node: {e}"))?;
            if u64::from_le_bytes(h) != registry(ctx) {
                return Err("the two configurations do not offer the same operations".into());
            }
            NODE = Some(Node { owner: me, child });
        }
        let c = &mut NODE.as_mut().unwrap().child;
        let t = to_text(p, &|_| String::new());
        let i = c.stdin.as_mut().unwrap();
        i.write_all(&(t.len() as u64).to_le_bytes()).and_then(|_| i.write_all(t.as_bytes())).and_then(|_| i.flush()).map_err(|e| format!("node: {e}"))?;
        let o = c.stdout.as_mut().unwrap();
        let mut n = [0u8; 8];
        o.read_exact(&mut n).map_err(|e| format!("node: {e}"))?;
        let n = u64::from_le_bytes(n) as usize;
        if n > DUR {
            return Err("node: nonsense".into());
        }
        let mut d: Box<Dur> = Box::new(std::mem::zeroed());
        o.read_exact(std::slice::from_raw_parts_mut(&mut *d as *mut Dur as *mut u8, n)).map_err(|e| format!("node: {e}"))?;
        Ok(d)
    }
}

fn quiet(_: &str) -> ! {
    done()
}

impl Prop for Replicas {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn runs(&self) -> (u64, u64) {
        (60_000, 1_000_000)
    }
    fn gen(&self, ctx: &mut Ctx, r: &mut Rng, i: u64) -> Plan {
        let n = ctx.ops.len() as u64;
        let mut prim = (i.wrapping_mul(2_654_435_761) % n) as usize;
        if i % 4 == 0 {
            // The elementary functions of floats are what a platform may offer itself.
            let f: Vec<usize> = ctx.by_ty.iter().filter(|x| x.0 == "f32" || x.0 == "f64").flat_map(|x| x.1.clone()).collect();
            prim = f[((i / 4).wrapping_mul(2_654_435_761) % f.len() as u64) as usize];
        }
        let ty = ctx.ops[prim].ty;
        let all = ctx.by_ty.iter().find(|x| x.0 == ty).unwrap().1.clone();
        let own = ctx.ops[prim].own;
        let mut p = vec![];
        for k in 0..NREG {
            let st = if r.chance(1, 4) { Style::Wild } else { Style::Tame };
            p.push(rec("set", &[k as u128, own(r, st)]));
        }
        let len = r.range(6, 24) as usize;
        let some = |r: &mut Rng| {
            let op = if r.chance(1, 2) { prim } else { *r.pick(&all) };
            let st = if r.chance(1, 3) { Style::Wild } else { Style::Tame };
            let a = ctx.ops[op].gen(r, st);
            let mut x = vec![op as u128];
            for _ in 0..NARGS {
                x.push(if r.chance(1, 2) { r.below(NREG as u64) as u128 } else { NREG as u128 });
            }
            x.extend_from_slice(&a[..NARGS]);
            x.push(r.below(NREG as u64) as u128);
            x
        };
        for _ in 0..len {
            let x = some(r);
            p.push(rec("entry", &x));
        }
        let many = if ty == "f32" || ty == "f64" { r.range(60, 200) } else { r.range(5, 25) };
        p.insert(NREG + r.below(len as u64) as usize, rec("sweep", &[prim as u128, r.u64() as u128, many as u128]));
        for who in 0..3u128 {
            for _ in 0..r.below(4) {
                let mut x = vec![who, r.below(len as u64) as u128];
                x.append(&mut some(r));
                p.push(rec("local", &x));
            }
            if r.chance(1, 2) {
                p.push(rec("pad", &[who, r.below(200) as u128]));
            }
            if who == 0 {
                continue;
            }
            p.push(rec("every", &[who, r.below(5) as u128]));
            for _ in 0..r.below(6) {
                p.push(rec("net", &[who, r.below(len as u64) as u128, r.below(3) as u128, r.below(20) as u128]));
            }
            let mut t = 0;
            for _ in 0..r.below(4) {
                t += r.range(1, 2 * len as i64) as u64;
                p.push(rec("crash", &[who, (t % 80) as u128, r.below(10) as u128, r.below(3) as u128]));
            }
        }
        p
    }
    fn prepare(&self, ctx: &mut Ctx, p: &Plan) {
        unsafe { OTHER = Some(ask(ctx, p)) };
        follow(ctx, p, 1);
    }
    #[allow(static_mut_refs)]
    fn exec(&self, ctx: &Ctx, p: &Plan) {
        let other = match unsafe { OTHER.as_ref() } {
            Some(Ok(d)) => &**d,
            Some(Err(e)) => harness_error(e),
            None => harness_error("no node"),
        };
        let same: &Dur = unsafe { &*D };
        let ents = entries(p);
        for (d, _) in [(same, 1), (other, 2)] {
            stat_n(St::RESTORE, d.inc as u64);
            stat_n(St::TASKCRASH, d.mid as u64);
            stat_n(St::TORN, d.torn as u64);
            stat_n(St::RECORDS, d.snaps as u64);
            stat_n(St::CALLS, d.napp as u64);
            if d.status == 4 {
                harness_error("the log did not reach a follower");
            }
        }
        for r in p.iter().filter(|r| r.k == "net" && r.n(1) < ents.len() as u128) {
            stat([St::DELAY, St::LOST, St::DUPLICATE][(r.n(2) % 3) as usize]);
        }
        rt::run(rt::Setup { on_hang: quiet, ..rt::Setup::plain() }, vec![Box::new(|| {
            let ty = ents.first().map_or("", |e| ctx.ops[ctx.op(e.n(0))].ty);
            let mut regs = first(p, ty);
            let pad = value(p, "pad", 0) as u64;
            for (i, e) in ents.iter().enumerate() {
                local(ctx, p, 0, i, &regs);
                let before = regs;
                let a = apply(ctx, e, i, pad, &mut regs);
                stat(St::STEPS);
                stat(St::CALLS);
                if a.kind == Kind::Panic as u32 {
                    stat(St::PANICS);
                }
                log(a.kind as u64);
                log(a.text);
                for x in a.v {
                    log128(x);
                }
                let (op, args) = if e.k == "sweep" {
                    operands(ctx, e, (e.n(2) as u64 % 512).saturating_sub(1))
                } else {
                    let s = step(ctx, e, 0, &before);
                    (s.op, s.a)
                };
                let what = || format!("entry {i}, {}{}", ctx.show(op, &args), if e.k == "sweep" { format!(", the last of a batch of {}", e.n(2) % 512) } else { String::new() });
                for (d, name) in [(same, "of the same configuration"), (other, "of the other feature configuration")] {
                    for b in d.app[..d.napp as usize].iter().filter(|b| b.idx as usize == i) {
                        stat(St::CHECKED);
                        if b.kind != a.kind || b.n != a.n || b.v != a.v || b.text != a.text || b.regs != a.regs {
                            let sh = |x: &App| if x.kind == 0 { format!("{:x?} text {:x}", &x.v[..x.n as usize], x.text) } else { "a panic".to_string() };
                            log(b.inc as u64);
                            fail("replicas-differ", &format!("{}: the leader got {}, the follower {name} after {} restarts {}", what(), sh(&a), b.inc, sh(b)));
                        }
                    }
                    if d.status != 2 && d.own == 0 && d.at as usize == i {
                        fail("replica-lost", &format!("{}: the leader got a result, the follower {name} {}", what(), if d.status == 3 { "none within the step limit" } else { "died" }));
                    }
                }
                state(mix(op as u64 ^ mix(a.kind as u64 ^ mix(a.v[0] as u64 ^ a.text))));
            }
        })]);
    }
    fn describe(&self, ctx: &Ctx, r: &Rec) -> String {
        let call = |f: usize| {
            let o = &ctx.ops[ctx.op(r.n(f))];
            let s: Vec<String> = (0..o.args.len()).map(|i| if r.n(f + 1 + i) < NREG as u128 { format!("reg{} or 0x{:x}", r.n(f + 1 + i), r.n(f + 1 + NARGS + i)) } else { format!("0x{:x}", r.n(f + 1 + NARGS + i)) }).collect();
            format!("{}::{}({})", o.ty, o.name, s.join(", "))
        };
        let who = ["leader", "follower of the same configuration", "follower of the other configuration"][(r.n(0) % 3) as usize];
        match r.k {
            "entry" => format!("{} -> reg{}", call(0), r.n(1 + 2 * NARGS) % NREG as u128),
            "sweep" => {
                let o = &ctx.ops[ctx.op(r.n(0))];
                format!("{}::{} on a batch of {} operands", o.ty, o.name, r.n(2) % 512)
            }
            "local" => format!("{who}, before entry {}: {}", r.n(1), call(2)),
            "net" => format!("{who}, entry {}: {}", r.n(1), [format!("late by {}", r.n(3) % 20), "lost".into(), format!("again {} later", r.n(3) % 20)][(r.n(2) % 3) as usize]),
            "crash" => format!("{who}: crashes at {}{}, restarts {} later", r.n(1) % 80, ["", " inside an update", " while writing a snapshot"][(r.n(3) % 3) as usize], 1 + r.n(2) % 10),
            "every" if r.n(1) > 0 => format!("{who}: snapshot every {} entries", 1 + r.n(1) % 8),
            _ => String::new(),
        }
    }
    fn rule(&self) -> &'static str {
        "each run: a log of 6-24 library operations and one batch of operations on six registers of one component type, applied live by a leader and by two followers, one built with and one without the std feature; messages delayed, reordered, lost and duplicated, up to three crashes per follower (between updates, inside one, while a snapshot is written), restarts as fresh processes from the newest intact snapshot, own calls between entries, different stack depths; every application of every entry is compared bit for bit (NaN as one value) with the leader's. Non-trivial: at least three entries compared. Distinct: by plan. State measure: (operation, outcome)."
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::CHECKED as usize] > 2
    }
    fn stub(&self) -> &'static str {
        "network, log, snapshot storage, process crashes and the component type SimNum are simulated; each incarnation of a follower is a forked process, the follower of the other configuration runs in that configuration's build"
    }
}
