//! Seeded search over plans: one plan is one exactly repeatable execution in a fresh process image.
//!
//! The parent forks workers; a worker forks a child for every run, so whatever state the code under test may
//! keep is pristine at the start of each run and a replay sees exactly what the search saw.

use crate::ops::{self, Op, Out, A};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(code: i32) -> !;
    fn vs_watch(s: i32);
    fn personality(p: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn vs_statics(from: *mut *const u8, n: *mut u64);
}

/// One line of a plan.
#[derive(Clone, PartialEq, Debug)]
pub struct Rec {
    pub k: &'static str,
    pub v: Vec<u128>,
}
pub type Plan = Vec<Rec>;
pub fn rec(k: &'static str, v: &[u128]) -> Rec {
    Rec { k, v: v.to_vec() }
}
impl Rec {
    /// Value i; 0 when absent (shrunk or hand-written plans).
    pub fn n(&self, i: usize) -> u128 {
        self.v.get(i).copied().unwrap_or(0)
    }
}
pub fn find<'a>(p: &'a Plan, k: &str) -> Option<&'a Rec> {
    p.iter().find(|r| r.k == k)
}

pub fn to_text(p: &Plan, describe: &dyn Fn(&Rec) -> String) -> String {
    let mut s = String::new();
    for r in p {
        let _ = write!(s, "{}", r.k);
        for v in &r.v {
            let _ = write!(s, " {:x}", v);
        }
        let d = describe(r);
        if !d.is_empty() {
            let _ = write!(s, "   # {}", d.replace('\n', " "));
        }
        s.push('\n');
    }
    s
}
pub fn from_text(t: &str) -> Plan {
    let mut p = vec![];
    for l in t.lines() {
        let l = l.split('#').next().unwrap_or("").trim();
        let mut w = l.split_whitespace();
        if let Some(k) = w.next() {
            p.push(Rec { k: Box::leak(k.to_string().into_boxed_str()), v: w.map(|x| u128::from_str_radix(x, 16).expect("number in replay file")).collect() });
        }
    }
    p
}

macro_rules! stats { ($($n:ident = $s:expr;)*) => {
    #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
    #[derive(Clone, Copy)]
    pub enum St { $($n),* , COUNT }
    pub const STAT_NAMES: &[&str] = &[$($s),*];
} }
stats! {
    CALLS = "library_calls";
    CHECKED = "outcomes_compared";
    PANICS = "arithmetic_panics_in_library_calls";
    SWITCH = "task_switches";
    STALL = "calls_suspended_or_abandoned";
    ISR = "interrupt_handlers_on_top_of_a_call";
    SIMFAULT = "component_operation_faults";
    BITFLIP = "bit_flips_in_stored_values";
    WILD = "calls_on_corrupted_or_extreme_operands";
    RESTORE = "restarts_from_saved_state";
    LOCKWAIT = "lock_waits";
    RETRY = "retries_after_a_fault";
    TASKCRASH = "callers_crashed_inside_an_update";
    SINKCAP = "sink_full";
    SINKBYTE = "sink_failed_at_a_byte";
    SINKCALL = "sink_failed_at_a_write_call";
    SINKTRANSIENT = "sink_failed_once_then_recovered";
    SINKPANIC = "sink_panicked";
    TORN = "journals_torn_by_a_crash";
    DROPOUT = "signal_dropouts";
    SPIKE = "signal_spikes";
    DETUNE = "step_changes";
    STEPS = "history_steps";
    OVERFLOW = "steps_failed_because_a_value_does_not_fit";
    SKIPPED = "steps_not_judged";
    KNOWN = "known_findings_met";
    RECORDS = "records_written";
    READBACK = "records_read_back_exactly";
    RESCUED = "waiting_calls_given_other_callers_turns";
    PRISTINE = "pristine_reference_calls";
    SETTLED = "faults_recovered_from";
    DUPLICATE = "packets_duplicated";
    DELAY = "packets_delayed_or_reordered";
    LOST = "packets_lost";
    CLOCKJUMP = "clock_jumps_and_skews";
}

const DET: usize = 6000;
#[repr(C)]
pub struct Report {
    /// 0 not finished, 1 fine, 2 violation, 3 harness error
    pub status: u32,
    class_n: u32,
    detail_n: u32,
    pub ndist: u32,
    class: [u8; 96],
    detail: [u8; DET],
    pub log: u64,
    pub trace: u64,
    pub ticks: u64,
    pub stats: [u64; St::COUNT as usize],
    pub dist: [u64; 256],
}

static mut REP: *mut Report = std::ptr::null_mut();
static mut SIDE: *mut Side = std::ptr::null_mut();
static mut NOEXEC: bool = false;

#[allow(static_mut_refs)]
pub fn rep() -> &'static mut Report {
    unsafe { &mut *REP }
}
pub fn stat(s: St) {
    rep().stats[s as usize] += 1;
}
pub fn stat_n(s: St, n: u64) {
    rep().stats[s as usize] += n;
}
/// Mixes something observed into the run's log hash (the determinism check compares it).
pub fn log(x: u64) {
    let r = rep();
    r.log = mix(r.log ^ mix(x));
}
pub fn log128(x: u128) {
    log(x as u64);
    log((x >> 64) as u64);
}
/// A distinct state, for coverage.
pub fn state(h: u64) {
    let r = rep();
    if (r.ndist as usize) < r.dist.len() {
        r.dist[r.ndist as usize] = h;
        r.ndist += 1;
    }
}
fn finish(status: u32, class: &str, detail: &str) -> ! {
    let r = rep();
    let c = class.as_bytes();
    let n = c.len().min(r.class.len());
    r.class[..n].copy_from_slice(&c[..n]);
    r.class_n = n as u32;
    let d = detail.as_bytes();
    let n = d.len().min(DET);
    r.detail[..n].copy_from_slice(&d[..n]);
    r.detail_n = n as u32;
    let q = rt::rt();
    r.trace = mix(r.trace ^ q.trace);
    r.stats[St::SWITCH as usize] += q.switches;
    r.stats[St::STALL as usize] += q.stalls;
    r.stats[St::ISR as usize] += q.isrs;
    r.stats[St::LOCKWAIT as usize] += q.lock_waits;
    r.stats[St::RESCUED as usize] += q.rescues;
    r.ticks = rt::total_ticks();
    r.status = status;
    unsafe { _exit(0) }
}
/// Ends the run with a violation.
pub fn fail(class: &str, detail: &str) -> ! {
    finish(2, class, detail)
}
/// Ends the run: nothing more to judge.
pub fn done() -> ! {
    finish(1, "", "")
}
/// Runs `f` in a forked process image and waits for it.
pub fn in_fork(limit_s: i32, f: impl FnOnce()) {
    unsafe {
        let pid = fork();
        if pid == 0 {
            vs_watch(limit_s);
            f();
            _exit(0);
        }
        wait(pid);
    }
}
pub fn harness_error(detail: &str) -> ! {
    finish(3, "harness", detail)
}

/// Result of a run as seen by the worker.
#[derive(Clone)]
pub struct Res {
    pub status: u32,
    pub class: String,
    pub detail: String,
    pub log: u64,
    pub trace: u64,
    pub ticks: u64,
    pub stats: [u64; St::COUNT as usize],
    pub dist: Vec<u64>,
}

/// Outcome of one library call.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Value,
    Panic,
    /// No result within the step limit.
    Hang,
    /// Killed by a signal.
    Crash,
}
#[repr(C)]
struct Side {
    done: u32,
    kind: u32,
    n: u64,
    tn: u64,
    v: [u128; 8],
    text: [u8; 320],
    ticks: u64,
    acc: u64,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Outcome {
    pub kind: Kind,
    pub v: Vec<u128>,
    pub text: Vec<u8>,
    pub ticks: u64,
    pub acc: u64,
}
impl Outcome {
    pub fn same(&self, o: &Outcome) -> bool {
        self.kind == o.kind && (self.kind != Kind::Value || (self.v == o.v && self.text == o.text))
    }
    pub fn show(&self) -> String {
        match self.kind {
            Kind::Value => {
                let mut s: Vec<String> = self.v.iter().map(|x| format!("0x{x:x}")).collect();
                if !self.text.is_empty() {
                    s.push(format!("{:?}", String::from_utf8_lossy(&self.text)));
                }
                s.join(",")
            }
            k => format!("{k:?}"),
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = self.kind as u64;
        for x in &self.v {
            h = mix(h ^ mix(*x as u64) ^ (*x >> 64) as u64);
        }
        mix(h ^ hash_bytes(&self.text))
    }
}

/// Calls the operation as one simulated call of the current task.
pub fn call_op(op: &Op, a: &A, budget: u64) -> Outcome {
    let mut o = Box::new(Out::new());
    let (r, ticks, acc) = rt::call(budget, || ops::invoke(op, a, &mut o));
    match r {
        Ok(()) => Outcome { kind: Kind::Value, v: o.v[..o.n].to_vec(), text: o.text.b[..o.text.n.min(320)].to_vec(), ticks, acc },
        Err(_) => Outcome { kind: Kind::Panic, v: vec![], text: vec![], ticks, acc },
    }
}

fn side_hang(_: &str) -> ! {
    unsafe {
        (*SIDE).kind = Kind::Hang as u32;
        (*SIDE).done = 1;
        _exit(0)
    }
}

pub fn hang_violation(what: &str) -> ! {
    fail("no-progress", what)
}

pub struct Ctx {
    pub ops: Vec<Op>,
    pub thorough: bool,
    pub seed: u64,
    /// Operations that touch writable static storage, found by the survey.
    pub hot: Vec<usize>,
    /// Indices of operations per component type.
    pub by_ty: Vec<(&'static str, Vec<usize>)>,
    pub cache: HashMap<(usize, A), Outcome>,
    pub pristine_calls: u64,
    /// Ids of the findings listed in KNOWN_FINDINGS, and their lines.
    pub known: Vec<String>,
    known_lines: Vec<String>,
}

impl Ctx {
    pub fn new(thorough: bool, seed: u64) -> Ctx {
        let ops = ops::all();
        let mut by_ty: Vec<(&'static str, Vec<usize>)> = vec![];
        for (i, o) in ops.iter().enumerate() {
            match by_ty.iter_mut().find(|x| x.0 == o.ty) {
                Some(x) => x.1.push(i),
                None => by_ty.push((o.ty, vec![i])),
            }
        }
        let mut known = vec![];
        let mut known_lines = vec![];
        for l in std::fs::read_to_string(format!("{}/KNOWN_FINDINGS", verif_dir())).unwrap_or_default().lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                if let Some(id) = rest.split_whitespace().find_map(|w| w.strip_prefix("id=")) {
                    known.push(id.to_string());
                    known_lines.push(rest.to_string());
                }
            }
        }
        Ctx { ops, thorough, seed, hot: vec![], by_ty, cache: HashMap::new(), pristine_calls: 0, known, known_lines }
    }
    /// The description of a listed finding.
    pub fn known_text(&self, prop: &str, id: &str) -> Option<String> {
        let (p, i) = (format!("property={prop} "), format!("id={id} "));
        self.known_lines.iter().find(|l| l.starts_with(&p) && l.contains(&i)).map(|l| l[p.len()..].to_string())
    }
    pub fn op(&self, i: u128) -> usize {
        (i % self.ops.len() as u128) as usize
    }
    /// What the call does as the first and only call of a fresh process image.
    pub fn pristine(&mut self, op: usize, a: &A) -> Outcome {
        if let Some(o) = self.cache.get(&(op, *a)) {
            return o.clone();
        }
        if self.cache.len() > 200_000 {
            self.cache.clear();
        }
        let o = self.pristine_uncached(op, a);
        self.cache.insert((op, *a), o.clone());
        o
    }
    pub fn pristine_uncached(&mut self, op: usize, a: &A) -> Outcome {
        self.pristine_calls += 1;
        unsafe {
            (*SIDE).done = 0;
            let pid = fork();
            if pid == 0 {
                vs_watch(30);
                let ops = &self.ops;
                rt::run(
                    rt::Setup { on_hang: side_hang, ..rt::Setup::plain() },
                    vec![Box::new(move || {
                        let o = call_op(&ops[op], a, 3_000_000);
                        let s = &mut *SIDE;
                        s.kind = o.kind as u32;
                        s.n = o.v.len() as u64;
                        s.v[..o.v.len()].copy_from_slice(&o.v);
                        s.tn = o.text.len() as u64;
                        s.text[..o.text.len()].copy_from_slice(&o.text);
                        s.ticks = o.ticks;
                        s.acc = o.acc;
                        s.done = 1;
                    })],
                );
                _exit(0);
            }
            wait(pid);
            let s = &*SIDE;
            if s.done == 0 {
                return Outcome { kind: Kind::Crash, v: vec![], text: vec![], ticks: 0, acc: 0 };
            }
            let kind = match s.kind {
                0 => Kind::Value,
                1 => Kind::Panic,
                _ => Kind::Hang,
            };
            if kind != Kind::Value {
                return Outcome { kind, v: vec![], text: vec![], ticks: s.ticks, acc: s.acc };
            }
            Outcome { kind, v: s.v[..s.n as usize].to_vec(), text: s.text[..s.tn as usize].to_vec(), ticks: s.ticks, acc: s.acc }
        }
    }
    pub fn show(&self, op: usize, a: &A) -> String {
        self.ops[op].show(a)
    }
}

unsafe fn wait(pid: i32) -> i32 {
    if pid < 0 {
        panic!("fork failed");
    }
    let mut st = 0;
    while waitpid(pid, &mut st, 0) != pid {}
    st
}

/// Shared anonymous memory of the size of `T`.
pub fn shared<T>(n: usize) -> *mut T {
    let p = unsafe { mmap(std::ptr::null_mut(), n * std::mem::size_of::<T>(), 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut T
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// (quick, thorough)
    fn runs(&self) -> (u64, u64);
    fn gen(&self, ctx: &mut Ctx, r: &mut Rng, i: u64) -> Plan;
    /// In the worker, before the fork.
    fn prepare(&self, _ctx: &mut Ctx, _p: &Plan) {}
    /// In the child. Returns normally if the property held.
    fn exec(&self, ctx: &Ctx, p: &Plan);
    fn describe(&self, _ctx: &Ctx, _r: &Rec) -> String {
        String::new()
    }
    fn rule(&self) -> &'static str;
    /// Whether the std feature of the library changes what the property is about.
    fn std_matters(&self) -> bool {
        false
    }
    /// Whether coverage wants the survey of operations that touch writable statics.
    fn survey(&self) -> bool {
        false
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::CALLS as usize] > 1
    }
    fn real(&self) -> &'static str {
        "the whole mixed-num crate of /repo and its dependencies fixed, cordic, libm and num, compiled unmodified"
    }
    fn stub(&self) -> &'static str;
    /// Plans of the known findings: (id in KNOWN_FINDINGS, plan, class it must fail with)
    fn known(&self) -> Vec<(&'static str, Plan, &'static str)> {
        vec![]
    }
}

pub fn run_plan(ctx: &mut Ctx, prop: &dyn Prop, p: &Plan) -> Res {
    prop.prepare(ctx, p);
    unsafe {
        std::ptr::write_bytes(REP as *mut u8, 0, std::mem::size_of::<Report>());
        let st;
        if NOEXEC {
            st = 0;
        } else {
            let pid = fork();
            if pid == 0 {
                vs_watch(60);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prop.exec(ctx, p)));
                match r {
                    Ok(()) => finish(1, "", ""),
                    Err(e) => harness_error(&format!("harness panicked: {} at {}", payload(&e), crate::rt::last_panic())),
                }
            }
            st = wait(pid);
        }
        let r = rep();
        let s = |b: &[u8], n: u32| String::from_utf8_lossy(&b[..n as usize]).to_string();
        let mut res = Res {
            status: r.status,
            class: s(&r.class, r.class_n),
            detail: s(&r.detail, r.detail_n),
            log: r.log,
            trace: r.trace,
            ticks: r.ticks,
            stats: r.stats,
            dist: r.dist[..r.ndist as usize].to_vec(),
        };
        if r.status == 0 {
            let sig = st & 0x7f;
            res.status = 2;
            if sig == 14 {
                res.class = "blocked".into();
                res.detail = "no caller can run: the process waits without executing any step".into();
            } else {
                res.class = "crash".into();
                res.detail = format!("the process died (wait status 0x{st:x}) inside the run");
            }
        }
        res
    }
}

pub fn payload(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

const MAXSET: usize = 1 << 21;
#[repr(C)]
struct WorkerOut {
    runs: u64,
    ticks: u64,
    nontrivial: u64,
    reruns: u64,
    mismatches: u64,
    pristine: u64,
    mismatch_at: u64,
    stats: [u64; St::COUNT as usize],
    fail_at: u64,
    fail_status: u32,
    ntrace: u64,
    nstate: u64,
    done: u32,
}

pub struct Totals {
    pub runs: u64,
    pub ticks: u64,
    pub nontrivial: u64,
    pub reruns: u64,
    pub mismatches: u64,
    pub mismatch_at: u64,
    pub stats: [u64; St::COUNT as usize],
    pub traces: u64,
    pub states: u64,
    pub fail_at: Option<u64>,
    pub wall: f64,
    pub stopped_early: bool,
    pub hot: usize,
    /// xor of the log hashes of all runs
    pub fingerprint: u64,
}

pub fn setup() {
    unsafe {
        // A replay must not depend on where the loader put things.
        if std::env::var_os("VS_FIXED_LAYOUT").is_none() {
            personality(0x0040000);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("VS_FIXED_LAYOUT", "1").env("LD_BIND_NOW", "1").exec();
            panic!("exec: {e}");
        }
        setrlimit(4, &[0, 0]);
        REP = shared::<Report>(1);
        SIDE = shared::<Side>(1);
    }
    rt::init();
}

pub fn gen_plan(ctx: &mut Ctx, prop: &dyn Prop, i: u64) -> Plan {
    let mut r = Rng::new(ctx.seed, prop.id(), i);
    prop.gen(ctx, &mut r, i)
}

fn statics() -> Vec<u8> {
    unsafe {
        let (mut p, mut n) = (std::ptr::null(), 0);
        vs_statics(&mut p, &mut n);
        let mut v = vec![0u8; n as usize];
        std::ptr::copy_nonoverlapping(p, v.as_mut_ptr(), n as usize);
        v
    }
}

/// Which operations touch writable statics, by calling each a few times in fresh processes: they load from or store to
/// them, or leave them changed (which also shows atomic updates).
fn survey(ctx: &mut Ctx, workers: usize) {
    let n = ctx.ops.len();
    let flags = shared::<u8>(n);
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { SIDE = shared::<Side>(1) };
            for i in (w..n).step_by(workers) {
                let mut r = Rng::new(ctx.seed, "survey", i as u64);
                for k in 0..2 {
                    let a = ctx.ops[i].gen(&mut r, if k == 0 { crate::elem::Style::Tame } else { crate::elem::Style::Wild });
                    let o = ctx.pristine_uncached(i, &a);
                    if o.acc > 0 {
                        unsafe { *flags.add(i) = 1 };
                    }
                    if o.kind != Kind::Value {
                        continue;
                    }
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        unsafe { vs_watch(30) };
                        let ops = &ctx.ops;
                        rt::run(
                            rt::Setup { on_hang: side_hang, ..rt::Setup::plain() },
                            vec![Box::new(move || {
                                let mut o = Box::new(Out::new());
                                let mut s: Vec<Vec<u8>> = Vec::with_capacity(4);
                                // What two empty calls change is the simulator's own.
                                for k in 0..4 {
                                    if k > 0 {
                                        let _ = rt::call(3_000_000, || if k == 3 { ops::invoke(&ops[i], &a, &mut o) });
                                    }
                                    s.push(statics());
                                }
                                if (0..s[0].len()).any(|j| s[2][j] != s[3][j] && s[0][j & !7..].iter().zip(&s[1][j & !7..]).take(8).all(|(a, b)| a == b) && s[1][j & !7..].iter().zip(&s[2][j & !7..]).take(8).all(|(a, b)| a == b)) {
                                    unsafe { *flags.add(i) = 1 };
                                }
                            })],
                        );
                        unsafe { _exit(0) };
                    }
                    unsafe { wait(pid) };
                }
            }
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        unsafe { wait(p) };
    }
    if std::env::var_os("VS_DEBUG").is_some() {
        for i in 0..n {
            if unsafe { *flags.add(i) } == 1 {
                eprintln!("touches statics: {}::{}", ctx.ops[i].ty, ctx.ops[i].name);
            }
        }
    }
    ctx.hot = (0..n).filter(|i| unsafe { *flags.add(*i) } == 1).collect();
}

pub fn explore(ctx: &mut Ctx, prop: &dyn Prop, from: u64, runs: u64, workers: usize, limit_s: f64, rerun_every: u64) -> Totals {
    let t0 = Instant::now();
    if prop.survey() {
        survey(ctx, workers);
    }
    let outs: Vec<*mut WorkerOut> = (0..workers).map(|_| shared::<WorkerOut>(1)).collect();
    let sets: Vec<*mut u64> = (0..workers).map(|_| shared::<u64>(2 * MAXSET)).collect();
    let minfail = shared::<std::sync::atomic::AtomicU64>(1);
    let finger = shared::<std::sync::atomic::AtomicU64>(1);
    use std::sync::atomic::Ordering::Relaxed;
    unsafe { (*minfail).store(u64::MAX, Relaxed) };
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { fork() };
        if pid != 0 {
            pids.push(pid);
            continue;
        }
        unsafe {
            REP = shared::<Report>(1);
            SIDE = shared::<Side>(1);
        }
        let op: *mut WorkerOut = outs[w];
        let o = unsafe { &mut *op };
        o.fail_at = u64::MAX;
        let mut traces: HashSet<u64> = HashSet::new();
        let mut states: HashSet<u64> = HashSet::new();
        let mut i = from + w as u64;
        while i < from + runs {
            if unsafe { (*minfail).load(Relaxed) } < i {
                break;
            }
            if t0.elapsed().as_secs_f64() > limit_s {
                break;
            }
            let plan = gen_plan(ctx, prop, i);
            let mut h = 0u64;
            for r in &plan {
                h = mix(h ^ hash_bytes(r.k.as_bytes()));
                for v in &r.v {
                    h = mix(h ^ *v as u64 ^ mix((*v >> 64) as u64));
                }
            }
            let res = run_plan(ctx, prop, &plan);
            o.runs += 1;
            o.ticks += res.ticks;
            for (a, b) in o.stats.iter_mut().zip(&res.stats) {
                *a += b;
            }
            unsafe { (*finger).fetch_xor(mix(res.log ^ mix(res.trace ^ mix(i ^ res.ticks))), Relaxed) };
            if res.status != 1 {
                o.fail_at = i;
                o.fail_status = res.status;
                unsafe { (*minfail).fetch_min(i, Relaxed) };
                break;
            }
            if prop.nontrivial(&res) && traces.len() < MAXSET && traces.insert(mix(h ^ res.trace)) {
                o.nontrivial += 1;
            }
            for d in &res.dist {
                if states.len() < MAXSET {
                    states.insert(*d);
                }
            }
            if rerun_every > 0 && i % rerun_every == 0 {
                o.reruns += 1;
                let plan2 = from_text(&to_text(&gen_plan(ctx, prop, i), &|_| String::new()));
                let r2 = run_plan(ctx, prop, &plan2);
                if r2.log != res.log || r2.trace != res.trace || r2.ticks != res.ticks || r2.status != res.status || r2.stats != res.stats {
                    o.mismatches += 1;
                    o.mismatch_at = i;
                }
            }
            i += workers as u64;
        }
        o.pristine = ctx.pristine_calls;
        unsafe {
            for (k, x) in traces.iter().enumerate() {
                *sets[w].add(k) = *x;
            }
            for (k, x) in states.iter().enumerate() {
                *sets[w].add(MAXSET + k) = *x;
            }
        }
        o.ntrace = traces.len() as u64;
        o.nstate = states.len() as u64;
        o.done = 1;
        unsafe { _exit(0) };
    }
    for p in pids {
        unsafe { wait(p) };
    }
    let mut t = Totals {
        runs: 0,
        ticks: 0,
        nontrivial: 0,
        reruns: 0,
        mismatches: 0,
        mismatch_at: 0,
        stats: [0; St::COUNT as usize],
        traces: 0,
        states: 0,
        fail_at: None,
        wall: 0.0,
        stopped_early: false,
        hot: ctx.hot.len(),
        fingerprint: unsafe { (*finger).load(Relaxed) },
    };
    let (mut tr, mut st): (HashSet<u64>, HashSet<u64>) = Default::default();
    for (o, s) in outs.iter().zip(&sets) {
        let o = unsafe { &**o };
        if o.done != 1 {
            eprintln!("worker died");
            std::process::exit(2);
        }
        t.runs += o.runs;
        t.ticks += o.ticks;
        t.reruns += o.reruns;
        t.mismatches += o.mismatches;
        if o.mismatches > 0 {
            t.mismatch_at = o.mismatch_at;
        }
        for (a, b) in t.stats.iter_mut().zip(&o.stats) {
            *a += b;
        }
        t.stats[St::PRISTINE as usize] += o.pristine;
        if o.fail_at != u64::MAX {
            t.fail_at = Some(t.fail_at.map_or(o.fail_at, |x| x.min(o.fail_at)));
        }
        unsafe {
            for k in 0..o.ntrace {
                tr.insert(*s.add(k as usize));
            }
            for k in 0..o.nstate {
                st.insert(*s.add(MAXSET + k as usize));
            }
        }
    }
    t.nontrivial = tr.len() as u64;
    t.traces = tr.len() as u64;
    t.states = st.len() as u64;
    t.wall = t0.elapsed().as_secs_f64();
    t.stopped_early = t.fail_at.is_none() && t.runs < runs;
    t
}

/// Shrinks the plan while it still fails with the same class.
pub fn minimise(ctx: &mut Ctx, prop: &dyn Prop, plan: Plan, class: &str) -> (Plan, u64) {
    let t0 = Instant::now();
    let mut best = plan;
    let mut execs = 0u64;
    let mut test = |ctx: &mut Ctx, p: &Plan, execs: &mut u64| -> Option<bool> {
        if *execs >= 3000 || t0.elapsed().as_secs_f64() > 60.0 {
            return None;
        }
        *execs += 1;
        let r = run_plan(ctx, prop, p);
        Some(r.status == 2 && r.class == class)
    };
    loop {
        let before = best.clone();
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + chunk).min(best.len()));
                match test(ctx, &c, &mut execs) {
                    None => return (best, execs),
                    Some(true) => best = c,
                    Some(false) => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        for i in 0..best.len() {
            for j in 0..best[i].v.len() {
                let v = best[i].v[j];
                for cand in [0u128, 1, v >> 64, v >> 16, v >> 1, v.wrapping_sub(1)] {
                    if cand == v || (cand > best[i].v[j] && v < 1 << 32) {
                        continue;
                    }
                    if cand == best[i].v[j] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i].v[j] = cand;
                    match test(ctx, &c, &mut execs) {
                        None => return (best, execs),
                        Some(true) => {
                            best = c;
                            break;
                        }
                        Some(false) => {}
                    }
                }
            }
        }
        if best == before {
            return (best, execs);
        }
    }
}

pub fn verif_dir() -> String {
    std::env::var("VS_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn write_replay(ctx: &Ctx, prop: &dyn Prop, seed: u64, run: u64, plan: &Plan, res: &Res, note: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let std = if cfg!(feature = "std") { "std" } else { "default" };
    let path = format!("{dir}/{}-{std}-seed{seed}-run{run}.replay", prop.id());
    let mut s = format!("#!property {}\n#!features {std}\n#!seed {seed}\n#!run {run}\n#!class {}\n#!log {:016x}\n# {}\n# {note}\n", prop.id(), res.class, res.log, res.detail.replace('\n', " "));
    s.push_str(&to_text(plan, &|r| prop.describe(ctx, r)));
    std::fs::write(&path, s).expect("replay file");
    path
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
