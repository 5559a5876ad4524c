//! The scheduler: simulated caller tasks, interrupt handlers and the simulated clock.
//!
//! Tasks are OS threads parked on semaphores, of which exactly one (the holder of the token) runs. A task inside a
//! library call enters the scheduler at the basic block or static-storage access the plan names (`Event`); outside
//! library calls it enters it at `lock`, `unlock` and `yield_point`. What happens then is a function of the plan alone.

use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    static mut vs_tick: u64;
    static mut vs_next: u64;
    static mut vs_acc: u64;
    static mut vs_next_acc: u64;
    static mut vs_total: u64;
    fn vs_arm(on: i32);
    fn vs_armed() -> i32;
    fn vs_sem_new() -> *mut u8;
    fn vs_sem_post(s: *mut u8);
    fn vs_sem_wait(s: *mut u8);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Trig {
    Tick(u64),
    Acc(u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    /// Preempt the task and run another one.
    Switch(u8),
    /// Suspend the task until every other task is done (or for ever).
    Stall,
    /// Run handler number n on top of the interrupted call.
    Isr(u16),
}

/// In call number `call` of task `task`, when `trig` is reached, do `act`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Event {
    pub task: u8,
    pub call: u16,
    pub trig: Trig,
    pub act: Act,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Run,
    Blocked(u8),
    Stalled,
    Done,
}

#[derive(Clone)]
struct Task {
    sem: usize,
    status: Status,
    call: u16,
    saved: [u64; 4],
    budget: u64,
    rescues: u32,
}

pub struct Rt {
    tasks: Vec<Task>,
    cur: usize,
    events: Vec<(Event, bool)>,
    isr: Option<fn(u16)>,
    nested: bool,
    resume_stalled: bool,
    locks: Vec<Option<usize>>,
    choices: Vec<u8>,
    choice_pos: usize,
    main_sem: usize,
    pub trace: u64,
    pub switches: u64,
    pub stalls: u64,
    pub isrs: u64,
    pub lock_waits: u64,
    pub rescues: u64,
    on_hang: Option<fn(&str) -> !>,
}

static mut RT: *mut Rt = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe {
        if RT.is_null() {
            RT = Box::into_raw(Box::new(Rt {
                tasks: vec![],
                cur: 0,
                events: vec![],
                isr: None,
                nested: false,
                resume_stalled: true,
                locks: vec![],
                choices: vec![],
                choice_pos: 0,
                main_sem: 0,
                trace: 0,
                switches: 0,
                stalls: 0,
                isrs: 0,
                lock_waits: 0,
                rescues: 0,
                on_hang: None,
            }));
        }
        &mut *RT
    }
}

/// Called once per process: panics are outcomes here, not messages, and disarm the task.
pub fn init() {
    std::panic::set_hook(Box::new(|i| unsafe {
        vs_arm(0);
        if let Some(l) = i.location() {
            LAST_PANIC = (l.file().as_ptr(), l.file().len(), l.line());
        }
    }));
    rt();
}

static mut LAST_PANIC: (*const u8, usize, u32) = (core::ptr::null(), 0, 0);
/// Where the latest panic came from.
pub fn last_panic() -> String {
    unsafe {
        if LAST_PANIC.0.is_null() {
            return "?".into();
        }
        format!("{}:{}", String::from_utf8_lossy(core::slice::from_raw_parts(LAST_PANIC.0, LAST_PANIC.1)), LAST_PANIC.2)
    }
}

pub fn total_ticks() -> u64 {
    unsafe { vs_total }
}

fn counters() -> [u64; 4] {
    unsafe { [vs_tick, vs_next, vs_acc, vs_next_acc] }
}
fn set_counters(c: [u64; 4]) {
    unsafe {
        vs_tick = c[0];
        vs_next = c[1];
        vs_acc = c[2];
        vs_next_acc = c[3];
    }
}

impl Rt {
    fn note(&mut self, a: u64, b: u64) {
        self.trace = crate::rng::mix(self.trace ^ crate::rng::mix(a.wrapping_mul(31).wrapping_add(b)));
    }

    fn recompute(&mut self) {
        let t = self.cur;
        let call = self.tasks[t].call;
        let mut nt = self.tasks[t].budget;
        let mut na = u64::MAX;
        if !self.nested {
            for (e, fired) in &self.events {
                if !*fired && e.task as usize == t && e.call == call {
                    match e.trig {
                        Trig::Tick(n) => nt = nt.min(n),
                        Trig::Acc(n) => na = na.min(n),
                    }
                }
            }
        }
        unsafe {
            vs_next = nt;
            vs_next_acc = na;
        }
    }

    fn runnable(&self, i: usize) -> bool {
        self.tasks[i].status == Status::Run
    }

    /// Hands the token to task `to` and waits for it to come back.
    fn switch_to(&mut self, to: usize) {
        let me = self.cur;
        if to == me {
            return;
        }
        self.tasks[me].saved = counters();
        self.switches += 1;
        self.note(to as u64 + 1, self.tasks[to].call as u64);
        self.cur = to;
        let (mine, theirs) = (self.tasks[me].sem, self.tasks[to].sem);
        unsafe {
            vs_sem_post(theirs as *mut u8);
            vs_sem_wait(mine as *mut u8);
        }
        // Token is back (self.cur == me).
        set_counters(self.tasks[me].saved);
    }

    fn next_runnable_after(&self, from: usize) -> Option<usize> {
        let n = self.tasks.len();
        (1..=n).map(|d| (from + d) % n).find(|i| *i != from && self.runnable(*i))
    }

    fn hang(&mut self, what: &str) -> ! {
        match self.on_hang {
            Some(f) => f(what),
            None => std::process::abort(),
        }
    }
}

#[no_mangle]
pub extern "C" fn vs_slow(kind: i32, pc: u64) {
    let r = rt();
    if std::thread::panicking() {
        unsafe {
            vs_next = u64::MAX;
            vs_next_acc = u64::MAX;
        }
        return;
    }
    let me = r.cur;
    // (tasks always has an entry for the running task)
    let (tick, acc) = unsafe { (vs_tick, vs_acc) };
    if kind == 0 && tick >= r.tasks[me].budget {
        // Out of its step budget. Give the other tasks a turn first, in case it waits for one of them.
        if !r.nested && r.tasks[me].rescues < 3 {
            if let Some(t) = r.next_runnable_after(me) {
                r.tasks[me].rescues += 1;
                r.rescues += 1;
                r.tasks[me].budget += r.tasks[me].budget.min(200_000);
                r.recompute();
                r.switch_to(t);
                return;
            }
        }
        let nested = r.nested;
        let call = r.tasks[me].call;
        r.hang(&format!("task {me} call {call}{}: no result after {tick} steps", if nested { " (in handler)" } else { "" }));
    }
    if r.nested {
        r.recompute();
        return;
    }
    let call = r.tasks[me].call;
    let mut fire = vec![];
    for (e, fired) in r.events.iter_mut() {
        if !*fired && e.task as usize == me && e.call == call {
            let hit = match e.trig {
                Trig::Tick(n) => kind == 0 && n <= tick,
                Trig::Acc(n) => kind == 1 && n <= acc,
            };
            if hit {
                *fired = true;
                fire.push(e.act);
            }
        }
    }
    r.recompute();
    for a in fire {
        r.note(pc, call as u64);
        match a {
            Act::Switch(t) => {
                let t = t as usize % r.tasks.len();
                let t = if t != me && r.runnable(t) { Some(t) } else { r.next_runnable_after(me) };
                if let Some(t) = t {
                    r.switch_to(t);
                }
            }
            Act::Stall => {
                if let Some(t) = r.next_runnable_after(me) {
                    r.tasks[me].status = Status::Stalled;
                    r.stalls += 1;
                    r.switch_to(t);
                }
            }
            Act::Isr(i) => {
                if let Some(f) = r.isr {
                    r.isrs += 1;
                    let saved = counters();
                    let budget = r.tasks[me].budget;
                    r.nested = true;
                    r.note(0xfeed, i as u64);
                    f(i);
                    unsafe { vs_arm(0) };
                    r.nested = false;
                    r.tasks[me].budget = budget;
                    set_counters(saved);
                }
            }
        }
    }
}

/// Runs `f` (library code) as one call of the current task: its steps are ticks, events may fire inside.
/// Err means it panicked. Also returns the ticks and static accesses it took.
pub fn call<R>(budget: u64, f: impl FnOnce() -> R) -> (Result<R, Box<dyn std::any::Any + Send>>, u64, u64) {
    let r = rt();
    let me = r.cur;
    set_counters([0, u64::MAX, 0, u64::MAX]);
    r.tasks[me].budget = budget;
    r.recompute();
    let res = catch_unwind(AssertUnwindSafe(|| {
        unsafe { vs_arm(1) };
        let v = f();
        unsafe { vs_arm(0) };
        v
    }));
    unsafe { vs_arm(0) };
    let c = counters();
    let r = rt();
    if !r.nested {
        r.tasks[me].call = r.tasks[me].call.saturating_add(1);
        r.tasks[me].rescues = 0;
    }
    (res, c[0], c[2])
}

/// Suspends counting inside a call (used by user-defined component types for their own code).
pub fn unarmed<R>(f: impl FnOnce() -> R) -> R {
    let was = unsafe { vs_armed() };
    unsafe { vs_arm(0) };
    let v = f();
    unsafe { vs_arm(was) };
    v
}

fn choose(r: &mut Rt) -> usize {
    let me = r.cur;
    let cand: Vec<usize> = (0..r.tasks.len()).filter(|i| r.runnable(*i)).collect();
    if cand.is_empty() {
        return me;
    }
    let b = if r.choice_pos < r.choices.len() { r.choices[r.choice_pos] } else { 0 };
    r.choice_pos += 1;
    cand[b as usize % cand.len()]
}

/// A scheduling point of a task outside library code: the plan's next choice decides who runs.
pub fn yield_point() {
    let r = rt();
    let t = choose(r);
    if t != r.cur && r.runnable(t) {
        r.switch_to(t);
    }
}

pub fn lock(id: u8) {
    yield_point();
    let r = rt();
    loop {
        if r.locks[id as usize].is_none() {
            r.locks[id as usize] = Some(r.cur);
            return;
        }
        let me = r.cur;
        r.tasks[me].status = Status::Blocked(id);
        r.lock_waits += 1;
        match r.next_runnable_after(me) {
            Some(_) => {
                let t = choose(r);
                r.switch_to(t);
            }
            None => r.hang("deadlock of the harness lock"),
        }
    }
}

pub fn unlock(id: u8) {
    let r = rt();
    r.locks[id as usize] = None;
    for t in r.tasks.iter_mut() {
        if t.status == Status::Blocked(id) {
            t.status = Status::Run;
        }
    }
    yield_point();
}

impl Setup {
    pub fn plain() -> Setup {
        Setup { events: vec![], choices: vec![], isr: None, nlocks: 0, resume_stalled: true, on_hang: crate::harness::hang_violation }
    }
}
pub struct Setup {
    pub events: Vec<Event>,
    pub choices: Vec<u8>,
    pub isr: Option<fn(u16)>,
    pub nlocks: usize,
    pub resume_stalled: bool,
    pub on_hang: fn(&str) -> !,
}

fn new_task() -> Task {
    Task { sem: unsafe { vs_sem_new() } as usize, status: Status::Run, call: 0, saved: [0, u64::MAX, 0, u64::MAX], budget: u64::MAX, rescues: 0 }
}

/// Runs the tasks to completion under the plan. With one task, it runs on the calling thread.
pub fn run(setup: Setup, mut bodies: Vec<Box<dyn FnOnce() + '_>>) {
    let r = rt();
    r.tasks = bodies.iter().map(|_| new_task()).collect();
    r.cur = 0;
    r.events = setup.events.into_iter().map(|e| (e, false)).collect();
    r.choices = setup.choices;
    r.choice_pos = 0;
    r.isr = setup.isr;
    r.nested = false;
    r.resume_stalled = setup.resume_stalled;
    r.locks = vec![None; setup.nlocks];
    r.on_hang = Some(setup.on_hang);
    if bodies.len() == 1 {
        (bodies.pop().unwrap())();
        return;
    }
    r.main_sem = unsafe { vs_sem_new() } as usize;
    struct Body(Box<dyn FnOnce()>);
    // Only one thread at a time runs, and `run` returns after the last one is done or parked for ever.
    unsafe impl Send for Body {}
    for (i, b) in bodies.into_iter().enumerate() {
        let sem = r.tasks[i].sem;
        let b = Body(unsafe { std::mem::transmute::<Box<dyn FnOnce() + '_>, Box<dyn FnOnce()>>(b) });
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                unsafe { vs_sem_wait(sem as *mut u8) };
                set_counters([0, u64::MAX, 0, u64::MAX]);
                let b = b;
                if let Err(e) = catch_unwind(AssertUnwindSafe(b.0)) {
                    crate::harness::harness_error(&format!("task panicked: {} at {}", crate::harness::payload(&e), last_panic()));
                }
                let r = rt();
                let me = r.cur;
                r.tasks[me].status = Status::Done;
                r.note(0xd0e, me as u64);
                let mut next = r.next_runnable_after(me);
                if next.is_none() && r.resume_stalled {
                    if let Some(i) = (0..r.tasks.len()).find(|i| r.tasks[*i].status == Status::Stalled) {
                        r.tasks[i].status = Status::Run;
                        next = Some(i);
                    }
                }
                match next {
                    Some(n) => {
                        r.cur = n;
                        unsafe { vs_sem_post(r.tasks[n].sem as *mut u8) };
                    }
                    None => {
                        if r.tasks.iter().any(|t| matches!(t.status, Status::Blocked(_))) {
                            r.hang("tasks left blocked on the harness lock");
                        }
                        unsafe { vs_sem_post(r.main_sem as *mut u8) }
                    }
                }
            })
            .expect("spawn");
    }
    unsafe {
        vs_sem_post(r.tasks[0].sem as *mut u8);
        vs_sem_wait(r.main_sem as *mut u8);
    }
}
