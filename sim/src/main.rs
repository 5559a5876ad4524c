mod acc;
mod agc;
mod catchup;
mod deadline;
mod elem;
mod fmtsim;
mod nco;
mod point;
mod polar;
mod replica;
mod hand;
mod harness;
mod iso;
mod ops;
mod rng;
mod rt;
mod servo;
mod shared;
mod simnum;
mod track;
#[cfg(not(feature = "stand_in"))]
mod simnum_impl;

use harness::*;
use std::fmt::Write as _;

fn props() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(iso::Iso(iso::Which::Preempt)),
        Box::new(iso::Iso(iso::Which::Suspend)),
        Box::new(iso::Iso(iso::Which::History)),
        Box::new(acc::Registers),
        Box::new(acc::Cut),
        Box::new(shared::Shared),
        Box::new(fmtsim::Stream),
        Box::new(fmtsim::Journal),
        Box::new(nco::Nco),
        Box::new(deadline::Deadline),
        Box::new(polar::Forms),
        Box::new(agc::Gain),
        Box::new(track::Track),
        Box::new(hand::Hand),
        Box::new(catchup::Catchup),
        Box::new(servo::Actuator),
        Box::new(point::Point),
        Box::new(replica::Replicas),
    ]
}
fn prop(id: &str) -> Box<dyn Prop> {
    match props().into_iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2);
        }
    }
}
fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.parse().ok())
}
fn workers() -> usize {
    env_u64("VS_WORKERS").map(|x| x as usize).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16))
}

/// Exit status: 0 held, 1 violation (confirmed by replaying the file), 2 harness error.
fn check(id: &str, part: Option<&str>) -> i32 {
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed = env_u64("VERIF_SEED").unwrap_or(1);
    let p = prop(id);
    let p = &*p;
    let mut ctx = Ctx::new(thorough, seed);
    let (q, t) = p.runs();
    let mut runs = env_u64("VS_RUNS").unwrap_or(if thorough { t } else { q });
    // The other feature configuration runs other plans, and where formatting is not involved, fewer.
    let mut from = 0u64;
    if part.is_some() {
        from = runs;
        runs += runs / if p.std_matters() { 2 } else { 5 };
    }
    let first = from;
    let limit = env_u64("VS_LIMIT").unwrap_or(if !thorough { 150 } else if part.is_some() { 170 } else if std::env::var_os("VS_ALSO").is_some() { 400 } else { 560 }) as f64;
    let std_b = cfg!(feature = "std");
    let mut samples = vec![];
    for i in 0..3 {
        let plan = gen_plan(&mut ctx, p, i);
        let mut t = to_text(&plan, &|r| p.describe(&ctx, r));
        if t.len() > 1500 {
            let mut n = 1500;
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t.truncate(n);
            t.push_str("...");
        }
        samples.push(t);
    }
    ctx.pristine_calls = 0;
    // Known findings: the listed inputs, and whether they still fail.
    let mut known_lines = vec![];
    let mut exit = 0;
    if part.is_none() {
        for (kid, plan, class) in p.known() {
            let Some(text) = ctx.known_text(id, kid) else { continue };
            let res = run_plan(&mut ctx, p, &plan);
            if res.status == 2 && res.class == class {
                println!("KNOWN-FINDING: property={id} {text}");
                known_lines.push(format!("{text}: still fails ({})", res.detail));
            } else if res.status == 1 {
                known_lines.push(format!("{text}: no longer fails"));
            } else {
                let path = write_replay(&ctx, p, seed, 0, &plan, &res, "the plan of a known finding fails in another way");
                println!("VIOLATION property={id} replay={path}");
                println!("  {}: {}", res.class, res.detail);
                exit = 1;
            }
        }
    }
    let mut tot: Option<Totals> = None;
    let mut unconfirmed = vec![];
    let mut errors = 0;
    let t0 = std::time::Instant::now();
    while exit == 0 && from < runs && unconfirmed.len() < 3 {
        let t = explore(&mut ctx, p, from, runs - from, workers(), limit - t0.elapsed().as_secs_f64(), 97);
        let fail_at = t.fail_at;
        tot = Some(match tot {
            None => t,
            Some(mut a) => {
                a.runs += t.runs;
                a.ticks += t.ticks;
                a.nontrivial += t.nontrivial;
                a.reruns += t.reruns;
                a.mismatches += t.mismatches;
                a.traces += t.traces;
                a.states += t.states;
                a.wall += t.wall;
                a.stopped_early |= t.stopped_early;
                a.fail_at = t.fail_at;
                for (x, y) in a.stats.iter_mut().zip(&t.stats) {
                    *x += y;
                }
                a
            }
        });
        let Some(i) = fail_at else { break };
        let plan = gen_plan(&mut ctx, p, i);
        let res = run_plan(&mut ctx, p, &plan);
        if res.status == 3 {
            // Some other run may still show what is wrong.
            eprintln!("harness error in run {i}: {}", res.detail);
            errors += 1;
            from = i + 1;
            if errors < 20 {
                continue;
            }
            return 2;
        }
        let mut confirmed = None;
        if res.status == 2 {
            let (small, execs) = minimise(&mut ctx, p, plan.clone(), &res.class);
            for (cand, note) in [(small, format!("minimised from {} to {{}} lines in {execs} executions", plan.len())), (plan, "not minimised".to_string())] {
                let r = run_plan(&mut ctx, p, &cand);
                let path = write_replay(&ctx, p, seed, i, &cand, &r, &note.replace("{}", &cand.len().to_string()));
                let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path, "quiet"]).status();
                if st.map_or(false, |s| s.code() == Some(1)) {
                    confirmed = Some((path, r));
                    break;
                }
            }
        }
        match confirmed {
            Some((path, r)) => {
                println!("VIOLATION property={id} replay={path}");
                println!("  run {i} of seed {seed}: {}: {}", r.class, r.detail);
                exit = 1;
            }
            None => {
                eprintln!("run {i} failed once ({}: {}) but its replay did not: not reported", res.class, res.detail);
                unconfirmed.push(i);
                from = i + 1;
            }
        }
    }
    if exit == 0 && errors > 0 {
        return 2;
    }
    let Some(t) = tot else { return exit };
    if exit == 0 && !unconfirmed.is_empty() {
        eprintln!("{} runs failed without reproducing: the execution is not deterministic", unconfirmed.len());
    }
    let mut faults = String::new();
    for (n, v) in STAT_NAMES.iter().zip(&t.stats) {
        if *v > 0 {
            if !faults.is_empty() {
                faults.push_str(", ");
            }
            let _ = write!(faults, "{}: {}", esc(n), v);
        }
    }
    let per_h = if t.wall > 0.0 { (t.runs as f64 / t.wall * 3600.0) as u64 } else { 0 };
    let mut c = String::new();
    let _ = write!(c, "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, ", t.runs, t.nontrivial, esc(p.rule()));
    let _ = write!(c, "\"samples\": [{}], ", samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(c, "\"feature_configuration\": \"{}\", \"seed\": {seed}, \"runs_planned\": {}, \"stopped_by_time_limit\": {}, ", if std_b { "std" } else { "default (no_std)" }, runs - first, t.stopped_early);
    let _ = write!(c, "\"simulated_runs_per_hour\": {per_h}, \"seeds_per_hour\": {per_h}, \"simulated_time_steps\": {}, \"simulated_time_unit\": \"executed basic blocks of library code\", ", t.ticks);
    let _ = write!(c, "\"injected_and_observed\": {{{faults}}}, \"distinct_plan_and_interleaving\": {}, \"distinct_states_or_outcomes\": {}, ", t.traces, t.states);
    let _ = write!(c, "\"state_measure\": \"number of distinct hashes of (operation, outcome) or of the simulated state after a step, at most 256 taken per run\", ");
    let _ = write!(c, "\"determinism\": {{\"runs_executed_twice\": {}, \"differing\": {}, \"fingerprint_of_all_runs\": \"{:016x}\"}}, ", t.reruns, t.mismatches, t.fingerprint);
    let _ = write!(c, "\"operations_touching_writable_statics\": {}, \"registered_operations\": {}, ", t.hot, ctx.ops.len());
    let _ = write!(c, "\"real_code\": {}, \"stubs\": {}, ", esc(p.real()), esc(p.stub()));
    let _ = write!(c, "\"known_findings\": [{}], \"failures_not_reproduced\": {}", known_lines.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), unconfirmed.len());
    if let Some(path) = part {
        std::fs::write(path, format!("{{{c}}}")).expect("part file");
        return exit;
    }
    // The other feature configuration, when the wrapper asks for it.
    let mut extra = String::new();
    if let Ok(bin) = std::env::var("VS_ALSO") {
        if exit == 0 {
            let pf = format!("{}.part", std::env::var("VS_EVIDENCE").unwrap_or_else(|_| "/tmp/vs_evidence".into()));
            let _ = std::fs::remove_file(&pf);
            let st = std::process::Command::new(&bin).args(["part", id, &pf]).status().ok().and_then(|s| s.code()).unwrap_or(2);
            if let Ok(s) = std::fs::read_to_string(&pf) {
                extra = format!(", \"std_feature_run\": {s}");
            }
            let _ = std::fs::remove_file(&pf);
            if st != 0 {
                exit = st;
            }
        }
    }
    if t.mismatches > 0 {
        eprintln!("warning: {} of {} repeated runs differed (e.g. run {})", t.mismatches, t.reruns, t.mismatch_at);
    }
    let ev = format!(
        "{{\"property\": \"{id}\", \"tier\": \"{}\", \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{{c}{extra}}}, \"assumptions\": [\"callers interact only through the library and the objects the plan lets them share\", \"a preemption takes effect at a basic-block boundary or before a load or store of static storage of the unoptimised build\"], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        if thorough { "thorough" } else { "quick" },
        t0.elapsed().as_secs_f64(),
        exit
    );
    if let Ok(f) = std::env::var("VS_EVIDENCE") {
        if let Err(e) = std::fs::write(&f, ev) {
            eprintln!("{f}: {e}");
            return 2;
        }
    }
    if exit == 0 {
        println!("{id}: held in {} runs ({} distinct non-trivial), {} simulated steps, {:.1} s", t.runs, t.nontrivial, t.ticks, t.wall);
    }
    exit
}

fn replay(path: &str, quiet: bool) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let meta = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("#!{k} "))).unwrap_or("").to_string();
    let p = prop(&meta("property"));
    let mut ctx = Ctx::new(false, 1);
    let plan = from_text(&t);
    let res = run_plan(&mut ctx, &*p, &plan);
    let same = res.class == meta("class") && format!("{:016x}", res.log) == meta("log");
    if !quiet {
        println!("{}", to_text(&plan, &|r| p.describe(&ctx, r)));
        match res.status {
            1 => println!("the property held"),
            2 => {
                println!("VIOLATION property={} replay={path}", p.id());
                println!("  {}: {}", res.class, res.detail);
                println!("  {}", if same { "exactly as recorded (same violation, same log of everything observed)" } else { "not as recorded" });
            }
            _ => println!("harness error: {}", res.detail),
        }
    }
    match res.status {
        1 => 0,
        2 if !quiet || same => 1,
        2 => 3,
        _ => 2,
    }
}

/// The same seeds twice, with different numbers of workers, must give the same fingerprint of everything observed.
fn selftest() -> i32 {
    let mut bad = 0;
    for p in props() {
        let runs = env_u64("VS_RUNS").unwrap_or(2000);
        let mut f = vec![];
        for (seed, w) in [(1, 8), (1, 3), (1, 1), (2, 8), (2, 5)] {
            let mut ctx = Ctx::new(false, seed);
            let t = explore(&mut ctx, &*p, 0, runs, w, 1e9, 0);
            f.push((seed, w, t.fingerprint, t.fail_at));
        }
        let ok = f[0].2 == f[1].2 && f[0].2 == f[2].2 && f[3].2 == f[4].2 && f[0].2 != f[3].2;
        println!("{} {} {:x?}", p.id(), if ok { "deterministic" } else { "DIFFERS" }, f);
        bad |= !ok as i32;
    }
    bad
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    setup();
    std::process::exit(match s(1) {
        "check" => check(s(2), None),
        "part" => check(s(2), Some(s(3))),
        "replay" => replay(s(2), s(3) == "quiet"),
        "node" => replica::node(&Ctx::new(false, 1)),
        "selftest" => selftest(),
        "ticks" => {
            // Development: the longest calls.
            let ctx = Ctx::new(false, 1);
            let mut v = vec![];
            for (i, o) in ctx.ops.iter().enumerate() {
                let mut r = rng::Rng::new(env_u64("VERIF_SEED").unwrap_or(1), "ticks", i as u64);
                let mut m = (0, String::new());
                rt::run(rt::Setup::plain(), vec![Box::new(|| {
                    for k in 0..300 {
                        let a = o.gen(&mut r, if k % 4 == 0 { elem::Style::Tame } else { elem::Style::Wild });
                        let x = call_op(o, &a, 30_000_000);
                        if x.ticks > m.0 {
                            m = (x.ticks, o.show(&a));
                        }
                    }
                })]);
                v.push(m);
            }
            v.sort();
            for m in v.iter().rev().take(40) {
                println!("{} {}", m.0, m.1);
            }
            for q in [50, 90, 99] {
                println!("{q}%: {}", v[v.len() * q / 100].0);
            }
            0
        }
        "audit" => {
            // Development: operations that panic for (nearly) every ordinary operand.
            let ctx = Ctx::new(false, 1);
            for (i, o) in ctx.ops.iter().enumerate() {
                let mut r = rng::Rng::new(1, "audit", i as u64);
                let (mut n, mut bad) = (0, 0);
                rt::run(rt::Setup::plain(), vec![Box::new(|| {
                    for _ in 0..200 {
                        n += 1;
                        bad += (call_op(o, &o.gen(&mut r, elem::Style::Tame), 30_000_000).kind == Kind::Panic) as u32;
                    }
                })]);
                if bad * 2 > n {
                    println!("{bad}/{n} {}::{}", o.ty, o.name);
                }
            }
            0
        }
        "digest" => {
            // Development: one fingerprint of many outcomes per operation, to compare builds of the library.
            let ctx = Ctx::new(false, 1);
            for (i, o) in ctx.ops.iter().enumerate() {
                let mut r = rng::Rng::new(env_u64("VERIF_SEED").unwrap_or(1), "digest", i as u64);
                let mut h = 0u64;
                rt::run(rt::Setup::plain(), vec![Box::new(|| {
                    for k in 0..300 {
                        let x = call_op(o, &o.gen(&mut r, if k % 4 == 0 { elem::Style::Wild } else { elem::Style::Tame }), 3_000_000);
                        h = h.rotate_left(5).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ x.hash();
                    }
                })]);
                println!("{}::{} {h:x}", o.ty, o.name);
            }
            0
        }
        "mutate" => {
            // Soundness of minimised replays: plans changed the way the minimiser changes them must hold as well.
            let p = prop(s(2));
            let seed = env_u64("VERIF_SEED").unwrap_or(1);
            let runs = env_u64("VS_RUNS").unwrap_or(2000);
            let mut ctx = Ctx::new(false, seed);
            let mut bad = 0;
            for i in 0..runs {
                let mut plan = gen_plan(&mut ctx, &*p, i);
                let mut r = rng::Rng::new(seed, "mutate", i);
                for _ in 0..r.range(1, 12) {
                    if plan.is_empty() {
                        break;
                    }
                    let k = r.below(plan.len() as u64) as usize;
                    if plan[k].v.is_empty() || r.chance(1, 5) {
                        plan.remove(k);
                        continue;
                    }
                    let j = r.below(plan[k].v.len() as u64) as usize;
                    let v = plan[k].v[j];
                    plan[k].v[j] = match r.below(7) {
                        0 => 0,
                        1 => 1,
                        2 => v >> 64,
                        3 => v >> 16,
                        4 => v >> 1,
                        5 => v.wrapping_sub(1),
                        _ => v ^ (1u128 << r.below(64)),
                    };
                }
                let res = run_plan(&mut ctx, &*p, &plan);
                if res.status != 1 {
                    bad += 1;
                    if bad <= 3 {
                        println!("{}", to_text(&plan, &|r| p.describe(&ctx, r)));
                    }
                    println!("mutated run {i}: status {} {} {}", res.status, res.class, res.detail);
                }
            }
            println!("{}: {bad} of {runs} mutated plans failed", s(2));
            (bad > 0) as i32
        }
        "show" => {
            let p = prop(s(2));
            let mut ctx = Ctx::new(false, env_u64("VERIF_SEED").unwrap_or(1));
            let plan = gen_plan(&mut ctx, &*p, s(3).parse().unwrap_or(0));
            println!("{}", to_text(&plan, &|r| p.describe(&ctx, r)));
            let res = run_plan(&mut ctx, &*p, &plan);
            println!("status {} {} {}", res.status, res.class, res.detail);
            0
        }
        _ => {
            eprintln!("usage: sim check ID | replay FILE | selftest | show ID RUN");
            2
        }
    })
}
