#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
T="deterministic simulation with fault injection: "
N={
"C01":("seeded preemptive scheduling of caller tasks and interrupt handlers at basic blocks and static accesses of the real code",
 "Seeded search over schedules; each outcome is compared with the same call run alone in a fresh process. Assumes sequentially consistent memory and preemption at basic-block boundaries and static accesses (of an unoptimised build); operand space is sampled."),
"C02":("seeded suspension and abandonment of callers inside calls, other callers and nested handlers must complete",
 "Seeded search over suspension points; completion is judged by a step budget derived from the same call run alone. Operand space is sampled."),
"C03":("seeded histories of calls with arithmetic faults, corrupted operands and abandoned calls in one process",
 "Seeded search over histories; each outcome is compared with the same call run alone in a fresh process."),
"C04":("seeded register-machine histories with arithmetic faults, bit flips and restarts against an exact reference model",
 "Seeded search; every step is judged against exact integer arithmetic (integers, fixed point) or an f64 error bound (floats, trigonometry)."),
"C05":("an arithmetic fault injected at a chosen component operation of every in-place operator, recovery and retry",
 "Seeded search; for each update all fault points up to its number of component operations are tried in turn."),
"C06":("seeded schedules of caller tasks sharing accumulators, crashes inside updates, recovery and retry; conservation against exact sums",
 "Seeded search over schedules and crashes; exact for integers and fixed point, compensated bound for floats."),
"C07":("formatting into a simulated stream that fails, fills up, tears or recovers at chosen bytes and calls",
 "Seeded search over stream faults; the text of a faultless stream is the reference. Both feature configurations run."),
"C08":("seeded journals of rendered numbers on a simulated disk, crash tearing the last record at any byte, read back by an independent parser",
 "Seeded search over records and crash points; the parser is independent of the library. One known finding (most negative component) is listed and excluded by identity."),
"C09":("seeded oscillator histories with phase corruption, detuning and save/restore against exact phase accumulation",
 "Seeded search; f64 or exact integer reference with error bounds derived from the type's resolution and the CORDIC iteration count."),
"C10":("per-sample deadlines counted in executed basic blocks, operands corrupted between samples",
 "Seeded search over operations and operand bit patterns (every registered operation in turn); a call that exceeds the budget is a violation."),
"C11":("seeded histories of registers changing form, with drop-outs, corruption, component faults and retries against an f64 reference",
 "Seeded search; error bounds from the type's resolution, the CORDIC iteration count and the NIIR root accuracy."),
"C12":("seeded gain-control and power-detector loops through drop-outs, spikes and gain corruption, then bounded-time settling",
 "Seeded search; bounded liveness after the last fault plus per-sample safety against the true magnitude."),
"C13":("seeded phase-locked and Costas loops through drop-outs, jumps and corruption of their registers, then bounded-time lock",
 "Seeded search; bounded liveness after the last fault, symbol decisions, and per-sample safety of mixer and detector against f64."),
"C14":("seeded systems of nodes in different number types on a lossy, reordering network with torn checkpoints and crashes",
 "Seeded search; every conversion against its definition in exact integer arithmetic, exact arrival end to end, delivery within bounded steps."),
"C15":("seeded stalls, clock jumps, crashes and restores of nodes that catch up in one step, against the closed form of their law",
 "Seeded search; exact for integers, error bounds accumulated step by step for fixed point and floats."),
"C16":("seeded actuators of every real type through end stops, corrupted positions, restarts and changed commands, then bounded-time arrival",
 "Seeded search; every sign, size, predicate, limit and constant is compared exactly, and running extremes against those seen."),
"C17":("seeded resolver loops through drop-outs, overdriven readings, target jumps and register corruption, then bounded-time settling",
 "Seeded search; bounded liveness after the last fault, every angle judged by the sine or cosine it stands for and read back."),
"C18":("seeded replicated log: a live leader against followers in both feature configurations through message faults, crashes, torn snapshots and replays",
 "Seeded search; every application of every log entry is compared bit for bit. Both builds are unoptimised ones for this machine; operand space is sampled."),
}
checks=[dict(property=k,quick_cmd=f"./check {k}",thorough_cmd=f"VERIF_TIER=thorough ./check {k}",evidence_file=f"evidence/{k}.json",
  technique=T+a,level="exploration",level_note=b+" A clean run is evidence, not proof.") for k,(a,b) in N.items()]
PURE="A pure function of its operands: no schedule, clock, stream, shared state, history or fault has any part in it, so a simulation would only generate inputs under another name. "
NA={
"C20":"The special cases and last-place accuracy of single float calls. Where such a call is part of a loop or a form change, C09, C11, C12, C13 and C15 judge it.",
"C21":"Error bounds of the polynomial approximations per operand. The polynomial sine and cosine of an oscillator are judged by C09, the polynomial arctangents as phase detectors by C13.",
"C22":"Error bound of one root per operand. The root inside magnitude measurement and power detection is judged by C11 and C12.",
"C23":"Casts between number types as single calls. Conversions inside messages and checkpoints are judged by C14.",
"C24":"Sign, absolute value and limits per operand. As what steers an actuator they are judged by C16, the sign as a phase detector and symbol decision by C13, saturation to the limit by C04 and C11.",
"C25":"Error bounds of single CORDIC calls per operand. Sine, cosine and arctangent inside an oscillator, form change or loop are judged by C09, C11 and C13, arcsine and arccosine inside a loop by C17, the exponential as a law of motion by C15.",
"C26":"Powers per base and exponent. C10 judges that they finish, C11 the complex power in histories, C15 powers that make up for missed time.",
"C27":"Constants; there is no input even. What a restart loads is judged by C16.",
}
m=dict(version=1,setup_cmd="./setup",
 hooks=dict(guard="none",enable="No hook in /repo was needed: the seams are the type parameters, operator traits, fmt::Write sinks and compiler instrumentation (see build_env.sh). The checks build /repo's crate unmodified as a path dependency of sim/.",source_commits=[]),
 checks=checks,not_applicable=[dict(property=k,reason=PURE+v) for k,v in NA.items()],
 notes="Every command honours VERIF_SEED (default 1) and VERIF_TIER (quick or thorough). ./replay FILE re-executes a replay file exactly. target/ and replays/ are build output and reports, ignored by git.")
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False); open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
