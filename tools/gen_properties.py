#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=' '.join(statement.split()),
      quantifier=dict(over=over,text=' '.join(qtext.split())),
      why_tests_cant=' '.join(why.split()),
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
SRC=["src/trigonometry.rs","src/trigonometry/atan.rs","src/trigonometry/sqrt.rs","src/complex/ops.rs","src/complex/cartesian_impl.rs","src/complex/polar_impl.rs","src/fixed_impl.rs","src/int_impl.rs","src/float_impl.rs","src/float_impl/f32_impl.rs","src/float_impl/f64_impl.rs"]

p("C01","Calls are isolated from concurrent threads and interrupt handlers","""
Every library operation, on every supported number type, returns the outcome (result bits, rendered text or arithmetic panic) that the same call
returns when it is run alone, whatever other threads or interrupt handlers do inside the library while it is in progress and at whatever
instant they preempt it. No call observes or disturbs the operands, intermediate values or results of another call.""",
 ["schedules","inputs"],"all interleavings of any set of callers (threads, and handlers that nest on top of the interrupted call), preempted at any instruction, over all operations, types and operands",
 "The tests call each function from one thread, one call at a time; no test preempts a call, so no test can see state shared between two calls in progress.",
 SRC,[("operations are functions of their arguments, with no static or thread-local state","src/**"),("lookup table for beta is a local array","src/trigonometry/sqrt.rs: niirf"),("elementary functions delegate to the stateless libm and cordic crates","src/float_impl/*.rs, src/fixed_impl.rs")],
 observe=["outcome of each public call"])
p("C02","A suspended or abandoned call never blocks another caller","""
Every operation completes, with its correct outcome and within a bounded number of its own steps, even when other callers have been suspended indefinitely or abandoned
in the middle of any library operation, including when the suspended caller is the very call that an interrupt handler has interrupted.
A suspended call that is resumed later completes with its own correct outcome.""",
 ["schedules","crash_points"],"every point of every operation at which a caller can be suspended or abandoned, and every operation started afterwards by another thread or by a handler on top of it",
 "The tests never suspend a call, so waiting (a lock, a spin, a busy flag) on a caller that does not run cannot show.",
 SRC,[("no locks, spins, busy flags or once-initialisation anywhere in the crate","src/**")],observe=["completion and outcome of each public call"])
p("C03","No residue: earlier calls, faults and panics never change later calls","""
The outcome of an operation does not depend on which operations the process ran before it, in what order or how often, including ones that
panicked on an arithmetic fault part way through, worked on corrupted operands (NaN, infinite or extreme values), or were abandoned.
After any such history every operation returns what it returns as the first call of a fresh process.""",
 ["histories","fault_sequences"],"all histories of calls in one process, with arithmetic faults raised at any component operation, corrupted operands and abandoned calls anywhere in the history",
 "Each doc-test is its own process and makes one or two calls, none of which faults; the tests never repeat a call after a different or failed one.",
 SRC,[("operations keep nothing between calls","src/**"),("a panic raised by a component operation unwinds through code that owns only locals","src/trigonometry/*.rs, src/complex/*.rs")],observe=["outcome of each public call of the history"])
p("C04","Every step of a complex-register history is the reference operation","""
In any history of +, -, *, / and +=, -=, *=, /= on Cartesian registers, whose right-hand side is a Cartesian, a num::Complex, a Polar or a real number of any supported type, owned or borrowed, each completed
step leaves in the target the mathematically defined complex result (exact for integers and for sums of fixed point, within rounding of the component type otherwise); the in-place and binary form agree, a real right-hand side acts on both parts for * and / and on the
real part for + and -, and division by a real zero saturates both parts to the type's maximum. A step may fail with an arithmetic panic only when some value its formula needs does not fit the component type (or the divisor is zero), and a failed step, a corrupted register or a restart never changes what later steps do.""",
 ["histories","fault_sequences","inputs"],"all sequences of register operations over all right-hand-side kinds and component types, with arithmetic faults, bit flips in stored registers and restarts at any step",
 "The doc-tests apply single operators to two or three small constants; += and -= with a complex right-hand side, complex division, and every borrowed or num::Complex form have no test at all.",
 ["src/complex/cartesian_impl.rs","src/complex/ops.rs"],[("operator macros for owned and borrowed right-hand sides","src/complex/cartesian_impl.rs"),("free functions add, sub, mul_cartesian, div_cartesian, div_scalar_cartesian","src/complex/ops.rs")],
 state=[("re, im","the two components of a register, mutated in place","src/complex.rs")],observe=["register contents after each step"])
p("C05","An interrupted in-place update leaves each component old or new","""
When an arithmetic fault cuts an in-place complex update (+=, -=, *=, /= with any right-hand side) short at any point, each component of the target still holds either the value it had before the update
or the value the completed update gives it, never an intermediate value; the right-hand operand is unchanged. Restoring the target and repeating the update after the fault has gone gives the result of an uninterrupted update.""",
 ["crash_points","fault_sequences"],"every component operation of every in-place operator as the point of the fault, for user-defined, integer and fixed-point component types",
 "No test makes an in-place operator fail, so no test sees the state it leaves behind.",
 ["src/complex/cartesian_impl.rs"],[("in-place operators compute a component fully before storing it, and read copies of the old components","src/complex/cartesian_impl.rs")],
 state=[("re, im","target of the in-place operator; survives the unwinding","src/complex.rs")],observe=["target and right-hand operand after the caught panic"])
p("C06","A shared accumulator conserves every contribution under any schedule","""
When any number of callers add and subtract contributions (complex or real, owned, borrowed or num::Complex) into shared Cartesian accumulators one update at a time, in any order the scheduler produces and with failed updates undone and retried,
the final value is the sum of exactly the committed contributions in both components, the same for every schedule and for every way of splitting the work into partial accumulators, exactly so for integer and fixed-point components.""",
 ["schedules","fault_sequences"],"all schedules of caller tasks, lock hand-overs, task crashes inside an update followed by recovery, and all splits into partial sums",
 "No test accumulates more than one addition, and none runs the same contributions in two orders.",
 ["src/complex/cartesian_impl.rs","src/complex/ops.rs"],[("Add/AddAssign/Sub/SubAssign act on each component alone","src/complex/cartesian_impl.rs: impl_core_ops_add_sub_for_cartesian")],
 state=[("accumulator","Cartesian behind the caller's lock","user code; src/complex.rs")],observe=["accumulator after each commit and at the end"])
p("C07","Formatting is faithful to a stream that fails","""
Formatting a Cartesian or Polar number (Display, and for Cartesian also exponent, hex, octal and binary forms, with or without the std feature) into any output stream delivers a prefix of the one text the same formatting produces on a faultless stream,
reports success exactly when all of it was accepted and an error otherwise, writes nothing more after the stream has reported an error, and never panics or hangs because the stream failed. A retry on a recovered stream delivers the whole text, whatever happened in earlier attempts.""",
 ["fault_sequences","crash_points","inputs"],"all streams: every byte or write call at which they fail once, fail for good, run full or recover; all format flags, numbers and component types; both feature configurations",
 "The tests only use to_string() and format!, whose String sink cannot fail.",
 ["src/complex/cartesian_impl/num_complex_impl.rs","src/complex/polar_impl.rs"],[("write! results are returned to the caller","src/complex/cartesian_impl/num_complex_impl.rs: write_complex, src/complex/polar_impl.rs: Display")],observe=["bytes accepted by the fmt::Write sink and the fmt::Result"])
p("C08","A journal of rendered complex numbers reads back exactly after a crash","""
Every finite Cartesian number rendered to text reads back from the journal it was written to as exactly the same number (where the component type's own notation is itself not exact, as what one component rendered alone reads back as): the text is the real part, then the imaginary part with an explicit sign, then a single terminating i, each number in the component type's own notation, with the sign written before any 0x, 0o or 0b prefix,
and '+', '#', precision (and, with the std feature, minimum width with right alignment) honoured. After a crash that tears the last record at any byte, every complete record reads back exactly and the torn one is recognisably incomplete.
A Polar number is its magnitude, the sign ∠ and its angle, each in the component type's own plain notation, and reads back as exactly the same number likewise (from records with an end mark of the writer).""",
 ["crash_points","inputs","histories"],"all sequences of records of all component types and formats, all crash points (bytes) in the journal, both feature configurations",
 "The tests render six numbers and compare strings; no negative zero, hex/octal/binary, precision, plus or alternate flag, integer or fixed-point component is rendered, and nothing is read back.",
 ["src/complex/cartesian_impl/num_complex_impl.rs","src/complex/polar_impl.rs"],[("sign and magnitude are rendered separately","src/complex/cartesian_impl/num_complex_impl.rs: write_complex"),("magnitude, sign and angle","src/complex/polar_impl.rs: Display")],observe=["bytes of the journal"])
p("C09","A phase-accumulating oscillator stays in range, in phase and recovers","""
An oscillator that repeatedly adds a step to a stored phase and wraps it keeps the phase in [-pi, pi) for ever, equal to the exact accumulated phase modulo 2*pi within an error that grows at most in proportion to the number of wraps; at every step sine, cosine, sincos, polar-to-cartesian conversion and (for floats) the complex exponential
give the phasor of that phase within the accuracy of the component type, the polynomial sine (of a wrapped phase) and cosine (of any phase) within 1e-5 and a small multiple of the resolution of the type, and the sincos pair agrees with the single functions. A stored phase corrupted to any finite value is brought back into range by the next wrap, congruent to the corrupted value, and reloading a saved phase resumes the oscillator exactly.""",
 ["histories","fault_sequences"],"all step sizes and histories of any length, in float and all signed fixed-point types (including those that cannot represent 2*pi), with bit flips in the stored phase, detuning and save/restore at any step",
 "One doc-test wraps the number 6 once; nothing iterates, starts near +-pi, uses a large phase or a type with a +-4 range.",
 ["src/trigonometry.rs","src/fixed_impl.rs","src/float_impl.rs","src/float_impl/f32_impl.rs","src/float_impl/f64_impl.rs","src/complex/ops.rs"],
 [("wrap_phase","src/trigonometry.rs"),("mixed_sin/cos/sincos","src/fixed_impl.rs, src/float_impl/*.rs"),("to_cartesian wraps before sincos","src/complex/ops.rs")],
 state=[("phase","accumulated angle kept by the caller between steps","user code")],observe=["phase after each step, phasor of each step"])
p("C10","Every operation finishes in bounded steps whatever its operands hold","""
Every operation, on any operand bits of any supported type (corrupted samples, NaN, infinities, subnormals, the extreme values of a fixed-point or integer type), returns or panics within a number of steps that does not grow with the magnitude of the operands; integer powers may in addition take steps
in proportion to the exponent. A processing loop with a deadline per sample therefore never stalls on a corrupted sample and is back on time with the next one.""",
 ["fault_sequences","histories","inputs"],"all operations, types and operand bit patterns, reached through histories in which stored values are corrupted at any step",
 "The tests use ordinary magnitudes only; an operand that makes a loop run for 2^60 iterations or for ever is never given.",
 SRC,[("wrap_phase removes all turns by a remainder","src/trigonometry.rs"),("niirf normalisation loop stops at infinity","src/trigonometry/sqrt.rs"),("fixed-point sin/cos wrap before cordic; exp of large negative numbers is cut short","src/fixed_impl.rs"),("powi of negative exponents","src/trigonometry.rs: powi_signed")],observe=["number of executed basic blocks per call"])
p("C11","Moving between polar and Cartesian form never changes the value","""
In any history that moves a complex value between Cartesian and Polar form and multiplies it (by a Polar, a Cartesian, or a real), divides it by a real, conjugates it or takes magnitude and argument in either form, the represented value stays the mathematically defined one within the accuracy of the component type:
magnitudes multiply and angles add, a zero magnitude gives the zero number, conjugation negates the angle, and division of a Polar by a real zero saturates the magnitude and keeps the angle. Dropped-out (zero) or corrupted samples and arithmetic faults in one step never affect the steps after it has been replaced.""",
 ["histories","fault_sequences","inputs"],"all sequences of conversions and operations across both forms, in float and fixed-point components, in all quadrants and on the axes, with signal drop-outs, register corruption and arithmetic faults at any step",
 "The tests convert one number per direction, in the first quadrant, in f32 only, and never chain conversions and products.",
 ["src/complex/ops.rs","src/complex/polar_impl.rs","src/complex/cartesian_impl.rs"],[("to_polar, to_cartesian, mul_polar","src/complex/ops.rs"),("operators of Polar, Mul<Polar> for Cartesian","src/complex/polar_impl.rs, src/complex/cartesian_impl.rs")],
 state=[("mag, ang / re, im","the register in either form","src/complex.rs")],observe=["register after each step"])
p("C12","A gain-control loop recovers its set point after faults","""
A feedback loop built from complex magnitude (or the square root of a power, kept in a signed or unsigned type), decibel conversion and complex scaling drives its output to the set point within a bounded number of samples after the last fault, and holds it there, whatever drop-outs, spikes or corruptions of the stored gain occurred before.
At every sample the measured magnitude equals the true magnitude of the sample within the accuracy of the type (relative 1e-3 for the NIIR-filter square root where the type has the resolution), and converting a level to decibel and back any number of times does not move it.""",
 ["histories","fault_sequences"],"all signal levels and loop constants in the stable range, float and fixed-point components, with drop-outs, spikes and bit flips in the stored gain at any sample",
 "The tests convert single constants; no test feeds a result back.",
 ["src/complex/cartesian_impl.rs","src/complex/ops.rs","src/trigonometry/sqrt.rs","src/float_impl.rs","src/fixed_impl.rs"],[("mag/abs","src/complex/cartesian_impl.rs, src/complex/ops.rs"),("niirf","src/trigonometry/sqrt.rs"),("DbMag, DbPow","src/float_impl.rs")],
 state=[("gain","loop gain kept by the caller between samples","user code")],observe=["measured magnitude and output level at each sample"])

p("C13","A carrier-tracking loop locks again after faults","""
A phase-locked or Costas loop that mixes each sample down by the polar form of its own phase and feeds the detected phase error back into phase and frequency locks onto the carrier within a bounded number of samples after the last fault, stays locked, and then decides every symbol correctly, whatever drop-outs, spikes, phase and frequency jumps or corruptions
of its stored phase and frequency occurred before. At every sample the mixed value is the product of the sample and the conjugate phasor within the accuracy of the type, in every form the library offers for it (times Polar, times conjugate, sincos), and the detected phase (argument, angle of the polar form, atan2, atan of the quotient, within the accuracy of the type; the polynomial arctangents within 0.3 degree; the sign-directed detector exactly) is that of the mixed value, in the right quadrant.""",
 ["histories","fault_sequences"],"all loop orders, gains and amplitudes in the stable range, all detectors and mixers, float, user-defined and fixed-point components, with drop-outs, fades, spikes, phase and frequency jumps, bit flips and overwrites of the stored phase and frequency, and save/restore at any sample",
 "The tests evaluate the arctangents and sign at a handful of constants; no test feeds a detected phase back, and none has a phase that crosses pi.",
 ["src/trigonometry.rs","src/trigonometry/atan.rs","src/complex/ops.rs","src/complex/cartesian_impl.rs","src/complex/polar_impl.rs","src/fixed_impl.rs","src/float_impl.rs"],
 [("polynomial atan and atan2","src/trigonometry/atan.rs"),("arg/ang, to_polar, conj, product with Polar","src/complex/cartesian_impl.rs, src/complex/ops.rs"),("sign, wrap_phase","src/trigonometry.rs")],
 state=[("phase, frequency","registers of the loop kept by the caller between samples","user code")],observe=["mixed sample, detected phase, loop phase and decided symbol at each sample"])
p("C14","A number handed over between number types arrives as the same number","""
When nodes that compute in different number types hand numbers over through messages and checkpoints of primitive words, as real, Cartesian or Polar numbers, every completed conversion gives what its definition says: the language's cast between primitives (also for float and integer component types), rounding to nearest into fixed point from a float, the integer part towards minus infinity out of fixed point into an integer, the nearest float otherwise;
a Cartesian converts both parts alike, a real becomes the Cartesian or Polar number without imaginary part or angle, and a Cartesian or Polar becomes the real of its real part or magnitude. A fixed-point conversion panics exactly when the value does not fit. A number that every type on its way can hold therefore arrives, and comes back from a checkpoint after a crash, as exactly the same number, whatever messages were lost, duplicated or reordered and wherever nodes crashed.""",
 ["histories","fault_sequences","crash_points","inputs"],"all chains of component, wire and storage types, all values, all losses, duplications and reorderings of messages, crashes at any step and inside a checkpoint, component faults inside a conversion",
 "The doc-tests convert the constants 1 and 2 between a few pairs of types; no test converts there and back, and none a value that does not fit.",
 ["src/float_impl.rs","src/fixed_impl.rs","src/int_impl.rs","src/complex/cartesian_impl.rs","src/complex/polar_impl.rs"],
 [("impl_mixed_num_conversion","src/float_impl.rs, src/fixed_impl.rs, src/int_impl.rs"),("conversion of Cartesian and Polar","src/complex/cartesian_impl.rs, src/complex/polar_impl.rs")],
 state=[("words","primitive words in messages and checkpoints","user code")],observe=["words sent, values received, values after a restart"])
p("C15","Catching up over missed time equals never having stalled","""
A node whose state obeys a law of motion and that stalls, crashes and is restored, or sees its clock jump forward or back, reaches by one step over the missed ticks (an integer power of the factor of one tick; in float also the exponential, base-2, base-10 and real power, the square or cube root for fractions of a tick, the hyperbolic pair, the rotation and the complex exponential; in signed fixed point also the exponential), or by any split of them into several steps,
the state of a node that never stalled: exactly for integers, within the accumulated rounding of the component type otherwise; zero ticks change nothing and a negative number of ticks undoes a positive one. A catch-up step panics only when a power it needs does not fit the type. In float, the number of whole ticks of a skewed clock is its floor or ceiling, and the time read off the state by the inverse functions (logarithms, inverse hyperbolic and inverse trigonometric functions) is the time that has passed.""",
 ["histories","fault_sequences"],"all laws, rates and component types, all sequences of ticks, stalls, clock jumps of either sign, crashes, restores and recomputations from the beginning",
 "The tests raise one base to one exponent and evaluate single constants of a few elementary functions; none uses a zero or negative exponent or compares one long step with many short ones.",
 ["src/trigonometry.rs","src/int_impl.rs","src/fixed_impl.rs","src/float_impl.rs","src/float_impl/f32_impl.rs","src/float_impl/f64_impl.rs","src/complex/cartesian_impl.rs"],
 [("powi, powi_signed","src/trigonometry.rs"),("MixedPowi of each type","src/int_impl.rs, src/fixed_impl.rs, src/float_impl.rs"),("elementary functions and their inverses","src/float_impl/f32_impl.rs, src/float_impl/f64_impl.rs"),("complex exponential","src/complex/cartesian_impl.rs")],
 state=[("state, tick","state of the node and the tick it belongs to, kept by the caller","user code")],observe=["factor and state after each step, time read off the state"])

p("C16","A limited actuator reaches its command between the limits of its type","""
An actuator whose position is a real number of any supported type and that is stepped towards its command by the sign and the absolute value of what is left arrives within a bounded number of steps after the last fault, never overshoots, and stays, whatever end stops, position corruptions, restarts and changes of the command occurred before. At every step the sign is -1 below zero and 1 otherwise,
the absolute value is the non-negative value of equal size (it panics only where the type has none), and the positive and negative predicates are those of the type (of a float: its sign bit; an unsigned number is always positive). The limits are the type's own, so that running extremes started from them after a restart are the extremes seen since; zero, one (also of complex numbers) and the half and full turn a restart loads are the nearest representable values.""",
 ["histories","fault_sequences"],"all real types, commands, step sizes and positions, with end stops, bit flips, overwrites, save/restore and restarts at any step",
 "Two operands of one type are tested for the sign; nothing tests the limits, the predicates, the absolute value at the limits or most constants.",
 ["src/trigonometry.rs","src/fixed_impl.rs","src/int_impl.rs","src/float_impl.rs","src/complex/cartesian_impl.rs","src/complex/polar_impl.rs"],
 [("sign","src/trigonometry.rs"),("MixedAbs, MixedReal, MixedZero, MixedOne, MixedPi","src/fixed_impl.rs, src/int_impl.rs, src/float_impl.rs"),("constants of complex numbers","src/complex/cartesian_impl.rs, src/complex/polar_impl.rs")],
 state=[("position, step, extremes","registers of the actuator kept by the caller","user code")],observe=["sign, size and predicates of what is left, position and extremes at each step, constants at each restart"])
p("C17","A pointing loop settles on its target after faults","""
A loop that draws an angle register to a target by arcsine or arccosine readings of a resolver, directly or by nulling, settles on the target within a bounded number of samples after the last fault and stays there, whatever drop-outs, overdriven or stray readings, target jumps or corruptions of the register occurred before.
At every sample the arcsine of a reading in -1..1 lies in -pi/2..pi/2 and the arccosine in 0..pi, each is an angle whose sine (cosine) is the reading within a small multiple of the resolution of the type (in float: the nearest such angle within a few units in the last place), also next to -1, 0 and 1, it reads back through the library's own sine (cosine) as the reading, and no reading in -1..1 panics.""",
 ["histories","fault_sequences"],"all targets, readings, gains in the stable range and histories, in float, user-defined and fixed-point types, with faults at any sample",
 "No test evaluates an arcsine or arccosine.",
 ["src/trigonometry.rs","src/fixed_impl.rs","src/float_impl/f32_impl.rs","src/float_impl/f64_impl.rs"],
 [("mixed_asin, mixed_acos","src/fixed_impl.rs, src/float_impl/f32_impl.rs, src/float_impl/f64_impl.rs")],
 state=[("angle register","kept by the caller between samples","user code")],observe=["angle of each reading, its sine or cosine, register at each sample"])

p("C18","Replicas that replay the same log agree bit for bit","""
Nodes that apply the same log of library operations to registers hold, after every entry, bit for bit the same registers (NaN counting as one value) and have seen the same results, arithmetic panics and rendered text,
whether a node applied the log live or restarted from a snapshot and replayed it, whatever messages were lost, duplicated or reordered, whatever other calls it made in between, wherever its data and stack lie in memory, and whether it is built without or with the std feature:
that feature adds the field width of rendered complex numbers and changes no number.""",
 ["histories","fault_sequences","crash_points","schedules"],"all logs of operations of all number types, all snapshots, crashes (between updates, inside one, while a snapshot is written), losses, duplications and reorderings, and both feature configurations on either side",
 "The tests run in one feature configuration and one process at a time; none compares the results of two builds, or of a restarted with a running node.",
 SRC,[("the only code that depends on the std feature pads rendered numbers","src/complex/cartesian_impl/num_complex_impl.rs"),("operations keep nothing between calls and take nothing but their operands","src/**"),("elementary functions of floats name libm explicitly","src/float_impl/*.rs"),("integer power of floats","src/float_impl.rs: MixedPowi")],
 state=[("registers, snapshot, log position","kept by each node","user code")],observe=["result, panic or text of each applied entry and the registers after it, on every replica and in every incarnation"])

# ---- pure functions of their input: listed, not claimed -------------------------------------------------
p("C20","Float elementary functions are the correctly named function","""
For f32 and f64 every elementary operation (sin, cos, tan, their inverses and hyperbolic forms, exp, exp2, exp10, log, log2, log10, pow, sqrt, cbrt, ceil, floor, atan2) returns the mathematically named function of its arguments within a few units in the last place, with the IEEE special cases of the C library.""",
 ["inputs"],"all f32 and f64 operands","Only atan and the four decibel conversions of floats are tested, at one operand each.",
 ["src/float_impl/f32_impl.rs","src/float_impl/f64_impl.rs"],[("delegation to libm","src/float_impl/f32_impl.rs, src/float_impl/f64_impl.rs")])
p("C21","Polynomial sine, cosine and arctangent stay within their error bounds","""
The polynomial sine and cosine are within 1e-4 of the true value on [-pi, pi), and the polynomial atan2 is within 0.3 degree of the true angle in the right octant for every non-zero vector, in every type with enough range and resolution for the polynomial.""",
 ["inputs"],"all operands in range, all signed types","Doc-tests evaluate a handful of points; the plotting test asserts nothing.",
 ["src/trigonometry.rs","src/trigonometry/atan.rs"],[("Taylor polynomial folded to the first quadrant","src/trigonometry.rs: sin, cos"),("octant selection","src/trigonometry/atan.rs: atan2")])
p("C22","The NIIR-filter square root meets its accuracy","""
With two iterations the fast square root of every positive operand is within 1e-3 relative of the true root (plus the resolution of the type), zero maps to zero, and the root is never negative.""",
 ["inputs"],"all non-negative operands of all types","Three operands of one fixed-point type are tested.",["src/trigonometry/sqrt.rs"],[("normalisation by powers of four and beta table","src/trigonometry/sqrt.rs: niirf")])
p("C23","Conversions between number types follow the language's casts","""
Conversion between any two supported real types equals the Rust cast for primitives and the fixed crate's from_num/to_num for fixed point, and conversion between real and Cartesian keeps the real part and sets or drops the imaginary part.""",
 ["inputs"],"all pairs of types, all values","The doc-tests convert the constants 1 and 2.",
 ["src/float_impl.rs","src/fixed_impl.rs","src/int_impl.rs","src/complex/cartesian_impl.rs","src/complex/polar_impl.rs"],[("impl_mixed_num_conversion","src/float_impl.rs, src/fixed_impl.rs, src/int_impl.rs")])
p("C24","Sign, absolute value and limits agree with the type's order","""
For every real type the sign is -1 below zero and 1 otherwise, the absolute value is the non-negative value of equal magnitude, the positive/negative predicates are those of the type, and the limits are the type's own.""",
 ["inputs"],"all values of all types","Two operands of one type are tested.",["src/trigonometry.rs","src/fixed_impl.rs","src/int_impl.rs","src/float_impl.rs"],[("sign, MixedAbs, MixedReal","src/trigonometry.rs, src/*_impl.rs")])
p("C25","Fixed-point transcendental functions meet the CORDIC accuracy","""
For every signed fixed-point type, sine, cosine, arctangent, arcsine, arccosine and exponential are within a small multiple of the type's resolution of the true value whenever intermediate values fit the type.""",
 ["inputs"],"all operands of all signed fixed-point types","One operand of one type is tested.",["src/fixed_impl.rs"],[("delegation to cordic","src/fixed_impl.rs")])
p("C26","Integer powers equal repeated multiplication","""
Raising a number to an integer power gives the product of that many factors (one for exponent zero, the power of the reciprocal for negative exponents), and the complex power has the power of the magnitude and the multiple of the angle.""",
 ["inputs"],"all bases and exponents of all types","One base and one exponent are tested.",["src/trigonometry.rs","src/complex/ops.rs","src/int_impl.rs","src/fixed_impl.rs","src/float_impl.rs"],[("powi","src/trigonometry.rs, src/complex/ops.rs")])
p("C27","Constants are the nearest representable values","""
Zero, one, pi and tau of every type that can hold them are the nearest representable values, also as Cartesian and Polar constants.""",
 ["configurations"],"all types","No test reads tau, and pi is read in f32 only.",["src/float_impl.rs","src/fixed_impl.rs","src/int_impl.rs","src/complex/cartesian_impl.rs","src/complex/polar_impl.rs"],[("MixedPi, MixedZero, MixedOne","src/*_impl.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
