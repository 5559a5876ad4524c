//! C07, C08: rendering numbers into streams that fail, and a journal of rendered numbers across crashes.

use crate::elem::*;
use crate::harness::*;
use crate::rng::{mix, Rng};
use crate::rt;
use core::fmt::Write;
use mixed_num::*;

/// Notations.
const DISP: u8 = 0;
const LEXP: u8 = 1;
const UEXP: u8 = 2;
const LHEX: u8 = 3;
const UHEX: u8 = 4;
const OCT: u8 = 5;
const BIN: u8 = 6;
/// Display of a Polar.
const POLAR: u8 = 7;

#[derive(Clone, Copy, Debug)]
struct Fmt {
    kind: u8,
    plus: bool,
    alt: bool,
    prec: Option<usize>,
    width: Option<usize>,
}

macro_rules! apply {
    ($s:expr, $x:expr, $f:expr, $t:literal) => {{
        let (p, w) = ($f.prec.unwrap_or(0), $f.width.unwrap_or(0));
        let x = $x;
        match ($f.plus, $f.alt, $f.prec.is_some(), $f.width.is_some()) {
            (false, false, false, false) => write!($s, concat!("{:", $t, "}"), x),
            (true, false, false, false) => write!($s, concat!("{:+", $t, "}"), x),
            (false, true, false, false) => write!($s, concat!("{:#", $t, "}"), x),
            (true, true, false, false) => write!($s, concat!("{:+#", $t, "}"), x),
            (false, false, true, false) => write!($s, concat!("{:.1$", $t, "}"), x, p),
            (true, false, true, false) => write!($s, concat!("{:+.1$", $t, "}"), x, p),
            (false, true, true, false) => write!($s, concat!("{:#.1$", $t, "}"), x, p),
            (true, true, true, false) => write!($s, concat!("{:+#.1$", $t, "}"), x, p),
            (false, false, false, true) => write!($s, concat!("{:1$", $t, "}"), x, w),
            (true, false, false, true) => write!($s, concat!("{:+1$", $t, "}"), x, w),
            (false, true, false, true) => write!($s, concat!("{:#1$", $t, "}"), x, w),
            (true, true, false, true) => write!($s, concat!("{:>+#1$", $t, "}"), x, w),
            (false, false, true, true) => write!($s, concat!("{:>1$.2$", $t, "}"), x, w, p),
            (true, false, true, true) => write!($s, concat!("{:>+1$.2$", $t, "}"), x, w, p),
            (false, true, true, true) => write!($s, concat!("{:#1$.2$", $t, "}"), x, w, p),
            (true, true, true, true) => write!($s, concat!("{:+#1$.2$", $t, "}"), x, w, p),
        }
    }};
}
macro_rules! own {
    ($x:expr, $f:expr, $t:literal) => {
        match $f.prec {
            Some(p) => format!(concat!("{:.1$", $t, "}"), $x, p),
            None => format!(concat!("{:", $t, "}"), $x),
        }
    };
}

/// What the rendering of a component type needs.
trait Ren: Elem {
    const KINDS: &'static [u8];
    fn render(s: &mut Sink, f: Fmt, v: (Self, Self)) -> core::fmt::Result;
    /// The type's own notation of a non-negative value (or of -0.0).
    fn body(self, f: Fmt) -> String;
    fn parse(s: &str, kind: u8) -> Option<Self>;
}
macro_rules! ren {
    ($t:ident [$($k:ident $l:literal)*] $s:ident $n:ident $parse:expr) => {
        impl Ren for $t {
            const KINDS: &'static [u8] = &[DISP, $($k,)* POLAR];
            fn render(s: &mut Sink, f: Fmt, v: (Self, Self)) -> core::fmt::Result {
                match f.kind {
                    $( $k => apply!(s, Cartesian::new(v.0, v.1), f, $l), )*
                    POLAR => apply!(s, Polar::new(v.0, v.1), f, ""),
                    _ => apply!(s, Cartesian::new(v.0, v.1), f, ""),
                }
            }
            fn body(self, f: Fmt) -> String {
                match f.kind {
                    $( $k => own!(self, f, $l), )*
                    _ => own!(self, f, ""),
                }
            }
            fn parse($s: &str, $n: u8) -> Option<Self> {
                $parse
            }
        }
    };
}
fn radix(k: u8) -> u32 {
    match k {
        LHEX | UHEX => 16,
        OCT => 8,
        BIN => 2,
        _ => 10,
    }
}
/// Integers in exponent notation: mantissa digits shifted by the exponent, exactly.
fn int_exp(s: &str) -> Option<String> {
    let (m, e) = s.split_once(|c| c == 'e' || c == 'E')?;
    let e: usize = e.parse().ok()?;
    let (neg, m) = match m.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, m),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if f.len() > e {
        return None;
    }
    Some(format!("{}{}{}{}", if neg { "-" } else { "" }, i, f, "0".repeat(e - f.len())))
}
macro_rules! ren_floats { ($($t:ident)*) => { $( ren!($t [LEXP "e" UEXP "E"] s _k s.parse().ok()); )* } }
macro_rules! ren_ints { ($($t:ident)*) => { $( ren!($t [LEXP "e" UEXP "E" LHEX "x" UHEX "X" OCT "o" BIN "b"] s k match k {
    LEXP | UEXP => int_exp(s)?.parse().ok(),
    _ => Self::from_str_radix(s, radix(k)).ok(),
}); )* } }
macro_rules! ren_fixed { ($($t:ident)*) => { $( ren!($t [LEXP "e" UEXP "E" LHEX "x" UHEX "X" OCT "o" BIN "b"] s k match k {
    LHEX | UHEX => Self::from_str_hex(s).ok(),
    OCT => Self::from_str_octal(s).ok(),
    BIN => Self::from_str_binary(s).ok(),
    _ => s.parse().ok(),
}); )* } }
ren_floats!(f32 f64);
ren_ints!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
ren_fixed!(I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);

/// How a stream fails.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// Takes n bytes in all and then rejects for good, either cutting a write short or rejecting it whole.
    Full(usize, bool),
    /// The n-th write fails, for good or just once.
    Call(usize, bool),
    /// Crashes (unwinds) after n bytes.
    Crash(usize),
}
struct Crash;

struct Sink {
    got: Vec<u8>,
    fault: Fault,
    calls: usize,
    failed: bool,
    after_error: bool,
    empty_rejected: bool,
    start: usize,
}
impl Sink {
    fn new(fault: Fault) -> Sink {
        Sink { got: Vec::with_capacity(1024), fault, calls: 0, failed: false, after_error: false, empty_rejected: false, start: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.calls += 1;
        if self.failed {
            self.after_error = true;
        }
        let have = self.got.len() - self.start;
        match self.fault {
            Fault::None => {}
            Fault::Full(n, cut) => {
                if have + s.len() > n {
                    if cut {
                        let k = n.saturating_sub(have);
                        self.got.extend_from_slice(&s.as_bytes()[..k]);
                    }
                    self.failed = true;
                    return Err(core::fmt::Error);
                }
            }
            Fault::Call(n, once) => {
                if self.calls == n || (self.calls > n && !once) {
                    self.failed = true;
                    return Err(core::fmt::Error);
                }
            }
            Fault::Crash(n) => {
                if have + s.len() > n {
                    let k = n.saturating_sub(have);
                    self.got.extend_from_slice(&s.as_bytes()[..k]);
                    std::panic::panic_any(Crash);
                }
            }
        }
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

enum Ended {
    Ok,
    Err,
    Crashed,
    Panicked,
}
fn attempt<T: Ren>(s: &mut Sink, f: Fmt, v: (T, T)) -> Ended {
    let p = s as *mut Sink;
    let (r, t, _) = rt::call(20_000_000, || T::render(unsafe { &mut *p }, f, v));
    stat(St::CALLS);
    log(t);
    log(s.got.len() as u64);
    match r {
        Ok(Ok(())) => Ended::Ok,
        Ok(Err(_)) => Ended::Err,
        Err(e) if e.is::<Crash>() => Ended::Crashed,
        Err(_) => {
            stat(St::PANICS);
            Ended::Panicked
        }
    }
}

fn fmt_of<T: Ren>(r: &Rec, at: usize) -> Fmt {
    let k = T::KINDS[(r.n(at) % T::KINDS.len() as u128) as usize];
    let fl = r.n(at + 1);
    Fmt {
        kind: k,
        plus: fl & 1 != 0,
        alt: fl & 2 != 0,
        prec: if fl & 4 != 0 { Some((r.n(at + 2) % 12) as usize) } else { None },
        width: if fl & 8 != 0 { Some((r.n(at + 3) % 60) as usize) } else { None },
    }
}
fn txt(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}
fn fault_of(k: u128, n: u128) -> Fault {
    let n = (n % 2000) as usize;
    match k % 7 {
        0 => Fault::None,
        1 => Fault::Full(n, true),
        2 => Fault::Full(n, false),
        3 => Fault::Call(n.max(1), false),
        4 => Fault::Call(n.max(1), true),
        _ => Fault::Crash(n),
    }
}
fn note_fault(f: Fault) {
    stat(match f {
        Fault::None => return,
        Fault::Full(_, true) => St::SINKBYTE,
        Fault::Full(_, false) => St::SINKCAP,
        Fault::Call(_, false) => St::SINKCALL,
        Fault::Call(_, true) => St::SINKTRANSIENT,
        Fault::Crash(_) => St::SINKPANIC,
    });
}

fn stream<T: Ren>(p: &Plan) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        for r in p {
            if r.k != "render" {
                continue;
            }
            let f = fmt_of::<T>(r, 0);
            let v = (T::de(r.n(4)), T::de(r.n(5)));
            let what = || format!("{} {:?} of (0x{:x}, 0x{:x})", T::NAME, f, r.n(4), r.n(5));
            // The one text: a stream that takes everything.
            let mut s = Sink::new(Fault::None);
            let full = match attempt(&mut s, f, v) {
                Ended::Ok => s.got.clone(),
                Ended::Err => fail("error-without-fault", &format!("{}: Err although the stream took everything", what())),
                _ => {
                    // Rendering this value panics whatever the stream does: C08's concern.
                    stat(St::SKIPPED);
                    continue;
                }
            };
            log(crate::rng::hash_bytes(&full));
            for (k, n) in r.v[6.min(r.v.len())..].chunks(2).map(|c| (c[0], c.get(1).copied().unwrap_or(0))) {
                // Positions are relative to the text, so every byte is reached.
                let n = if k % 7 == 3 || k % 7 == 4 { 1 + n % 24 } else { n % (full.len() as u128 + 2) };
                let fault = fault_of(k, n);
                let mut s = Sink::new(fault);
                let e = attempt(&mut s, f, v);
                stat(St::CHECKED);
                if s.failed {
                    note_fault(fault);
                }
                let ctx = || format!("{} into a stream with {:?}: delivered {:?} of {:?}", what(), fault, txt(&s.got), txt(&full));
                if !full.starts_with(&s.got) {
                    fail("not-a-prefix", &ctx());
                }
                if s.after_error {
                    fail("writes-after-error", &ctx());
                }
                match e {
                    Ended::Ok => {
                        if s.failed {
                            fail("error-swallowed", &format!("{}, and reports success", ctx()));
                        }
                        if s.got != full {
                            fail("incomplete-success", &format!("{}, and reports success", ctx()));
                        }
                    }
                    Ended::Err => {
                        if !s.failed {
                            fail("error-without-fault", &ctx());
                        }
                    }
                    Ended::Crashed => note_fault(fault),
                    Ended::Panicked => fail("panic-on-stream-fault", &ctx()),
                }
                state(mix(mix(f.kind as u64 | (k as u64) << 8 | (n as u64) << 16) ^ mix(full.len() as u64) ^ crate::rng::hash_bytes(T::NAME.as_bytes())));
            }
            // Recovered: the retry delivers the whole text.
            let mut s = Sink::new(Fault::None);
            let e = attempt(&mut s, f, v);
            stat(St::RETRY);
            if !matches!(e, Ended::Ok) || s.got != full {
                fail("retry-differs", &format!("{}: {:?} when retried after failures, {:?} at first", what(), txt(&s.got), txt(&full)));
            }
        }
    })]);
}

/// True when the component is the most negative value of a signed integer or fixed-point type.
fn is_min<T: Elem>(x: T) -> bool {
    T::KIND != 0 && T::SIGNED && x.raw() == T::min_raw()
}
fn finite<T: Elem>(x: T) -> bool {
    x.f().is_finite()
}
fn abs<T: Elem>(x: T) -> T {
    if T::KIND == 0 {
        if x.f() < 0.0 {
            T::de(x.en() ^ (1 << (T::BITS - 1)))
        } else {
            x
        }
    } else if T::SIGNED && x.raw() < 0 {
        T::unraw(-x.raw()).unwrap_or(x)
    } else {
        x
    }
}
fn neg<T: Elem>(x: T) -> bool {
    if T::KIND == 0 { x.f() < 0.0 } else { T::SIGNED && x.raw() < 0 }
}

/// The text the record must have.
fn model<T: Ren>(f: Fmt, v: (T, T)) -> String {
    if f.kind == POLAR {
        return format!("{}\u{2220}{}", v.0.body(f), v.1.body(f));
    }
    let pre = if f.alt {
        match f.kind {
            LHEX | UHEX => "0x",
            OCT => "0o",
            BIN => "0b",
            _ => "",
        }
    } else {
        ""
    };
    let s = format!(
        "{}{pre}{}{}{pre}{}i",
        if neg(v.0) { "-" } else if f.plus { "+" } else { "" },
        abs(v.0).body(f),
        if neg(v.1) { "-" } else { "+" },
        abs(v.1).body(f)
    );
    match f.width {
        Some(w) if cfg!(feature = "std") => format!("{s:>w$}"),
        _ => s,
    }
}

/// Reads one record of the journal, by the documented notation only.
fn read_back<T: Ren>(t: &str, f: Fmt) -> Option<(T, T)> {
    if f.kind == POLAR {
        let (m, a) = t.strip_suffix(';')?.split_once('\u{2220}')?;
        return Some((T::parse(m, DISP)?, T::parse(a, DISP)?));
    }
    let t = t.trim_start_matches(' ').strip_suffix('i')?;
    let b = t.as_bytes();
    let exp = f.kind == LEXP || f.kind == UEXP;
    let mut cut = None;
    for k in 1..b.len() {
        if (b[k] == b'+' || b[k] == b'-') && b[k - 1] != b'+' && b[k - 1] != b'-' && !(exp && (b[k - 1] | 32) == b'e') {
            cut = Some(k);
            break;
        }
    }
    let k = cut?;
    let num = |s: &str| -> Option<T> {
        let (sign, s) = match s.as_bytes().first()? {
            b'-' => ("-", &s[1..]),
            b'+' => ("", &s[1..]),
            _ => ("", s),
        };
        let s = if f.alt && radix(f.kind) != 10 {
            s.strip_prefix(match f.kind {
                LHEX | UHEX => "0x",
                OCT => "0o",
                _ => "0b",
            })?
        } else {
            s
        };
        T::parse(&format!("{sign}{s}"), f.kind)
    };
    Some((num(&t[..k])?, num(&t[k..])?))
}

/// What the component reads back as when it is written alone.
fn alone<T: Ren>(x: T, f: Fmt) -> T {
    if T::KIND != 2 || (f.kind != DISP && f.kind != LEXP && f.kind != UEXP && f.kind != POLAR) {
        return x;
    }
    if f.kind == POLAR {
        let y = T::parse(&x.body(f), DISP).unwrap_or(x);
        return if (y.raw() - x.raw()).abs() <= 1 { y } else { x };
    }
    let y = T::parse(&format!("{}{}", if neg(x) { "-" } else { "" }, abs(x).body(f)), f.kind).unwrap_or(x);
    // Within one step in any case.
    if (y.raw() - x.raw()).abs() <= 1 { y } else { x }
}

struct Written<T> {
    f: Fmt,
    v: (T, T),
    end: usize,
}

fn journal<T: Ren>(p: &Plan, known_min: bool) {
    rt::run(rt::Setup::plain(), vec![Box::new(|| {
        let strict = find(p, "strict").is_some();
        let mut disk = Sink::new(Fault::None);
        let mut done: Vec<Written<T>> = vec![];
        let crash = find(p, "crash").map(|r| r.n(0) as usize);
        let mut crashed = false;
        for r in p {
            if r.k != "record" {
                continue;
            }
            let mut f = fmt_of::<T>(r, 0);
            if f.kind == POLAR {
                // The flags have no meaning for it.
                f = Fmt { kind: POLAR, plus: false, alt: false, prec: None, width: None };
            }
            let v = (T::de(r.n(4)), T::de(r.n(5)));
            if !finite(v.0) || !finite(v.1) {
                stat(St::SKIPPED);
                continue;
            }
            let min = f.kind != POLAR && (is_min(v.0) || is_min(v.1));
            let what = format!("{} {:?} of (0x{:x}, 0x{:x})", T::NAME, f, r.n(4), r.n(5));
            let base = disk.got.len();
            disk.start = base;
            disk.calls = 0;
            disk.failed = false;
            disk.after_error = false;
            // A stream error first, perhaps: the writer rolls back and writes the record again.
            disk.fault = match fault_of(r.n(6), r.n(7)) {
                Fault::Crash(_) => Fault::None,
                x => x,
            };
            let mut e = attempt(&mut disk, f, v);
            if disk.failed && matches!(e, Ended::Ok) {
                fail("error-swallowed", &format!("{what}: the stream failed, the caller was told the record is complete: {:?}", txt(&disk.got[base..])));
            }
            if matches!(e, Ended::Err) {
                note_fault(disk.fault);
                disk.got.truncate(base);
                disk.failed = false;
                disk.fault = Fault::None;
                stat(St::RETRY);
                e = attempt(&mut disk, f, v);
            }
            if min && !strict && known_min {
                // Listed in KNOWN_FINDINGS: a component equal to the type's minimum.
                if !matches!(e, Ended::Ok) {
                    stat(St::KNOWN);
                } else {
                    stat(St::SKIPPED);
                }
                disk.got.truncate(base);
                continue;
            }
            match e {
                Ended::Ok => {}
                Ended::Err => fail("error-without-fault", &format!("{what}: Err on a stream that takes everything")),
                _ if !min && rt::call(20_000_000, || model(f, v)).0.is_err() => {
                    // The component type's own notation panics.
                    stat(St::SKIPPED);
                    disk.got.truncate(base);
                    continue;
                }
                _ if min => fail("min-value-panics", &format!("{what} panics: a component is the most negative value of its type")),
                _ => fail("render-panics", &format!("{what} panics")),
            }
            if min {
                disk.got.truncate(base);
                continue;
            }
            let got = txt(&disk.got[base..]);
            let want = model(f, v);
            stat(St::RECORDS);
            stat(St::CHECKED);
            log(crate::rng::hash_bytes(got.as_bytes()));
            if got != want {
                fail("wrong-text", &format!("{what} is rendered as {got:?}, specified is {want:?}"));
            }
            if f.kind == POLAR {
                // A polar number has no end mark of its own: the writer adds one.
                disk.got.push(b';');
            }
            done.push(Written { f, v, end: disk.got.len() });
            state(mix(crate::rng::hash_bytes(got.as_bytes()) ^ f.kind as u64));
            // The process dies in the middle of the next write.
            if let Some(n) = crash {
                if disk.got.len() > n {
                    crashed = true;
                    break;
                }
            }
        }
        let survived = match crash {
            Some(n) if crashed => {
                stat(St::TORN);
                n.min(disk.got.len())
            }
            _ => disk.got.len(),
        };
        let disk = txt(&disk.got[..survived]);
        // Recovery: records end with the terminating i, polar ones with the writer's own mark.
        let mut at = 0;
        for (k, w) in done.iter().enumerate() {
            let Some(n) = disk[at..].find(['i', ';']) else {
                if w.end <= survived {
                    fail("record-lost", &format!("{}: record {k} is complete on disk but has no terminator: {:?}", T::NAME, &disk[at..]));
                }
                // The torn record: recognisably incomplete.
                if w.f.kind != POLAR && disk.len() > at && read_back::<T>(&disk[at..], w.f).is_some() {
                    fail("torn-record-accepted", &format!("{}: {:?} is torn and reads as a complete number", T::NAME, &disk[at..]));
                }
                break;
            };
            let text = &disk[at..at + n + 1];
            at += n + 1;
            if at != w.end {
                fail("record-boundary", &format!("{}: record {k} ends at byte {} of the journal, its terminator is at {}", T::NAME, w.end, at));
            }
            if w.f.prec.is_some() {
                continue;
            }
            stat(St::READBACK);
            match read_back::<T>(text, w.f) {
                // The decimal notation of fixed-point types (theirs, not Mixed-Num's) is not exact: then as
                // the component alone reads back.
                Some(v) if (v.0.en(), v.1.en()) == (alone(w.v.0, w.f).en(), alone(w.v.1, w.f).en()) => {}
                Some(v) => fail("reads-back-differently", &format!("{} {:?}: {text:?} reads back as (0x{:x}, 0x{:x}), written was (0x{:x}, 0x{:x})", T::NAME, w.f, v.0.en(), v.1.en(), w.v.0.en(), w.v.1.en())),
                None => fail("does-not-read-back", &format!("{} {:?}: {text:?} of (0x{:x}, 0x{:x})", T::NAME, w.f, w.v.0.en(), w.v.1.en())),
            }
        }
    })]);
}

struct Ty {
    name: &'static str,
    gen: fn(&mut Rng, Style) -> u128,
    stream: fn(&Plan),
    journal: fn(&Plan, bool),
}
macro_rules! tys { ($($t:ident)*) => { const TYS: &[Ty] = &[ $( Ty { name: <$t as Elem>::NAME, gen: <$t as Elem>::gen, stream: stream::<$t>, journal: journal::<$t> } ),* ]; } }
tys!(f32 f64 i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize I8F0 I8F3 I8F5 I16F0 I16F8 I16F13 I32F0 I32F8 I32F16 I32F22 I32F28 I32F29 I64F0 I64F16 I64F32 I64F48 I64F61 U8F5 U16F8 U32F16 U32F29 U64F32);

pub struct Stream;
pub struct Journal;

fn value(ty: &Ty, r: &mut Rng) -> u128 {
    match r.below(10) {
        0 => 0,
        1 if ty.name == "f32" => 1 << 31,
        1 if ty.name == "f64" => 1 << 63,
        2..=4 => (ty.gen)(r, Style::Wild),
        _ => (ty.gen)(r, Style::Tame),
    }
}
fn pick(r: &mut Rng) -> usize {
    if r.chance(1, 3) {
        r.below(2) as usize
    } else {
        r.below(TYS.len() as u64) as usize
    }
}
fn fmt_vals(r: &mut Rng, prec: u64) -> Vec<u128> {
    let mut fl = r.below(4) as u128;
    if r.chance(prec, 10) {
        fl |= 4;
    }
    if r.chance(1, 3) {
        fl |= 8;
    }
    vec![r.below(8) as u128, fl, r.below(10) as u128, r.below(60) as u128]
}

impl Prop for Stream {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn runs(&self) -> (u64, u64) {
        (80_000, 2_000_000)
    }
    fn std_matters(&self) -> bool {
        true
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let t = pick(r);
        let ty = &TYS[t];
        let mut p = vec![rec("type", &[t as u128])];
        for _ in 0..r.range(1, 5) {
            let mut v = fmt_vals(r, 4);
            v.push(value(ty, r));
            v.push(value(ty, r));
            for _ in 0..r.range(1, 8) {
                v.push(1 + r.below(6) as u128);
                v.push(if r.chance(1, 3) { r.below(6) as u128 } else { r.below(400) as u128 });
            }
            p.push(Rec { k: "render", v });
        }
        p
    }
    fn exec(&self, _: &Ctx, p: &Plan) {
        (TYS[(find(p, "type").map_or(0, |r| r.n(0)) % TYS.len() as u128) as usize].stream)(p)
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        describe(r)
    }
    fn rule(&self) -> &'static str {
        "each run: 1-5 renderings of a Cartesian (all notations of the type, all flags) or Polar of one of 36 component types, each attempted on 1-8 streams that run full at a byte (cutting the write or rejecting it), fail at a write call for good or once, or crash, and retried on a recovered stream. Non-trivial: at least one stream fault fired. Distinct: by plan."
    }
    fn nontrivial(&self, r: &Res) -> bool {
        [St::SINKBYTE, St::SINKCALL, St::SINKCAP, St::SINKTRANSIENT, St::SINKPANIC].iter().any(|s| r.stats[*s as usize] > 0)
    }
    fn stub(&self) -> &'static str {
        "the output stream (core::fmt::Write) is simulated; core::fmt is the real one"
    }
}

impl Prop for Journal {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn runs(&self) -> (u64, u64) {
        (80_000, 2_000_000)
    }
    fn std_matters(&self) -> bool {
        true
    }
    fn gen(&self, _: &mut Ctx, r: &mut Rng, _: u64) -> Plan {
        let t = pick(r);
        let ty = &TYS[t];
        let mut p = vec![rec("type", &[t as u128])];
        let n = r.range(1, 12);
        if r.chance(2, 3) {
            p.push(rec("crash", &[r.below(n as u64 * 14 + 1) as u128]));
        }
        for _ in 0..n {
            let mut v = fmt_vals(r, 2);
            v.push(value(ty, r));
            v.push(value(ty, r));
            if r.chance(1, 4) {
                v.push(1 + r.below(4) as u128);
                v.push(r.below(16) as u128);
            }
            p.push(Rec { k: "record", v });
        }
        p
    }
    fn exec(&self, ctx: &Ctx, p: &Plan) {
        (TYS[(find(p, "type").map_or(0, |r| r.n(0)) % TYS.len() as u128) as usize].journal)(p, ctx.known.iter().any(|k| k == MIN_ID))
    }
    fn describe(&self, _: &Ctx, r: &Rec) -> String {
        describe(r)
    }
    fn rule(&self) -> &'static str {
        "each run: a journal of 1-12 records (Cartesian numbers of one of 36 component types in any notation, with any flags, or Polar numbers), some of whose writes fail and are rolled back and repeated, torn at a random byte by a crash, then recovered. The text of each record is compared with the specified notation and every complete record without a precision is parsed with the type's own parser and compared bit for bit. Non-trivial: at least one record was compared. Distinct: by plan."
    }
    fn nontrivial(&self, r: &Res) -> bool {
        r.stats[St::RECORDS as usize] > 0
    }
    fn stub(&self) -> &'static str {
        "the storage behind core::fmt::Write, its faults and the crash are simulated; core::fmt and the parsers of the component types are the real ones"
    }
    fn known(&self) -> Vec<(&'static str, Plan, &'static str)> {
        let i8t = TYS.iter().position(|t| t.name == "i8").unwrap() as u128;
        vec![(MIN_ID, vec![rec("type", &[i8t]), rec("strict", &[]), rec("record", &[0, 0, 0, 0, 0x80, 0])], "min-value-panics")]
    }
}
const MIN_ID: &str = "format-minimum";

fn describe(r: &Rec) -> String {
    match r.k {
        "type" => TYS[(r.n(0) % TYS.len() as u128) as usize].name.to_string(),
        "render" | "record" => {
            let fl = r.n(1);
            format!(
                "notation {}{}{}{}{}",
                r.n(0),
                if fl & 1 != 0 { " +" } else { "" },
                if fl & 2 != 0 { " #" } else { "" },
                if fl & 4 != 0 { format!(" .{}", r.n(2) % 12) } else { String::new() },
                if fl & 8 != 0 { format!(" width {}", r.n(3) % 60) } else { String::new() }
            )
        }
        "crash" => format!("the process dies when {} bytes are on disk", r.n(0)),
        _ => String::new(),
    }
}
