//! Global simulation state: the choice tape, the event log, the simulated clock
//! and the counters. Exactly one simulated run is active per process, and only
//! the thread that holds the scheduler's baton touches this state, so every
//! choice is a function of the seed (or of the tape when replaying).

use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;

use crate::alloc;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

impl Violation {
    pub fn new(class: impl Into<String>, msg: impl Into<String>) -> Self {
        Violation { class: class.into(), msg: msg.into() }
    }
}

pub type Res<T = ()> = Result<T, Violation>;

#[macro_export]
macro_rules! viol {
    ($class:expr, $($a:tt)*) => {
        return Err($crate::sim::Violation::new($class, format!($($a)*)))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($a:tt)*) => {
        if !$cond { return Err($crate::sim::Violation::new($class, format!($($a)*))); }
    };
}

/// Trace a line (only materialised while replaying / reporting).
#[macro_export]
macro_rules! tr {
    ($($a:tt)*) => {
        if $crate::sim::verbose() {
            let _b = $crate::alloc::bypass();
            $crate::sim::trace_line(format!($($a)*));
        }
    };
}

/// Bound on draws per run; afterwards every choice is the simplest one.
const MAX_DRAWS: usize = 60_000;

pub struct Sim {
    rng: u64,
    tape: Vec<u32>,
    pos: usize,
    replay: bool,
    verbose: bool,
    trace: Vec<String>,
    hash: u64,
    sched_hash: u64,
    events: u64,
    clock: u64,
    clock_total: u64,
    nontrivial: bool,
    pending: Option<Violation>,
    pub stats: BTreeMap<&'static str, u64>,
    keep_stats: bool,
    steps_total: u64,
    log: Option<std::fs::File>,
    /// Choices made before are made again: position, and where that ends.
    again: Option<(usize, usize)>,
}

/// Write every choice to a file as it is made, for runs that do not return.
pub fn log_choices(f: std::fs::File) {
    with(|s| s.log = Some(f))
}

static SIM: Mutex<Sim> = Mutex::new(Sim {
    rng: 0,
    tape: Vec::new(),
    pos: 0,
    replay: false,
    verbose: false,
    trace: Vec::new(),
    hash: 0,
    sched_hash: 0,
    events: 0,
    clock: 0,
    clock_total: 0,
    nontrivial: false,
    pending: None,
    stats: BTreeMap::new(),
    keep_stats: true,
    steps_total: 0,
    log: None,
    again: None,
});

fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let _b = alloc::bypass();
    let mut g = match SIM.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    f(&mut g)
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(29);
    splitmix(&mut s)
}

pub fn mix_str(mut a: u64, s: &str) -> u64 {
    for b in s.as_bytes() {
        a = (a ^ (*b as u64)).wrapping_mul(0x100000001B3);
    }
    mix(a, s.len() as u64)
}

pub enum Source<'a> {
    Seed(u64),
    Tape(&'a [u32]),
}

pub fn begin(src: Source<'_>, verbose: bool, keep_stats: bool) {
    with(|s| {
        s.tape.clear();
        s.pos = 0;
        match src {
            Source::Seed(x) => {
                s.rng = x;
                s.replay = false;
            }
            Source::Tape(t) => {
                s.tape.extend_from_slice(t);
                s.rng = 0;
                s.replay = true;
            }
        }
        s.verbose = verbose;
        s.trace = Vec::new();
        s.hash = 0xcbf29ce484222325;
        s.sched_hash = 0xcbf29ce484222325;
        s.events = 0;
        s.clock = 0;
        s.nontrivial = false;
        s.pending = None;
        s.keep_stats = keep_stats;
        s.again = None;
    })
}

pub struct Ended {
    pub tape: Vec<u32>,
    pub used: usize,
    pub hash: u64,
    pub sched_hash: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub trace: Vec<String>,
    pub pending: Option<Violation>,
}

pub fn end() -> Ended {
    with(|s| {
        let clock = s.clock;
        if s.keep_stats {
            s.clock_total += clock;
            s.steps_total += s.events;
        }
        Ended {
            tape: s.tape.clone(),
            used: if s.replay { s.pos.min(s.tape.len()) } else { s.tape.len() },
            hash: s.hash,
            sched_hash: s.sched_hash,
            events: s.events,
            nontrivial: s.nontrivial,
            trace: std::mem::take(&mut s.trace),
            pending: s.pending.take(),
        }
    })
}

/// Draw a number in `0..n`. Zero is always the simplest choice: no fault, no
/// preemption, the smallest structure.
pub fn draw(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    with(|s| {
        if let Some((at, end)) = &mut s.again {
            if at < end {
                let v = match s.tape.get(*at) {
                    Some(v) => u64::from(*v) % n,
                    None => 0,
                };
                *at += 1;
                return v;
            }
        }
        if s.replay {
            let v = match s.tape.get(s.pos) {
                Some(v) => u64::from(*v) % n,
                None => 0,
            };
            s.pos += 1;
            v
        } else if s.tape.len() >= MAX_DRAWS {
            0
        } else {
            let v = splitmix(&mut s.rng) % n.min(u64::from(u32::MAX));
            s.tape.push(v as u32);
            if let Some(log) = &mut s.log {
                let _ = log.write_all(&(v as u32).to_le_bytes());
            }
            v
        }
    })
}

/// Where the tape is.
pub fn mark() -> usize {
    with(|s| if s.replay { s.pos } else { s.tape.len() })
}

/// Make the choices since `mark` once more.
pub fn rewind(mark: usize, end: usize) {
    with(|s| s.again = Some((mark, end)))
}

pub fn take_pending() -> Option<Violation> {
    with(|s| s.pending.take())
}

/// True with probability num/den; false is the simple choice.
pub fn flip(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}

pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}

pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[draw(xs.len() as u64) as usize]
}

/// Weighted choice; index zero is the simple choice.
pub fn weighted(ws: &[u32]) -> usize {
    let total: u32 = ws.iter().sum();
    let mut v = draw(u64::from(total)) as u32;
    for (i, w) in ws.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    0
}

/// Record an event: it goes into the run's hash (determinism, distinctness) and,
/// when verbose, into the trace.
pub fn ev(tag: &'static str, a: u64, b: u64) {
    with(|s| {
        s.hash = mix(mix_str(s.hash, tag), a ^ b.rotate_left(32));
        s.events += 1;
        s.clock += 1_000;
        if s.verbose {
            let line = format!("[{:>5}] {} {} {}", s.events, tag, a, b);
            s.trace.push(line);
        }
    })
}

/// Record a schedule/fault decision; these also make up the interleaving measure.
pub fn sched_ev(tag: &'static str, a: u64, b: u64) {
    with(|s| s.sched_hash = mix(mix_str(s.sched_hash, tag), a ^ b.rotate_left(32)));
    ev(tag, a, b);
}

/// A fault or interleaving decision that really fired.
pub fn fault(kind: &'static str, a: u64, b: u64) {
    stat(kind);
    with(|s| s.nontrivial = true);
    sched_ev(kind, a, b);
}

pub fn mark_nontrivial() {
    with(|s| s.nontrivial = true)
}

pub fn stat(kind: &'static str) {
    stat_n(kind, 1)
}

pub fn stat_n(kind: &'static str, n: u64) {
    with(|s| {
        if s.keep_stats {
            *s.stats.entry(kind).or_insert(0) += n;
        }
    })
}

pub fn hash_bytes(tag: &'static str, b: &[u8]) {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100000001B3);
    }
    ev(tag, h, b.len() as u64);
}

pub fn verbose() -> bool {
    with(|s| s.verbose)
}

pub fn trace_line(l: String) {
    with(|s| {
        let n = s.events;
        s.trace.push(format!("[{n:>5}] {l}"));
    })
}

/// Report a violation from inside a callback; the run fails with it whatever
/// the surrounding call returns.
pub fn report(v: Violation) {
    with(|s| {
        if s.pending.is_none() {
            s.pending = Some(v);
        }
    })
}

pub fn has_pending() -> bool {
    with(|s| s.pending.is_some())
}

pub fn advance_clock(ns: u64) {
    with(|s| s.clock = s.clock.saturating_add(ns))
}

pub fn clock() -> u64 {
    with(|s| s.clock)
}

pub fn totals() -> (BTreeMap<&'static str, u64>, u64, u64) {
    with(|s| (s.stats.clone(), s.clock_total, s.steps_total))
}
