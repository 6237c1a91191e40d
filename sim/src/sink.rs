//! Simulated writers: the disk / pipe / socket / terminal the formatter writes
//! to. Every call is a decision point of the tape.

use std::io;

use crate::sim::{self, Violation};
use crate::{alloc, sched};

/// Payload of injected crashes (unwinding out of a writer, item or iterator).
pub struct Injected(pub &'static str);

pub fn crash(what: &'static str) -> ! {
    std::panic::resume_unwind(Box::new(Injected(what)))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HardKind {
    Io(u8),
    Zero,
    FmtErr,
    Crash,
}

pub const IO_KINDS: [(io::ErrorKind, &str); 6] = [
    (io::ErrorKind::StorageFull, "disk_full"),
    (io::ErrorKind::BrokenPipe, "broken_pipe"),
    (io::ErrorKind::WouldBlock, "would_block"),
    (io::ErrorKind::TimedOut, "timed_out"),
    (io::ErrorKind::UnexpectedEof, "unexpected_eof"),
    (io::ErrorKind::Other, "io_other"),
];

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Out of eight calls, how many are short.
    pub short: u64,
    /// Out of eight calls, how many are interrupted first.
    pub eintr: u64,
    /// Out of eight calls, how many are slow.
    pub delay: u64,
    /// Short writes deliver a single byte.
    pub tiny: bool,
    /// Yield to other tasks at every call.
    pub yields: bool,
    /// The call (counted from zero) that fails for good, and how.
    pub hard: Option<(u64, HardKind)>,
    /// Bytes accepted before the disk is full (fails for good afterwards).
    pub capacity: Option<usize>,
    /// A failure that happens once; later calls would be accepted again.
    pub transient: bool,
    /// Deliver a part of the data in the failing call itself (torn write).
    pub torn: bool,
}

impl Plan {
    /// Benign behaviour only: everything is accepted eventually.
    pub fn benign() -> Plan {
        let mode = sim::weighted(&[2, 3, 3, 2, 2]);
        let mut p = Plan { yields: true, ..Plan::default() };
        match mode {
            0 => {}
            1 => {
                p.short = sim::range(1, 7);
                p.tiny = sim::flip(1, 3);
            }
            2 => {
                p.short = sim::range(1, 7);
                p.eintr = sim::range(1, 4);
                p.delay = sim::draw(3);
            }
            3 => p.eintr = sim::range(1, 6),
            _ => {
                p.short = 8;
                p.tiny = true;
                p.delay = sim::draw(2);
            }
        }
        p
    }
}

pub type Hook = Box<dyn FnMut(u64) + Send>;

pub struct Sink {
    pub data: Vec<u8>,
    pub calls: u64,
    pub plan: Plan,
    pub failed: bool,
    pub after_fail: u64,
    pub max_calls: u64,
    eintr_run: u32,
    pub id: u64,
    /// Called at every call (re-entrancy).
    pub hook: Option<Hook>,
}

impl Sink {
    pub fn new(id: u64, plan: Plan) -> Sink {
        Sink {
            data: Vec::new(),
            calls: 0,
            plan,
            failed: false,
            after_fail: 0,
            max_calls: 4_000_000,
            eintr_run: 0,
            id,
            hook: None,
        }
    }
    /// A writer that gets `len` bytes must not be called more often than this:
    /// at most one byte per call, each preceded by bounded interruptions.
    pub fn bound(mut self, len: usize) -> Sink {
        self.max_calls = (len as u64 + 64) * 8 + 1024;
        self
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.data).into_owned()
    }

    fn enter(&mut self) {
        self.calls += 1;
        crate::cb::note_use();
        if self.calls > self.max_calls {
            sim::report(Violation::new(
                "livelock",
                format!("writer {} was called {} times for {} bytes", self.id, self.calls, self.data.len()),
            ));
            crash("livelock");
        }
        if self.plan.yields {
            sched::yield_point("write", self.id);
        }
        if let Some(mut h) = self.hook.take() {
            h(self.calls);
            self.hook = Some(h);
        }
    }

    fn due(&self) -> Option<HardKind> {
        match self.plan.hard {
            Some((at, k)) if at + 1 == self.calls => Some(k),
            _ => None,
        }
    }
}

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _d = alloc::disarm();
        self.enter();
        if self.failed {
            self.after_fail += 1;
            sim::ev("write_after_failure", self.id, buf.len() as u64);
            if !self.plan.transient {
                return Err(io::Error::from(io::ErrorKind::BrokenPipe));
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(k) = self.due() {
            self.failed = true;
            if self.plan.torn && buf.len() > 1 {
                let n = 1 + sim::draw(buf.len() as u64 - 1) as usize;
                self.data.extend_from_slice(&buf[..n]);
                sim::fault("torn_write", n as u64, buf.len() as u64);
                // The failure itself is reported on the next call.
                if let Some((at, _)) = &mut self.plan.hard {
                    *at += 1;
                }
                self.failed = false;
                self.plan.torn = false;
                return Ok(n);
            }
            return match k {
                HardKind::Io(i) => {
                    let (kind, name) = IO_KINDS[i as usize % IO_KINDS.len()];
                    sim::fault(name, self.calls, self.data.len() as u64);
                    Err(io::Error::from(kind))
                }
                HardKind::FmtErr => {
                    sim::fault("io_invalid", self.calls, self.data.len() as u64);
                    Err(io::Error::from(io::ErrorKind::InvalidData))
                }
                HardKind::Zero => {
                    sim::fault("zero_write", self.calls, self.data.len() as u64);
                    Ok(0)
                }
                HardKind::Crash => {
                    sim::fault("crash_in_write", self.calls, self.data.len() as u64);
                    crash("crash in write")
                }
            };
        }
        if self.eintr_run < 4 && self.plan.eintr > 0 && sim::flip(self.plan.eintr, 8) {
            self.eintr_run += 1;
            sim::fault("eintr", self.calls, 0);
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.eintr_run = 0;
        if self.plan.delay > 0 && sim::flip(self.plan.delay, 8) {
            let ns = 1_000_000 * sim::range(1, 5_000);
            sim::advance_clock(ns);
            sim::fault("slow_write", self.calls, ns);
        }
        let mut n = buf.len();
        if self.plan.short > 0 && n > 1 && sim::flip(self.plan.short, 8) {
            n = if self.plan.tiny { 1 } else { 1 + sim::draw(n as u64 - 1) as usize };
            sim::fault("short_write", n as u64, buf.len() as u64);
            if std::str::from_utf8(&buf[..n]).is_err() {
                sim::stat("short_write_inside_char");
            }
        }
        if let Some(cap) = self.plan.capacity {
            let room = cap.saturating_sub(self.data.len());
            if room == 0 {
                self.failed = true;
                sim::fault("disk_full", self.calls, self.data.len() as u64);
                return Err(io::Error::from(io::ErrorKind::StorageFull));
            }
            n = n.min(room);
        }
        sim::ev("write", self.id, n as u64);
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _d = alloc::disarm();
        self.enter();
        if self.failed {
            self.after_fail += 1;
            sim::ev("write_after_failure", self.id, s.len() as u64);
            if !self.plan.transient {
                return Err(std::fmt::Error);
            }
        }
        if let Some(k) = self.due() {
            self.failed = true;
            if self.plan.torn && s.len() > 1 {
                let mut n = sim::draw(s.len() as u64) as usize;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.data.extend_from_slice(&s.as_bytes()[..n]);
                sim::fault("torn_write", n as u64, s.len() as u64);
            }
            return match k {
                HardKind::Crash => {
                    sim::fault("crash_in_write", self.calls, self.data.len() as u64);
                    crash("crash in write")
                }
                _ => {
                    sim::fault("fmt_error", self.calls, self.data.len() as u64);
                    Err(std::fmt::Error)
                }
            };
        }
        if let Some(cap) = self.plan.capacity {
            if self.data.len() + s.len() > cap {
                self.failed = true;
                sim::fault("disk_full", self.calls, self.data.len() as u64);
                return Err(std::fmt::Error);
            }
        }
        if self.plan.delay > 0 && sim::flip(self.plan.delay, 8) {
            let ns = 1_000_000 * sim::range(1, 5_000);
            sim::advance_clock(ns);
            sim::fault("slow_write", self.calls, ns);
        }
        sim::ev("write", self.id, s.len() as u64);
        self.data.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

pub fn draw_hard_kind(io: bool, allow_crash: bool) -> HardKind {
    if io {
        match sim::weighted(&[8, 2, if allow_crash { 3 } else { 0 }]) {
            0 => HardKind::Io(sim::draw(IO_KINDS.len() as u64) as u8),
            1 => HardKind::Zero,
            _ => HardKind::Crash,
        }
    } else {
        match sim::weighted(&[4, if allow_crash { 2 } else { 0 }]) {
            0 => HardKind::FmtErr,
            _ => HardKind::Crash,
        }
    }
}
