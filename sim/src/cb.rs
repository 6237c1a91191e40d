//! Callback seam: every hook and item of the custom language passes through
//! here, and so do the harness's own iterators and Display values. A plan makes
//! the n-th callback fail or crash; a hook can re-enter genco.

use std::cell::{Cell, RefCell};

use crate::sink::crash;
use crate::{alloc, sched, sim};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Err,
    Crash,
}

type Hook = Box<dyn FnMut(u64)>;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static MODE: Cell<Mode> = const { Cell::new(Mode::Err) };
    /// A callback failed; nothing may be written or called from now on.
    static POISON: Cell<bool> = const { Cell::new(false) };
    static AFTER: Cell<u64> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    static CLONE_COUNT: Cell<u64> = const { Cell::new(0) };
    static CLONE_FAIL: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub fn plan(fail_at: Option<u64>, mode: Mode) {
    COUNT.with(|c| c.set(0));
    FAIL_AT.with(|c| c.set(fail_at.unwrap_or(u64::MAX)));
    MODE.with(|c| c.set(mode));
    POISON.with(|c| c.set(false));
    AFTER.with(|c| c.set(0));
}

pub fn reset() {
    plan(None, Mode::Err);
    set_hook(None);
    plan_clone(None);
}

pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
pub fn poisoned() -> bool {
    POISON.with(|c| c.get())
}
pub fn after() -> u64 {
    AFTER.with(|c| c.get())
}
pub fn note_use() {
    if poisoned() {
        AFTER.with(|c| c.set(c.get() + 1));
    }
}

pub fn set_hook(h: Option<Hook>) {
    let old = HOOK.with(|c| std::mem::replace(&mut *c.borrow_mut(), h));
    drop(old);
}

pub fn call(tag: &'static str) -> std::fmt::Result {
    let _d = alloc::disarm();
    note_use();
    let n = COUNT.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    sched::yield_point(tag, n);
    let h = HOOK.with(|c| c.borrow_mut().take());
    if let Some(mut h) = h {
        h(n);
        HOOK.with(|c| {
            let mut b = c.borrow_mut();
            if b.is_none() {
                *b = Some(h);
            }
        });
    }
    if n == FAIL_AT.with(|c| c.get()) {
        POISON.with(|c| c.set(true));
        return match MODE.with(|c| c.get()) {
            Mode::Err => {
                sim::fault("callback_error", n, 0);
                Err(std::fmt::Error)
            }
            Mode::Crash => {
                sim::fault("callback_crash", n, 0);
                crash("crash in callback")
            }
        };
    }
    Ok(())
}

/// Make the n-th clone of a custom item crash.
pub fn plan_clone(at: Option<u64>) {
    CLONE_COUNT.with(|c| c.set(0));
    CLONE_FAIL.with(|c| c.set(at.unwrap_or(u64::MAX)));
}

pub fn on_clone() {
    let n = CLONE_COUNT.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    if n == CLONE_FAIL.with(|c| c.get()) && !std::thread::panicking() {
        let _d = alloc::disarm();
        sim::fault("clone_crash", n, 0);
        crash("crash in clone")
    }
}
