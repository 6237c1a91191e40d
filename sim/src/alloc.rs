//! The allocator seam. Every allocation the library makes while "armed" (that
//! is, inside a call into genco made by a scenario) can be failed, used as a
//! preemption point, moved to another address, or refused by a memory budget.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

thread_local! {
    static BYPASS: Cell<u32> = const { Cell::new(0) };
    static ARMED: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAIL_STICKY: Cell<bool> = const { Cell::new(false) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static YIELD: Cell<bool> = const { Cell::new(false) };
    static SHUFFLE: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<usize> = const { Cell::new(usize::MAX) };
    static MAX_REQ: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}

/// Absolute per-request cap while armed: nothing a scenario does legitimately
/// needs more, so a larger request is refused like an exhausted heap would.
const HARD_CAP: usize = 1 << 30;

pub struct Bypass(());
pub fn bypass() -> Bypass {
    let _ = BYPASS.try_with(|b| b.set(b.get() + 1));
    Bypass(())
}
impl Drop for Bypass {
    fn drop(&mut self) {
        let _ = BYPASS.try_with(|b| b.set(b.get() - 1));
    }
}

/// Arms the allocator seam for the calling thread until dropped.
pub struct Armed(());
pub fn arm() -> Armed {
    ARMED.with(|a| a.set(a.get() + 1));
    Armed(())
}
impl Drop for Armed {
    fn drop(&mut self) {
        ARMED.with(|a| a.set(a.get() - 1));
    }
}

/// Disarms while a callback (sink, item, iterator) runs harness code.
pub struct Disarmed(u32);
pub fn disarm() -> Disarmed {
    Disarmed(ARMED.with(|a| a.replace(0)))
}
impl Drop for Disarmed {
    fn drop(&mut self) {
        ARMED.with(|a| a.set(self.0));
    }
}

pub fn is_armed() -> bool {
    ARMED.try_with(|a| a.get() > 0).unwrap_or(false) && BYPASS.try_with(|b| b.get() == 0).unwrap_or(false)
}

pub fn reset_thread() {
    reset_thread_but_tracking();
    if tracking() {
        track(false);
    }
}

pub fn reset_thread_but_tracking() {
    ARMED.with(|a| a.set(0));
    COUNT.with(|a| a.set(0));
    FAIL_AT.with(|a| a.set(u64::MAX));
    FAIL_STICKY.with(|a| a.set(false));
    FAILED.with(|a| a.set(0));
    YIELD.with(|a| a.set(false));
    SHUFFLE.with(|a| a.set(0));
    BUDGET.with(|a| a.set(usize::MAX));
    MAX_REQ.with(|a| a.set(0));
    REFUSED.with(|a| a.set(0));
}

pub fn set_fail_at(n: Option<u64>, sticky: bool) {
    COUNT.with(|c| c.set(0));
    FAIL_AT.with(|c| c.set(n.unwrap_or(u64::MAX)));
    FAIL_STICKY.with(|c| c.set(sticky));
    FAILED.with(|c| c.set(0));
}
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
pub fn failed() -> u64 {
    FAILED.with(|c| c.get())
}
pub fn set_yield(on: bool) {
    YIELD.with(|c| c.set(on))
}
pub fn set_shuffle(seed: u64) {
    SHUFFLE.with(|c| c.set(seed))
}
pub fn set_budget(b: usize) {
    BUDGET.with(|c| c.set(b));
    MAX_REQ.with(|c| c.set(0));
    REFUSED.with(|c| c.set(0));
}
pub fn max_request() -> usize {
    MAX_REQ.with(|c| c.get())
}
pub fn refused() -> u64 {
    REFUSED.with(|c| c.get())
}
/// Net (bytes, blocks) allocated by this thread, excluding simulator internals.
pub fn live() -> (i64, i64) {
    (LIVE.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}

/// Blocks allocated by this thread while tracking is on and the simulator itself
/// is not at work: open addressing, in memory of its own.
struct Table {
    slots: *mut (usize, usize),
    cap: usize,
    used: usize,
    blocks: usize,
    bytes: usize,
}
const DELETED: usize = 1;
thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static TABLE: std::cell::UnsafeCell<Table> = const {
        std::cell::UnsafeCell::new(Table { slots: std::ptr::null_mut(), cap: 0, used: 0, blocks: 0, bytes: 0 })
    };
}
impl Table {
    unsafe fn resize(&mut self, cap: usize) {
        let old = (self.slots, self.cap);
        self.slots = System.alloc_zeroed(Layout::array::<(usize, usize)>(cap).unwrap()).cast();
        assert!(!self.slots.is_null());
        self.cap = cap;
        self.used = 0;
        for i in 0..old.1 {
            let (p, n) = *old.0.add(i);
            if p > DELETED {
                self.put(p, n);
            }
        }
        if !old.0.is_null() {
            System.dealloc(old.0.cast(), Layout::array::<(usize, usize)>(old.1).unwrap());
        }
    }
    unsafe fn put(&mut self, p: usize, n: usize) {
        let mut i = (p >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> 20;
        loop {
            i &= self.cap - 1;
            let s = self.slots.add(i);
            if (*s).0 <= DELETED {
                // The same few addresses come and go all the time.
                self.used += usize::from((*s).0 == 0);
                *s = (p, n);
                return;
            }
            i += 1;
        }
    }
    unsafe fn add(&mut self, p: usize, n: usize) {
        if (self.used + 1) * 2 > self.cap {
            let cap = (self.blocks * 4).max(1024).next_power_of_two();
            self.resize(cap);
        }
        self.put(p, n);
        self.blocks += 1;
        self.bytes += n;
    }
    unsafe fn remove(&mut self, p: usize) {
        if self.cap == 0 {
            return;
        }
        let mut i = (p >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> 20;
        loop {
            i &= self.cap - 1;
            let s = self.slots.add(i);
            if (*s).0 == 0 {
                return;
            }
            if (*s).0 == p {
                self.blocks -= 1;
                self.bytes -= (*s).1;
                (*s).0 = DELETED;
                return;
            }
            i += 1;
        }
    }
}
pub fn track(on: bool) {
    TRACK.with(|t| t.set(on));
    TABLE.with(|t| unsafe {
        let t = &mut *t.get();
        if !t.slots.is_null() {
            System.dealloc(t.slots.cast(), Layout::array::<(usize, usize)>(t.cap).unwrap());
        }
        *t = Table { slots: std::ptr::null_mut(), cap: 0, used: 0, blocks: 0, bytes: 0 };
    });
}
/// Tracked (blocks, bytes) not released yet.
pub fn tracked() -> (usize, usize) {
    TABLE.with(|t| unsafe {
        let t = &*t.get();
        (t.blocks, t.bytes)
    })
}
/// Sizes of tracked blocks not released yet.
pub fn tracked_sizes() -> Vec<usize> {
    let _b = bypass();
    TABLE.with(|t| unsafe {
        let t = &*t.get();
        let mut v: Vec<usize> = (0..t.cap).map(|i| *t.slots.add(i)).filter(|s| s.0 > DELETED).map(|s| s.1).collect();
        v.sort();
        v
    })
}
#[inline]
fn tracking() -> bool {
    TRACK.try_with(|t| t.get()).unwrap_or(false)
}
fn track_alloc(p: *mut u8, n: usize) {
    if tracking() && !p.is_null() && BYPASS.try_with(|b| b.get()).unwrap_or(1) == 0 {
        let _ = TABLE.try_with(|t| unsafe { (*t.get()).add(p as usize, n) });
    }
}
fn track_free(p: *mut u8) {
    if tracking() {
        let _ = TABLE.try_with(|t| unsafe { (*t.get()).remove(p as usize) });
    }
}

/// Payload of the panic an injected allocation failure turns into.
pub struct Oom;

pub fn install_oom_hook() {
    // Templates, which is what stable compilers are used for, are not run out of memory.
    #[cfg(not(feature = "stable-compiler"))]
    std::alloc::set_alloc_error_hook(|_| {
        // Memory is available again while the failure unwinds.
        let _b = bypass();
        std::panic::resume_unwind(Box::new(Oom));
    });
}

unsafe fn shuffled(layout: Layout) -> *mut u8 {
    let mut s = SHUFFLE.with(|c| c.get());
    if s == 0 {
        return System.alloc(layout);
    }
    let r = crate::sim::splitmix(&mut s);
    SHUFFLE.with(|c| c.set(s | 1));
    if r & 1 == 0 {
        return System.alloc(layout);
    }
    // Take two blocks and give one back, so that addresses (and their relative
    // order) differ from what the allocator would have picked.
    let a = System.alloc(layout);
    let b = System.alloc(layout);
    if a.is_null() || b.is_null() {
        return if a.is_null() { b } else { a };
    }
    if r & 2 == 0 {
        System.dealloc(a, layout);
        b
    } else {
        System.dealloc(b, layout);
        a
    }
}

fn account(delta: i64, blocks: i64) {
    if BYPASS.try_with(|b| b.get()).unwrap_or(1) == 0 {
        let _ = LIVE.try_with(|c| c.set(c.get() + delta));
        let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !is_armed() {
            account(layout.size() as i64, 1);
            let p = System.alloc(layout);
            track_alloc(p, layout.size());
            return p;
        }
        let n = COUNT.with(|c| {
            let n = c.get();
            c.set(n + 1);
            n
        });
        let at = FAIL_AT.with(|c| c.get());
        if n == at || (n > at && FAIL_STICKY.with(|c| c.get())) {
            FAILED.with(|c| c.set(c.get() + 1));
            return std::ptr::null_mut();
        }
        let size = layout.size();
        MAX_REQ.with(|c| c.set(c.get().max(size)));
        if size > BUDGET.with(|c| c.get()) || size > HARD_CAP || LIVE.with(|c| c.get()) > HARD_CAP as i64 {
            REFUSED.with(|c| c.set(c.get() + 1));
            return std::ptr::null_mut();
        }
        if YIELD.with(|c| c.get()) {
            let _d = disarm();
            crate::sched::yield_point("alloc", size as u64);
        }
        let p = shuffled(layout);
        if !p.is_null() {
            account(size as i64, 1);
            track_alloc(p, size);
            // Fresh memory has unspecified content.
            std::ptr::write_bytes(p, 0xA5, size);
        }
        p
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        account(-(layout.size() as i64), -1);
        track_free(ptr);
        if is_armed() {
            std::ptr::write_bytes(ptr, 0xDD, layout.size());
        }
        System.dealloc(ptr, layout)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if !is_armed() {
            account(new_size as i64 - layout.size() as i64, 0);
            track_free(ptr);
            let p = System.realloc(ptr, layout, new_size);
            track_alloc(if p.is_null() { ptr } else { p }, if p.is_null() { layout.size() } else { new_size });
            return p;
        }
        let new_layout = Layout::from_size_align_unchecked(new_size, layout.align());
        let p = self.alloc(new_layout);
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(ptr, p, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        p
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;
