//! A baton scheduler over real threads: exactly one task runs at a time and the
//! tape decides, at every yield point (sink call, callback, iterator step,
//! allocation), whether another task gets the baton.

use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

use crate::{alloc, env, sim};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    /// Holds the baton but is stuck in a lock of the code under test.
    Stuck,
    Done,
}

struct State {
    current: usize,
    st: Vec<St>,
    progress: u64,
    dead: bool,
}

struct Shared {
    m: Mutex<State>,
    cvs: Vec<Condvar>,
}

thread_local! {
    static TASK: Cell<Option<(usize, *const Shared)>> = const { Cell::new(None) };
    static COUNTDOWN: Cell<u64> = const { Cell::new(u64::MAX) };
    static MEAN: Cell<u64> = const { Cell::new(0) };
}

fn lock(s: &Shared) -> MutexGuard<'_, State> {
    match s.m.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

/// How long a baton holder may make no progress before it is considered stuck.
const STUCK: Duration = Duration::from_millis(2500);

fn next_countdown(mean: u64) -> u64 {
    if mean == 0 {
        return u64::MAX;
    }
    match sim::draw(2 * mean + 1) {
        0 => u64::MAX,
        n => n - 1,
    }
}

fn wait_for_turn(sh: &Shared, me: usize) {
    let mut g = lock(sh);
    let mut seen = g.progress;
    while g.current != me {
        let (ng, to) = match sh.cvs[me].wait_timeout(g, STUCK) {
            Ok(x) => x,
            Err(e) => e.into_inner(),
        };
        g = ng;
        if g.current == me {
            break;
        }
        if to.timed_out() {
            let cur = g.current;
            let cur_busy = cur < g.st.len() && g.st[cur] == St::Ready;
            let lowest = (0..g.st.len()).find(|i| *i != cur && g.st[*i] == St::Ready);
            if g.progress == seen && cur_busy && lowest == Some(me) {
                // The holder waits for something only another task can release.
                g.st[cur] = St::Stuck;
                g.current = me;
                g.progress += 1;
                sim::stat("sched_stuck_handover");
                break;
            }
            seen = g.progress;
        }
    }
}

/// A point at which another task may be scheduled.
pub fn yield_point(tag: &'static str, info: u64) {
    if std::thread::panicking() {
        return;
    }
    let Some((me, sh)) = TASK.with(|t| t.get()) else {
        return;
    };
    let c = COUNTDOWN.with(|c| c.get());
    if c > 0 {
        COUNTDOWN.with(|x| x.set(c.saturating_sub(if c == u64::MAX { 0 } else { 1 })));
        let sh = unsafe { &*sh };
        let mut g = lock(sh);
        g.progress += 1;
        if g.current != me {
            // We were declared stuck and have come back.
            g.st[me] = St::Ready;
            drop(g);
            wait_for_turn(sh, me);
        }
        return;
    }
    let _b = alloc::bypass();
    let sh = unsafe { &*sh };
    let mean = MEAN.with(|m| m.get());
    COUNTDOWN.with(|x| x.set(next_countdown(mean)));
    let mut g = lock(sh);
    g.progress += 1;
    if g.current != me {
        g.st[me] = St::Ready;
        drop(g);
        wait_for_turn(sh, me);
        return;
    }
    let n = g.st.len();
    // Candidates rotated so that index zero is the current task.
    let mut cand = [0usize; 24];
    let mut k = 0;
    for d in 0..n {
        let i = (me + d) % n;
        if g.st[i] == St::Ready {
            cand[k] = i;
            k += 1;
        }
    }
    if k <= 1 {
        return;
    }
    let next = cand[sim::draw(k as u64) as usize];
    if next != me {
        sim::fault("context_switch", me as u64, next as u64);
        sim::sched_ev(tag, info, 0);
        g.current = next;
        sh.cvs[next].notify_all();
        drop(g);
        wait_for_turn(sh, me);
    }
}

fn finish(sh: &Shared, me: usize) {
    let _b = alloc::bypass();
    let mut g = lock(sh);
    if g.current != me {
        g.st[me] = St::Ready;
        drop(g);
        wait_for_turn(sh, me);
        g = lock(sh);
    }
    g.st[me] = St::Done;
    g.progress += 1;
    let ready: Vec<usize> = (0..g.st.len()).filter(|i| g.st[*i] == St::Ready).collect();
    if ready.is_empty() {
        // Either everything is done, or the rest is stuck; whoever gets
        // unstuck takes over.
        let stuck = (0..g.st.len()).find(|i| g.st[*i] == St::Stuck);
        g.current = stuck.unwrap_or(usize::MAX);
        sh.cvs[g.st.len()].notify_all();
        for c in &sh.cvs {
            c.notify_all();
        }
        return;
    }
    let next = ready[sim::draw(ready.len() as u64) as usize];
    sim::sched_ev("task_done", me as u64, next as u64);
    g.current = next;
    sh.cvs[next].notify_all();
}

pub struct Policy {
    /// Mean number of yield points between preemptions; zero: run to completion.
    pub mean: u64,
    /// Allocations are yield points, too.
    pub alloc_yields: bool,
}

pub fn draw_policy() -> Policy {
    let mean = [0u64, 1, 2, 4, 10, 40][sim::draw(6) as usize];
    Policy { mean, alloc_yields: mean > 0 && sim::flip(1, 2) }
}

pub type Task = Box<dyn FnOnce() + Send>;

/// Runs the tasks to completion under the scheduler. Returns their results, or
/// `Err` if they block each other forever.
pub fn run(tasks: Vec<Task>, policy: &Policy, env_seed: u64) -> Result<Vec<std::thread::Result<()>>, String> {
    let n = tasks.len();
    assert!(n <= 24);
    let sh = Arc::new(Shared {
        m: Mutex::new(State { current: usize::MAX, st: vec![St::Ready; n], progress: 0, dead: false }),
        cvs: (0..n + 1).map(|_| Condvar::new()).collect(),
    });
    let first = sim::draw(n as u64) as usize;
    let (mean, alloc_yields) = (policy.mean, policy.alloc_yields);
    let mut handles = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        let sh = sh.clone();
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .name(format!("task-{i}"))
            .spawn(move || {
                alloc::reset_thread();
                env::set_thread_seed(sim::mix(env_seed, i as u64));
                env::set_clock_base(sim::mix(env_seed, 1000 + i as u64) % (4 << 60));
                TASK.with(|c| c.set(Some((i, Arc::as_ptr(&sh)))));
                MEAN.with(|c| c.set(mean));
                wait_for_turn(&sh, i);
                COUNTDOWN.with(|c| c.set(next_countdown(mean)));
                alloc::set_yield(alloc_yields);
                let r = catch_unwind(AssertUnwindSafe(t));
                alloc::reset_thread();
                finish(&sh, i);
                TASK.with(|c| c.set(None));
                r
            })
            .expect("spawn");
        handles.push(h);
    }
    {
        let mut g = lock(&sh);
        g.current = first;
        sim::sched_ev("task_start", first as u64, n as u64);
        sh.cvs[first].notify_all();
    }
    // Wait, noticing global lack of progress.
    {
        let mut g = lock(&sh);
        let mut last = g.progress;
        let mut idle = 0u32;
        while g.st.iter().any(|s| *s != St::Done) {
            let (ng, to) = match sh.cvs[n].wait_timeout(g, Duration::from_millis(500)) {
                Ok(x) => x,
                Err(e) => e.into_inner(),
            };
            g = ng;
            if g.progress != last {
                last = g.progress;
                idle = 0;
            } else if to.timed_out() {
                idle += 1;
                if idle > 40 {
                    g.dead = true;
                    let st: Vec<String> = g.st.iter().map(|s| format!("{s:?}")).collect();
                    return Err(format!("tasks make no progress: {}", st.join(", ")));
                }
            }
        }
    }
    Ok(handles.into_iter().map(|h| h.join().unwrap_or_else(Err)).collect())
}
