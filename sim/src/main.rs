#![cfg_attr(not(feature = "stable-compiler"), feature(alloc_error_hook))]
#![cfg_attr(feature = "stable-compiler", allow(dead_code, unused))]
//! Deterministic simulation of genco: see /verif/DESIGN.md.

mod alloc;
mod cb;
mod custom;
mod env;
mod exec;
mod gen;
mod history;
mod kits;
mod model;
mod props;
mod run;
mod sched;
mod sim;
mod sink;
mod supervise;

use std::cell::RefCell;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn last_panic_location() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let _b = alloc::bypass();
        let loc = match info.location() {
            Some(l) => format!("(at {}:{})", short(l.file()), l.line()),
            None => String::new(),
        };
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = loc);
    }));
    alloc::install_oom_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(supervise::main(&args));
}

/// Paths in messages must not depend on where the sources are checked out.
fn short(f: &str) -> String {
    match f.rfind("/src/") {
        Some(i) => f[i + 1..].to_string(),
        None => f.to_string(),
    }
}
