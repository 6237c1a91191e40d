//! Interposed environment: randomness and clocks as seen by code that runs
//! inside an armed region are functions of the run's seed and simulated time.

use std::cell::Cell;

use crate::alloc;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0) };
    static CLOCK_BASE: Cell<u64> = const { Cell::new(0) };
    static RANDOM_CALLS: Cell<u64> = const { Cell::new(0) };
    static CLOCK_CALLS: Cell<u64> = const { Cell::new(0) };
    static ENV_SALT: Cell<u64> = const { Cell::new(0) };
}

/// What the calling thread sees of the process environment while armed.
pub fn set_env_salt(s: u64) {
    ENV_SALT.with(|c| c.set(s));
}

/// Seed for everything the calling thread obtains from the system's random
/// source; std draws its hash-map keys from it once per thread.
pub fn set_thread_seed(s: u64) {
    SEED.with(|c| c.set(s | 1));
}
pub fn set_clock_base(ns: u64) {
    CLOCK_BASE.with(|c| c.set(ns));
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

fn fill(buf: *mut u8, len: usize) {
    let mut s = SEED.try_with(|c| c.get()).unwrap_or(1);
    let mut i = 0;
    while i < len {
        let r = crate::sim::splitmix(&mut s).to_le_bytes();
        for b in r {
            if i < len {
                unsafe { *buf.add(i) = b };
                i += 1;
            }
        }
    }
    let _ = SEED.try_with(|c| c.set(s | 1));
    let _ = RANDOM_CALLS.try_with(|c| c.set(c.get() + 1));
}

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

#[no_mangle]
pub extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    fill(buf, len);
    0
}

#[no_mangle]
pub extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    if alloc::is_armed() {
        let _d = alloc::disarm();
        let _ = CLOCK_CALLS.try_with(|c| c.set(c.get() + 1));
        let ns = CLOCK_BASE.with(|c| c.get()).wrapping_add(crate::sim::clock());
        unsafe {
            (*ts).sec = (ns / 1_000_000_000) as i64;
            (*ts).nsec = (ns % 1_000_000_000) as i64;
        }
        return 0;
    }
    unsafe { syscall(228, clock as i64, ts) as i32 }
}

extern "C" {
    static environ: *const *const u8;
}

unsafe fn real_getenv(name: *const u8) -> *const u8 {
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let mut i = 0;
        loop {
            let (a, b) = (*(*e).add(i), *name.add(i));
            if b == 0 {
                if a == b'=' {
                    return (*e).add(i + 1);
                }
                break;
            }
            if a != b {
                break;
            }
            i += 1;
        }
        e = e.add(1);
    }
    std::ptr::null()
}

const VALUES: [&str; 6] = ["\0", "1\0", "0\0", "/nonexistent\0", "C.UTF-8\0", "true\0"];

/// Environment variables read by the code under test vary from run to run.
#[no_mangle]
pub extern "C" fn getenv(name: *const u8) -> *const u8 {
    if !alloc::is_armed() {
        return unsafe { real_getenv(name) };
    }
    let _d = alloc::disarm();
    crate::sim::stat("seam_getenv");
    let mut h = ENV_SALT.with(|c| c.get());
    let mut i = 0;
    unsafe {
        while *name.add(i) != 0 {
            h = crate::sim::mix(h, u64::from(*name.add(i)));
            i += 1;
        }
    }
    match (h % 8) as usize {
        n if n < VALUES.len() => VALUES[n].as_ptr(),
        _ => std::ptr::null(),
    }
}

/// Same for the working directory and the process id.
#[no_mangle]
pub extern "C" fn getcwd(buf: *mut u8, size: usize) -> *mut u8 {
    if !alloc::is_armed() {
        let r = unsafe { syscall(79, buf, size) };
        return if r < 0 { std::ptr::null_mut() } else { buf };
    }
    let _d = alloc::disarm();
    crate::sim::stat("seam_getcwd");
    let s = ENV_SALT.with(|c| c.get());
    let dirs = ["/\0", "/tmp\0", "/a/very/long/working/directory\0", "/repo\0"];
    let d = dirs[(s % 4) as usize];
    if buf.is_null() || size < d.len() {
        return std::ptr::null_mut();
    }
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len()) };
    buf
}

#[no_mangle]
pub extern "C" fn getpid() -> i32 {
    if alloc::is_armed() {
        let _d = alloc::disarm();
        crate::sim::stat("seam_getpid");
        return 2 + (ENV_SALT.with(|c| c.get()) % 30_000) as i32;
    }
    unsafe { syscall(39) as i32 }
}

fn salt(name: &'static str) -> u64 {
    let _d = alloc::disarm();
    crate::sim::stat(name);
    ENV_SALT.with(|c| c.get())
}

/// Same for the machine: its number of processors, its users, its terminal.
#[no_mangle]
pub extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> i32 {
    if !alloc::is_armed() {
        let r = unsafe { syscall(204, pid as i64, size, mask) };
        if r < 0 {
            return -1;
        }
        unsafe { std::ptr::write_bytes(mask.add(r as usize), 0, size - r as usize) };
        return 0;
    }
    let n = 1 + (salt("seam_sched_getaffinity") % 64) as usize;
    for i in 0..size {
        let bits = n.saturating_sub(i * 8).min(8);
        unsafe { *mask.add(i) = ((1u16 << bits) - 1) as u8 };
    }
    0
}

#[no_mangle]
pub extern "C" fn isatty(fd: i32) -> i32 {
    if alloc::is_armed() {
        return (salt("seam_isatty") & 1) as i32;
    }
    let mut termios = [0u8; 256];
    i32::from(unsafe { syscall(16, fd as i64, 0x5401, termios.as_mut_ptr()) } == 0)
}

#[no_mangle]
pub extern "C" fn getuid() -> u32 {
    if alloc::is_armed() {
        return (salt("seam_getuid") % 3 * 1000) as u32;
    }
    unsafe { syscall(102) as u32 }
}

#[no_mangle]
pub extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    clock_gettime(0, &mut ts);
    if !t.is_null() {
        unsafe { *t = ts.sec };
    }
    ts.sec
}

/// Files of the machine, such as configuration files, may or may not exist.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if alloc::is_armed() {
        let s = salt("seam_open");
        if s & 1 == 0 {
            *__errno_location() = 2;
            return -1;
        }
        // An anonymous file with something in it.
        let fd = syscall(319, b"f\0".as_ptr(), 1i64) as i32;
        let text = if s & 2 == 0 { "2\n" } else { "indent_style = tab\nindent_size = 8\n" };
        syscall(1, i64::from(fd), text.as_ptr(), text.len());
        syscall(8, i64::from(fd), 0i64, 0i64);
        return fd;
    }
    let r = syscall(257, -100i64, path, i64::from(flags), i64::from(mode));
    r as i32
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// What code inside an armed region can still see of the real machine, among
/// what std reads through the functions above.
pub fn unseamed() -> Vec<&'static str> {
    use std::io::{IsTerminal, Read};
    let look = |salt: u64| {
        set_env_salt(salt);
        set_clock_base(salt << 40);
        let _a = alloc::arm();
        let mut text = String::new();
        if let Ok(mut f) = std::fs::File::open("/etc/genco.conf") {
            let _ = f.read_to_string(&mut text);
        }
        let cpus = std::thread::available_parallelism().map_or(0, usize::from);
        let time = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos());
        [
            ("files", text),
            ("processors", cpus.to_string()),
            ("terminal", std::io::stdout().is_terminal().to_string()),
            ("clock", time.to_string()),
            ("process id", std::process::id().to_string()),
            ("environment", format!("{:?}", std::env::var("HOME"))),
            ("working directory", format!("{:?}", std::env::current_dir())),
        ]
    };
    let seen: Vec<_> = (0..16u64).map(|s| look(s * 7 + 1)).collect();
    (0..seen[0].len()).filter(|&i| seen.iter().all(|s| s[i].1 == seen[0][i].1)).map(|i| seen[0][i].0).collect()
}
