//! The command line: checks spread runs over worker processes, watch them,
//! confirm and shrink what they find, and write replay files and evidence.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::env;
use crate::props::{self, Prop};
use crate::run;
use crate::sim::{self, Source};

const WORKERS: u64 = 8;
/// A run takes milliseconds; one that takes this long does not terminate.
const HANG: Duration = Duration::from_secs(60);

pub fn main(args: &[String]) -> i32 {
    let arg = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    match args.first().map(String::as_str) {
        Some("check") => {
            let prop = arg("--prop").expect("--prop");
            let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let Some(p) = props::find(&prop) else {
                eprintln!("no such property: {prop}");
                return 2;
            };
            let runs = arg("--runs").and_then(|r| r.parse().ok());
            check(p, &tier, seed, runs)
        }
        Some("worker") => worker(&arg),
        Some("exec-file") => exec_file(Path::new(&args[1]), arg("--log"), args.iter().any(|a| a == "--quiet")),
        Some("shrink") => shrink_file(Path::new(&args[1]), Path::new(&args[2])),
        Some("digests") => {
            let n = arg("--count").unwrap().parse().unwrap();
            let v: u64 = arg("--variant").unwrap().parse().unwrap();
            let p = props::find(&arg("--prop").unwrap()).unwrap();
            digests(p, seed, n, v)
        }
        Some("replay") => replay(Path::new(&args[1])),
        Some("selftest") => selftest(seed, arg("--count").and_then(|c| c.parse().ok()).unwrap_or(200)),
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.quick);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check --prop ID [--tier quick|thorough] | replay FILE | selftest | list");
            2
        }
    }
}

// ---------------------------------------------------------------- processes

extern "C" {
    fn personality(p: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// A child running this program. The variant decides what its process
/// environment looks like; addresses are not randomised, memory is bounded.
fn child(variant: u64, scratch: &Path) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.stdin(Stdio::null());
    c.env("LANG", ["C", "en_US.UTF-8", "tr_TR.UTF-8", "ja_JP.SJIS"][(variant % 4) as usize]);
    c.env("TZ", ["UTC", "Asia/Tokyo", "America/St_Johns"][(variant % 3) as usize]);
    c.env("USER", format!("user{variant}"));
    if variant % 2 == 1 {
        c.env("SOURCE_DATE_EPOCH", format!("{}", variant * 86_400));
        c.env("NO_COLOR", "1");
        c.env("GENCO_VARIANT", "x".repeat(variant as usize * 37));
    } else {
        c.env_remove("HOME");
    }
    c.env_remove("RUST_BACKTRACE");
    let cwd = scratch.join(format!("cwd{}", variant % 3));
    let _ = std::fs::create_dir_all(&cwd);
    if variant > 0 && cwd.is_dir() {
        c.current_dir(cwd);
    }
    unsafe {
        c.pre_exec(|| {
            personality(0x0040000);
            setrlimit(9, &[6u64 << 30, 6u64 << 30]);
            setrlimit(4, &[0, 0]);
            // Do not outlive the supervisor.
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
    c
}

enum Exit {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn wait(mut c: Child, limit: Duration) -> Exit {
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                return match s.code() {
                    Some(c) => Exit::Code(c),
                    None => Exit::Signal(s.signal().unwrap_or(0)),
                }
            }
            Ok(None) => {}
            Err(_) => return Exit::Code(2),
        }
        if start.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return Exit::Timeout;
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_millis(200) { 2 } else { 20 }));
    }
}

// ---------------------------------------------------------------- replay files

#[derive(Clone, Debug)]
struct Replay {
    prop: String,
    seed: u64,
    run: u64,
    variant: u64,
    /// Runs executed earlier in the same process.
    prefix: Vec<u64>,
    tape: Option<Vec<u32>>,
    class: String,
    msg: String,
    trace: Vec<String>,
}

impl Replay {
    fn write(&self, path: &Path) {
        let mut s = String::new();
        let _ = writeln!(s, "genco-sim replay v1");
        let _ = writeln!(s, "property: {}", self.prop);
        let _ = writeln!(s, "verif_seed: {}", self.seed);
        let _ = writeln!(s, "run: {}", self.run);
        let _ = writeln!(s, "run_seed: {:#018x}", run::run_seed(self.seed, &self.prop, self.run));
        let _ = writeln!(s, "variant: {}", self.variant);
        let _ = writeln!(s, "prefix: {}", join(&self.prefix));
        match &self.tape {
            Some(t) => {
                let _ = writeln!(s, "tape: {}", join(t));
            }
            None => {
                let _ = writeln!(s, "tape: from-seed");
            }
        }
        let _ = writeln!(s, "class: {}", self.class);
        let _ = writeln!(s, "message: {}", self.msg.replace('\n', "\\n"));
        let _ = writeln!(s, "# Minimised schedule and fault trace:");
        for l in &self.trace {
            let _ = writeln!(s, "#   {}", l.replace('\n', "\\n"));
        }
        if let Some(d) = path.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(path, s).expect("write replay file");
    }
    fn read(path: &Path) -> Option<Replay> {
        let s = std::fs::read_to_string(path).ok()?;
        let mut m: BTreeMap<&str, &str> = BTreeMap::new();
        for l in s.lines() {
            if l.starts_with('#') {
                continue;
            }
            if let Some((k, v)) = l.split_once(": ") {
                m.insert(k, v);
            } else if let Some(k) = l.strip_suffix(':') {
                m.insert(k, "");
            }
        }
        let nums = |s: &str| -> Vec<u64> { s.split_whitespace().filter_map(|x| x.parse().ok()).collect() };
        let tape = *m.get("tape")?;
        Some(Replay {
            prop: m.get("property")?.to_string(),
            seed: m.get("verif_seed")?.parse().ok()?,
            run: m.get("run")?.parse().ok()?,
            variant: m.get("variant")?.parse().ok()?,
            prefix: nums(m.get("prefix").unwrap_or(&"")),
            tape: if tape == "from-seed" { None } else { Some(nums(tape).into_iter().map(|x| x as u32).collect()) },
            class: m.get("class").unwrap_or(&"").to_string(),
            msg: m.get("message").unwrap_or(&"").to_string(),
            trace: Vec::new(),
        })
    }
}

fn join<T: std::fmt::Display>(v: &[T]) -> String {
    let mut s = String::new();
    for x in v {
        if !s.is_empty() {
            s.push(' ');
        }
        let _ = write!(s, "{x}");
    }
    s
}

/// Executes a replay file in this process; results go to `<file>.result`.
fn exec_file(path: &Path, log: Option<String>, quiet: bool) -> i32 {
    let Some(r) = Replay::read(path) else { return 2 };
    let Some(p) = props::find(&r.prop) else { return 2 };
    for idx in &r.prefix {
        run::exec(p, Source::Seed(run::run_seed(r.seed, p.id, *idx)), false, false);
    }
    if let Some(l) = log {
        if let Ok(f) = std::fs::File::create(l) {
            sim::log_choices(f);
        }
    }
    let o = match &r.tape {
        Some(t) => run::exec(p, Source::Tape(t), !quiet, false),
        None => run::exec(p, Source::Seed(run::run_seed(r.seed, p.id, r.run)), !quiet, false),
    };
    let mut s = String::new();
    match &o.violation {
        Some(v) => {
            let _ = writeln!(s, "{}", v.class);
            let _ = writeln!(s, "{}", v.msg.replace('\n', "\\n"));
        }
        None => {
            let _ = writeln!(s, "OK\n");
        }
    }
    for l in &o.ended.trace {
        let _ = writeln!(s, "{}", l.replace('\n', "\\n"));
    }
    let _ = std::fs::write(path.with_extension("result"), s);
    if o.violation.is_some() {
        1
    } else {
        0
    }
}

fn shrink_file(path: &Path, out: &Path) -> i32 {
    let Some(mut r) = Replay::read(path) else { return 2 };
    let Some(p) = props::find(&r.prop) else { return 2 };
    let Some(t) = &r.tape else { return 2 };
    let (best, execs) = run::shrink(p, t, &r.class, 4000, 20);
    eprintln!("shrunk {} choices to {} in {execs} executions", t.len(), best.len());
    r.tape = Some(best);
    r.write(out);
    0
}

#[derive(Clone)]
struct Found {
    class: String,
    msg: String,
    trace: Vec<String>,
}

/// Runs a replay in a fresh process.
fn try_replay(r: &Replay, scratch: &Path, limit: Duration, log: Option<&Path>) -> Option<Found> {
    let path = scratch.join("try.replay");
    r.write(&path);
    let result = path.with_extension("result");
    let _ = std::fs::remove_file(&result);
    let mut c = child(r.variant, scratch);
    c.arg("exec-file").arg(&path);
    if let Some(l) = log {
        c.arg("--log").arg(l);
    }
    c.stdout(Stdio::null()).stderr(Stdio::null());
    match wait(c.spawn().expect("spawn"), limit) {
        Exit::Code(_) => {
            let s = std::fs::read_to_string(result).ok()?;
            let mut l = s.lines();
            let class = l.next()?.to_string();
            if class == "OK" {
                return None;
            }
            Some(Found { class, msg: l.next()?.to_string(), trace: l.map(str::to_string).collect() })
        }
        Exit::Signal(n) => Some(Found {
            class: "abort".into(),
            msg: format!("the process was ended by signal {n}"),
            trace: Vec::new(),
        }),
        Exit::Timeout => Some(Found {
            class: "hang".into(),
            msg: format!("the run does not terminate within {} s", limit.as_secs()),
            trace: Vec::new(),
        }),
    }
}

/// Confirms, shrinks and stores a violation; `None` if it cannot be repeated.
fn settle(p: &'static Prop, mut r: Replay, scratch: &Path, own_runs: &[u64]) -> Option<(Replay, PathBuf)> {
    if std::env::var_os("SIM_NO_SHRINK").is_some() {
        // For measuring the checks against many planted bugs.
        let path = verif_dir().join("replays").join(format!("{}-raw-{}.replay", p.id, r.run));
        r.write(&path);
        return Some((r, path));
    }
    let dead = |c: &str| c == "abort" || c == "hang" || c == "deadlock";
    let limit = if r.class == "hang" { 2 * HANG } else { HANG };
    let log = scratch.join("choices.log");
    let _ = std::fs::remove_file(&log);
    let mut found = try_replay(&r, scratch, limit, Some(&log));
    if found.is_none() {
        // It may depend on what this process did before.
        r.prefix = own_runs.iter().copied().filter(|i| *i < r.run).collect();
        found = try_replay(&r, scratch, Duration::from_secs(200), None);
        if found.is_none() {
            return None;
        }
        let class = found.as_ref().unwrap().class.clone();
        let start = Instant::now();
        let mut keep = 1;
        while keep < r.prefix.len() && start.elapsed() < Duration::from_secs(60) {
            let mut c = r.clone();
            c.prefix = r.prefix[r.prefix.len() - keep..].to_vec();
            if let Some(f) = try_replay(&c, scratch, limit, None) {
                if f.class == class {
                    r = c;
                    found = Some(f);
                    break;
                }
            }
            keep *= 4;
        }
        let mut size = r.prefix.len() / 2;
        while size >= 1 && start.elapsed() < Duration::from_secs(90) {
            let mut at = 0;
            while at + size <= r.prefix.len() && start.elapsed() < Duration::from_secs(90) {
                let mut c = r.clone();
                c.prefix.drain(at..at + size);
                match try_replay(&c, scratch, limit, None) {
                    Some(f) if f.class == class => {
                        r = c;
                        found = Some(f);
                    }
                    _ => at += size,
                }
            }
            size /= 2;
        }
    }
    let mut f = found?;
    r.class = f.class.clone();
    if r.prefix.is_empty() {
        if dead(&r.class) {
            // The run does not return, so candidates need processes of their own.
            if r.tape.is_none() {
                if let Ok(b) = std::fs::read(&log) {
                    let tape = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                    let mut c = r.clone();
                    c.tape = Some(tape);
                    if let Some(g) = try_replay(&c, scratch, limit, None) {
                        if g.class == r.class {
                            r = c;
                            f = g;
                        }
                    }
                }
            }
            if r.class != "deadlock" {
                let short = if r.class == "hang" { Duration::from_secs(3) } else { HANG };
                let start = Instant::now();
                let whole = (r.clone(), f.clone());
                if let Some(t) = r.tape.clone() {
                    let mut size = t.len() / 2;
                    while size >= 1 && start.elapsed() < Duration::from_secs(45) {
                        let mut at = 0;
                        while at + size <= r.tape.as_ref().unwrap().len() && start.elapsed() < Duration::from_secs(45) {
                            let mut c = r.clone();
                            c.tape.as_mut().unwrap().drain(at..at + size);
                            match try_replay(&c, scratch, short, None) {
                                Some(g) if g.class == r.class => {
                                    r = c;
                                    f = g;
                                }
                                _ => at += size,
                            }
                        }
                        size /= 2;
                    }
                }
                // A short run which takes long is not one which does not end.
                if r.class == "hang" {
                    match try_replay(&r, scratch, limit, None) {
                        Some(g) if g.class == "hang" => f = g,
                        _ => (r, f) = whole,
                    }
                }
            }
        } else if r.tape.is_some() {
            let a = scratch.join("shrink.in");
            let b = scratch.join("shrink.out");
            r.write(&a);
            let mut c = child(r.variant, scratch);
            c.arg("shrink").arg(&a).arg(&b).stdout(Stdio::null());
            if let Exit::Code(0) = wait(c.spawn().expect("spawn"), Duration::from_secs(90)) {
                if let Some(s) = Replay::read(&b) {
                    if let Some(g) = try_replay(&s, scratch, limit, None) {
                        if g.class == r.class {
                            r = s;
                            f = g;
                        }
                    }
                }
            }
        }
    }
    r.class = f.class;
    r.msg = f.msg;
    r.trace = f.trace;
    let mut h = sim::mix_str(r.run, &r.class);
    for t in r.tape.iter().flatten() {
        h = sim::mix(h, u64::from(*t));
    }
    let path = verif_dir().join("replays").join(format!("{}-{:08x}.replay", p.id, h as u32));
    r.write(&path);
    Some((r, path))
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn replay(path: &Path) -> i32 {
    let Some(r) = Replay::read(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let scratch = Scratch::new();
    if let Some(count) = r.class.strip_prefix("process_dependent") {
        let _ = count;
        let p = props::find(&r.prop).expect("property");
        return match cross_process(p, r.seed, r.run + 1, &scratch.0) {
            Ok(_) => {
                println!("not reproduced");
                0
            }
            Err((idx, msg)) => {
                println!("run {idx}: {msg}");
                println!("VIOLATION property={} replay={}", r.prop, path.display());
                1
            }
        };
    }
    match try_replay(&r, &scratch.0, Duration::from_secs(200), None) {
        None => {
            println!("not reproduced: the run holds");
            0
        }
        Some(f) => {
            for l in &f.trace {
                println!("{l}");
            }
            println!("class: {}", f.class);
            println!("message: {}", f.msg);
            println!("same class as recorded: {}", f.class == r.class);
            println!("VIOLATION property={} replay={}", r.prop, path.display());
            1
        }
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("genco-sim-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- workers

fn worker(arg: &dyn Fn(&str) -> Option<String>) -> i32 {
    let num = |n: &str| -> u64 { arg(n).and_then(|v| v.parse().ok()).expect("number") };
    let p = props::find(&arg("--prop").unwrap()).unwrap();
    let (w, runs, seed, from, secs) = (num("--w"), num("--runs"), num("--seed"), num("--from"), num("--secs"));
    let base = PathBuf::from(arg("--out").unwrap());
    let progress = std::fs::File::create(base.with_extension("progress")).expect("progress file");
    let start = Instant::now();
    let mut hashes: Vec<u64> = Vec::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut sample_ids: Vec<u64> = Vec::new();
    let mut done = 0u64;
    let mut slowest = (Duration::ZERO, 0u64);
    let mut out = String::new();
    let mut idx = from;
    let mut code = 0;
    while idx < runs {
        if start.elapsed().as_secs() >= secs {
            let _ = writeln!(out, "cutoff {idx}");
            break;
        }
        use std::os::unix::fs::FileExt;
        let _ = progress.write_all_at(&(idx + 1).to_le_bytes(), 0);
        let begun = Instant::now();
        let o = run::exec(p, Source::Seed(run::run_seed(seed, p.id, idx)), false, true);
        slowest = slowest.max((begun.elapsed(), idx));
        done += 1;
        scheds.insert(o.ended.sched_hash);
        if o.ended.nontrivial && seen.insert(o.ended.hash) {
            hashes.push(o.ended.hash);
            if w == 0 && sample_ids.len() < 3 && o.ended.events < 120 {
                sample_ids.push(idx);
            }
        }
        if let Some(v) = o.violation {
            let _ = writeln!(out, "violation {idx}");
            let _ = writeln!(out, "class {}", v.class);
            let _ = writeln!(out, "msg {}", v.msg.replace('\n', "\\n"));
            let _ = writeln!(out, "tape {}", join(&o.ended.tape));
            code = 1;
            break;
        }
        idx += WORKERS;
    }
    let _ = writeln!(out, "done {done}");
    if std::env::var_os("SIM_SLOWEST").is_some() {
        eprintln!("slowest: run {} took {:?}", slowest.1, slowest.0);
    }
    let (stats, clock, steps) = sim::totals();
    for (k, v) in stats {
        let _ = writeln!(out, "stat {k} {v}");
    }
    let _ = writeln!(out, "clock {clock}");
    let _ = writeln!(out, "steps {steps}");
    let _ = writeln!(out, "hashes {}", join(&hashes));
    let scheds: Vec<u64> = scheds.into_iter().collect();
    let _ = writeln!(out, "scheds {}", join(&scheds));
    if code == 0 {
        for id in sample_ids {
            let o = run::exec(p, Source::Seed(run::run_seed(seed, p.id, id)), true, false);
            let mut t: Vec<String> = o.ended.trace.iter().take(60).map(|l| l.chars().take(200).collect()).collect();
            if o.ended.trace.len() > 60 {
                t.push(format!("... {} more events", o.ended.trace.len() - 60));
            }
            let _ = writeln!(out, "sample {id} {}", t.join("\\n").replace('\n', "\\n"));
        }
    }
    std::fs::write(base.with_extension("out"), out).expect("write results");
    code
}

struct Slot {
    child: Option<Child>,
    base: PathBuf,
    w: u64,
    last: u64,
    since: Instant,
    restarts: u32,
}

#[derive(Default)]
struct Totals {
    done: u64,
    stats: BTreeMap<String, u64>,
    clock: u64,
    steps: u64,
    hashes: HashSet<u64>,
    scheds: HashSet<u64>,
    samples: Vec<(u64, Vec<String>)>,
    cutoff: bool,
}

fn spawn_worker(p: &Prop, w: u64, from: u64, runs: u64, seed: u64, secs: u64, base: &Path, scratch: &Path) -> Child {
    let mut c = child(w, scratch);
    c.arg("worker").args(["--prop", p.id]);
    for (k, v) in [("--w", w), ("--from", from), ("--runs", runs), ("--seed", seed), ("--secs", secs)] {
        c.arg(k).arg(v.to_string());
    }
    c.arg("--out").arg(base);
    c.stdout(Stdio::null());
    let _ = std::fs::remove_file(base.with_extension("out"));
    let _ = std::fs::remove_file(base.with_extension("progress"));
    c.spawn().expect("spawn worker")
}

fn check(p: &'static Prop, tier: &str, seed: u64, runs: Option<u64>) -> i32 {
    let start = Instant::now();
    let thorough = tier == "thorough";
    let runs = runs.unwrap_or(if thorough { p.quick * p.thorough_factor } else { p.quick });
    let secs = if thorough { 780 } else { 300 };
    let scratch = Scratch::new();
    let mut t = Totals::default();
    let mut found: Option<(Replay, PathBuf)> = None;
    let mut unrepeatable = 0;
    // Half-finished processes of an earlier, interrupted check are not ours to use.
    let mut slots: Vec<Slot> = (0..WORKERS)
        .map(|w| {
            let base = scratch.0.join(format!("w{w}"));
            let c = spawn_worker(p, w, w, runs, seed, secs, &base, &scratch.0);
            Slot { child: Some(c), base, w, last: 0, since: Instant::now(), restarts: 0 }
        })
        .collect();
    'watch: loop {
        let mut alive = false;
        for i in 0..slots.len() {
            let s = &mut slots[i];
            let Some(c) = &mut s.child else { continue };
            let progress = std::fs::read(s.base.with_extension("progress")).unwrap_or_default();
            let at = progress.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            let status = c.try_wait().ok().flatten();
            let mut died: Option<&str> = None;
            match status {
                None => {
                    alive = true;
                    if at != s.last {
                        s.last = at;
                        s.since = Instant::now();
                    } else if s.since.elapsed() > HANG {
                        let _ = c.kill();
                        let _ = c.wait();
                        died = Some("hang");
                    }
                }
                Some(st) if st.code().is_some_and(|c| c == 0 || c == 1) => {
                    s.child = None;
                    let out = std::fs::read_to_string(s.base.with_extension("out")).unwrap_or_default();
                    if let Some(mut r) = collect(&out, &mut t) {
                        r.prop = p.id.into();
                        r.seed = seed;
                        r.variant = s.w;
                        let own: Vec<u64> = (s.w..runs).step_by(WORKERS as usize).collect();
                        let (w, restarts) = (s.w, s.restarts);
                        match settle(p, r.clone(), &scratch.0, &own) {
                            Some(f) => found = Some(f),
                            None => {
                                // Report it with everything known about it.
                                let _ = (w, restarts);
                                let path = verif_dir().join("replays").join(format!("{}-unrepeatable-{}.replay", p.id, r.run));
                                r.msg += " [not repeated in a fresh process]";
                                r.write(&path);
                                found = Some((r, path));
                            }
                        }
                        break 'watch;
                    }
                    continue;
                }
                Some(st) => died = Some(if st.signal() == Some(9) { "killed" } else { "abort" }),
            }
            if let Some(class) = died {
                s.child = None;
                let idx = at.saturating_sub(1);
                let r = Replay {
                    prop: p.id.into(),
                    seed,
                    run: idx,
                    variant: s.w,
                    prefix: Vec::new(),
                    tape: None,
                    class: if class == "killed" { "abort".into() } else { class.into() },
                    msg: String::new(),
                    trace: Vec::new(),
                };
                let own: Vec<u64> = (s.w..runs).step_by(WORKERS as usize).collect();
                if let Some(f) = settle(p, r.clone(), &scratch.0, &own) {
                    found = Some(f);
                    break 'watch;
                }
                unrepeatable += 1;
                let s = &mut slots[i];
                if class == "abort" || s.restarts >= 2 {
                    let mut r = r;
                    r.msg = format!("worker {} ended abnormally ({class}) in run {idx}, not repeated in a fresh process", s.w);
                    r.prefix = own.iter().copied().filter(|i| *i < idx).collect();
                    let path = verif_dir().join("replays").join(format!("{}-unrepeatable-{}.replay", p.id, idx));
                    r.write(&path);
                    found = Some((r, path));
                    break 'watch;
                }
                s.restarts += 1;
                s.since = Instant::now();
                s.last = 0;
                s.child = Some(spawn_worker(p, s.w, idx + WORKERS, runs, seed, secs, &s.base, &scratch.0));
                alive = true;
            }
        }
        if !alive && slots.iter().all(|s| s.child.is_none()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for s in &mut slots {
        if let Some(c) = &mut s.child {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    // The same runs in other processes have to produce the same bytes.
    let mut cross = 0;
    if found.is_none() && p.cross_process {
        let n = if thorough { 4_000 } else { 400 };
        match cross_process(p, seed, n, &scratch.0) {
            Ok(c) => cross = c,
            Err((idx, msg)) => {
                let r = Replay {
                    prop: p.id.into(),
                    seed,
                    run: idx,
                    variant: 0,
                    prefix: Vec::new(),
                    tape: None,
                    class: "process_dependent".into(),
                    msg,
                    trace: Vec::new(),
                };
                let path = verif_dir().join("replays").join(format!("{}-process-{idx}.replay", p.id));
                r.write(&path);
                found = Some((r, path));
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(p, tier, seed, &t, wall, found.is_some(), cross, unrepeatable);
    println!(
        "{}: {} runs ({} distinct non-trivial, {} interleavings), {} steps, {:.1} s",
        p.id,
        t.done,
        t.hashes.len(),
        t.scheds.len(),
        t.steps,
        wall
    );
    match found {
        Some((r, path)) => {
            println!("class: {}", r.class);
            println!("message: {}", r.msg);
            for l in r.trace.iter().take(60) {
                println!("  {l}");
            }
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        None => 0,
    }
}

/// Reads what a worker wrote; returns the violation it found, if any.
fn collect(out: &str, t: &mut Totals) -> Option<Replay> {
    let mut r: Option<Replay> = None;
    for l in out.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "violation" => {
                r = Some(Replay {
                    prop: String::new(),
                    seed: 0,
                    run: v.parse().unwrap_or(0),
                    variant: 0,
                    prefix: Vec::new(),
                    tape: None,
                    class: String::new(),
                    msg: String::new(),
                    trace: Vec::new(),
                })
            }
            "class" => {
                if let Some(r) = &mut r {
                    r.class = v.into()
                }
            }
            "msg" => {
                if let Some(r) = &mut r {
                    r.msg = v.into()
                }
            }
            "tape" => {
                if let Some(r) = &mut r {
                    r.tape = Some(v.split_whitespace().filter_map(|x| x.parse().ok()).collect())
                }
            }
            "done" => t.done += v.parse::<u64>().unwrap_or(0),
            "clock" => t.clock += v.parse::<u64>().unwrap_or(0),
            "steps" => t.steps += v.parse::<u64>().unwrap_or(0),
            "cutoff" => t.cutoff = true,
            "stat" => {
                if let Some((n, c)) = v.split_once(' ') {
                    *t.stats.entry(n.into()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
                }
            }
            "hashes" => t.hashes.extend(v.split_whitespace().filter_map(|x| x.parse::<u64>().ok())),
            "scheds" => t.scheds.extend(v.split_whitespace().filter_map(|x| x.parse::<u64>().ok())),
            "sample" => {
                if let Some((id, tr)) = v.split_once(' ') {
                    t.samples.push((id.parse().unwrap_or(0), tr.split("\\n").map(str::to_string).collect()));
                }
            }
            _ => {}
        }
    }
    r
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, tier: &str, seed: u64, t: &Totals, wall: f64, violated: bool, cross: u64, unrepeatable: u64) {
    let mut s = String::new();
    let _ = writeln!(s, "{{");
    let _ = writeln!(s, " \"property\": {},", js(p.id));
    let _ = writeln!(s, " \"tier\": {},", js(if tier == "thorough" { "thorough" } else { "quick" }));
    let _ = writeln!(s, " \"seed\": {seed},");
    let _ = writeln!(s, " \"level\": \"exploration\",");
    let _ = writeln!(s, " \"coverage\": {{");
    let _ = writeln!(s, "  \"evaluations\": {},", t.done);
    let _ = writeln!(s, "  \"distinct_nontrivial\": {},", t.hashes.len());
    let _ = writeln!(s, "  \"rule\": {},", js(p.rule));
    let _ = writeln!(s, "  \"runs_per_hour\": {},", (t.done as f64 / wall.max(0.001) * 3600.0) as u64);
    let _ = writeln!(s, "  \"seeds_per_hour\": {},", (t.done as f64 / wall.max(0.001) * 3600.0) as u64);
    let _ = writeln!(s, "  \"simulated_seconds\": {:.3},", t.clock as f64 / 1e9);
    let _ = writeln!(s, "  \"simulated_steps\": {},", t.steps);
    let _ = writeln!(s, "  \"distinct_interleavings\": {},", t.scheds.len());
    let _ = writeln!(
        s,
        "  \"interleaving_measure\": \"hash over the sequence of scheduling decisions and injected faults with the step they hit\","
    );
    let _ = writeln!(s, "  \"cross_process_runs_compared\": {cross},");
    let _ = writeln!(s, "  \"abnormal_worker_exits_not_repeated\": {unrepeatable},");
    let _ = writeln!(s, "  \"stopped_at_time_limit\": {},", t.cutoff);
    let _ = writeln!(s, "  \"faults_and_events_injected\": {{");
    let n = t.stats.len();
    for (i, (k, v)) in t.stats.iter().enumerate() {
        let _ = writeln!(s, "   {}: {}{}", js(k), v, if i + 1 < n { "," } else { "" });
    }
    let _ = writeln!(s, "  }},");
    let by = if cfg!(feature = "stable-compiler") { "stable" } else { "nightly" };
    let _ = writeln!(s, "  \"components_real\": [\"genco from /repo (tokens, formatter, writers, all languages)\", \"genco-macros (quote!, quote_in!, impl_lang!), run by the {by} compiler\", \"std collections, threads and locks\"],");
    let _ = writeln!(s, "  \"components_stub\": [\"writers (io::Write and fmt::Write sinks)\", \"thread scheduling (baton)\", \"allocator failures, limits and addresses\", \"clock, random source, environment variables, working directory, process id\", \"caller-supplied iterators, items and language hooks\"],");
    let _ = writeln!(s, "  \"samples\": [");
    let n = t.samples.len();
    for (i, (id, tr)) in t.samples.iter().enumerate() {
        let _ = writeln!(s, "   {{\"run\": {id}, \"run_seed\": {}, \"trace\": [", js(&format!("{:#x}", run::run_seed(seed, p.id, *id))));
        for (j, l) in tr.iter().enumerate() {
            let _ = writeln!(s, "    {}{}", js(l), if j + 1 < tr.len() { "," } else { "" });
        }
        let _ = writeln!(s, "   ]}}{}", if i + 1 < n { "," } else { "" });
    }
    let _ = writeln!(s, "  ]");
    let _ = writeln!(s, " }},");
    let _ = writeln!(s, " \"assumptions\": [\"runs are a seeded sample of inputs, schedules and faults, not all of them\", \"the reference model in /verif/sim/src/{{model,kits,custom}}.rs states the documented behaviour\"],");
    let _ = writeln!(s, " \"wall_s\": {wall:.2},");
    let _ = writeln!(s, " \"violations\": {}", u8::from(violated));
    let _ = writeln!(s, "}}");
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), s).expect("write evidence");
}

// ---------------------------------------------------------------- processes against each other

fn digests(p: &'static Prop, seed: u64, n: u64, variant: u64) -> i32 {
    // Different processes have different pasts.
    let mut order: Vec<u64> = (0..n).collect();
    match variant % 4 {
        1 => order.reverse(),
        2 => order.rotate_left((n / 2) as usize),
        3 => order.sort_by_key(|i| sim::mix(*i, 77)),
        _ => {}
    }
    let mut out = String::new();
    for i in order {
        props::set_digest_mode(Some(variant));
        let o = run::exec(p, Source::Seed(run::run_seed(seed, p.id, i)), false, false);
        let _ = writeln!(out, "{i} {:016x} {}", props::take_digest(), o.violation.map(|v| v.class).unwrap_or_default());
    }
    print!("{out}");
    0
}

fn cross_process(p: &'static Prop, seed: u64, n: u64, scratch: &Path) -> Result<u64, (u64, String)> {
    let mut all: Vec<BTreeMap<u64, String>> = Vec::new();
    let mut children = Vec::new();
    for v in 0..4u64 {
        let mut c = child(v, scratch);
        c.env("VERIF_SEED", seed.to_string());
        c.args(["digests", "--prop", p.id, "--count", &n.to_string(), "--variant", &v.to_string()]);
        let f = std::fs::File::create(scratch.join(format!("digest{v}"))).expect("digest file");
        c.stdout(f);
        children.push(c.spawn().expect("spawn"));
    }
    for (v, c) in children.into_iter().enumerate() {
        if !matches!(wait(c, Duration::from_secs(600)), Exit::Code(0)) {
            return Err((0, format!("process variant {v} ended abnormally")));
        }
        let s = std::fs::read_to_string(scratch.join(format!("digest{v}"))).unwrap_or_default();
        all.push(s.lines().filter_map(|l| l.split_once(' ')).map(|(i, d)| (i.parse().unwrap_or(0), d.to_string())).collect());
    }
    for (i, d) in &all[0] {
        for (v, m) in all.iter().enumerate() {
            if m.get(i) != Some(d) {
                return Err((*i, format!("run {i}: process variant 0 produced {d}, variant {v} {:?}", m.get(i))));
            }
        }
    }
    Ok(n * 4)
}

// ---------------------------------------------------------------- self test

/// One seed is one execution: every property, twice, in different processes.
fn selftest(seed: u64, n: u64) -> i32 {
    if std::env::var("SIM_SELFTEST_CHILD").is_ok() {
        for p in props::ALL {
            for i in 0..n {
                let o = run::exec(p, Source::Seed(run::run_seed(seed, p.id, i)), false, false);
                // The recorded tape is the same execution again.
                let t = o.ended.tape.clone();
                let o2 = run::exec(p, Source::Tape(&t), false, false);
                println!(
                    "{} {i} {:016x} {:016x} {:?}",
                    p.id,
                    o.ended.hash,
                    o2.ended.hash,
                    o.violation.map(|v| v.class)
                );
            }
        }
        return 0;
    }
    let scratch = Scratch::new();
    let mut outs = Vec::new();
    for v in [0u64, 5] {
        let mut c = child(v, &scratch.0);
        c.env("SIM_SELFTEST_CHILD", "1").env("VERIF_SEED", seed.to_string());
        c.args(["selftest", "--count", &n.to_string()]);
        let o = c.output().expect("spawn");
        outs.push(String::from_utf8_lossy(&o.stdout).into_owned());
    }
    let (a, b): (Vec<_>, Vec<_>) = (outs[0].lines().collect(), outs[1].lines().collect());
    let mut bad = 0;
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        let same_tape = x.is_some_and(|l| {
            let f: Vec<&str> = l.split(' ').collect();
            f.len() >= 4 && f[2] == f[3]
        });
        if x != y || !same_tape {
            bad += 1;
            if bad < 10 {
                println!("differs: {x:?} / {y:?}");
            }
        }
    }
    let seams = env::unseamed();
    for s in &seams {
        println!("not simulated: {s}");
        bad += 1;
    }
    println!("selftest: {} executions compared, {bad} differ", a.len());
    i32::from(bad > 0 || a.is_empty())
}
