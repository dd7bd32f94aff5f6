//! A small choice-sequence property-testing engine (in the manner of Hypothesis).
//!
//! A case is a pure function of the sequence of bounded integers it draws. Random
//! cases record that sequence; shrinking edits it; a replay file stores it; the
//! coverage-guided target decodes it from bytes. Smaller choices are simpler.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    Bytes(Vec<u8>, usize),
}

pub struct Case {
    mode: Mode,
    pub rec: Vec<u64>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub known: Vec<(&'static str, String)>,
    render: bool,
    pub notes: Vec<String>,
    /// number of elementary evaluations in this case (1 unless stated)
    pub evals: u64,
}

impl Case {
    fn with(mode: Mode, render: bool) -> Self {
        Case {
            mode,
            rec: Vec::new(),
            labels: Vec::new(),
            nontrivial: false,
            known: Vec::new(),
            render,
            notes: Vec::new(),
            evals: 1,
        }
    }
    pub fn random(seed: u64) -> Self {
        Self::with(Mode::Random(Rng::new(seed)), false)
    }
    pub fn replay(choices: &[u64], render: bool) -> Self {
        Self::with(Mode::Replay(choices.to_vec()), render)
    }
    pub fn bytes(data: &[u8]) -> Self {
        Self::with(Mode::Bytes(data.to_vec(), 0), false)
    }

    /// Draws an integer in `0..=max`
    pub fn draw(&mut self, max: u64) -> u64 {
        let i = self.rec.len();
        assert!(i < 4_000_000, "a case draws without end");
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                if max == u64::MAX {
                    x
                } else {
                    ((x as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            Mode::Replay(c) => c.get(i).copied().unwrap_or(0).min(max),
            Mode::Bytes(d, pos) => {
                let n = ((64 - max.leading_zeros()) as usize + 7) / 8;
                let mut x = 0u64;
                for k in 0..n {
                    if let Some(b) = d.get(*pos) {
                        x |= (*b as u64) << (8 * k);
                        *pos += 1;
                    }
                }
                if max == u64::MAX {
                    x
                } else {
                    x % (max + 1)
                }
            }
        };
        self.rec.push(v);
        v
    }
    /// Uniform index below `n`
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo)
    }
    /// True with probability num/den; false is simpler
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Picks an index according to weights; the first is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total - 1);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        unreachable!()
    }
    /// A generator expanded from one recorded choice, for bulk data
    pub fn bulk(&mut self) -> Rng {
        Rng::new(self.draw(u64::MAX))
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.render {
            self.notes.push(f());
        }
    }
}

impl Case {
    /// Reports behaviour that matches a recorded finding. It is a failure unless the
    /// known-findings file lists it.
    pub fn finding(&mut self, property: &str, key: &'static str, what: String) -> Outcome {
        static LISTED: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let t = LISTED.get_or_init(|| {
            let p = std::env::var("VP_KNOWN").unwrap_or_else(|_| "/verif/KNOWN_FINDINGS".into());
            std::fs::read_to_string(p).unwrap_or_default()
        });
        if t.lines().any(|l| l.starts_with(&format!("finding: property={property} {key} "))) {
            self.known.push((key, what));
            Ok(())
        } else {
            Err(what)
        }
    }
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err(format!($($fmt)*));
        }
    };
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Case) -> Outcome,
    /// number of random cases in the quick tier
    pub cases: u64,
    /// exhaustive or fixed enumeration: run case `i`; count given by `enum_count`
    pub enum_count: u64,
    pub enum_run: fn(u64, &mut Case) -> Outcome,
    /// checked once after all cases (statistics over the run)
    pub finish: fn() -> Outcome,
    pub assumptions: &'static [&'static str],
    pub exhaustive_note: &'static str,
}

pub fn no_enum(_: u64, _: &mut Case) -> Outcome {
    Ok(())
}
pub fn no_finish() -> Outcome {
    Ok(())
}

static OUT: AtomicI32 = AtomicI32::new(1);

/// Results go to the original standard output, whatever the code under test does to fd 1
pub fn set_out(fd: i32) {
    OUT.store(fd, Ordering::SeqCst);
}
pub fn say_line(s: &str) {
    let t = format!("{s}\n");
    let mut b = t.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(OUT.load(Ordering::SeqCst), b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}
#[macro_export]
macro_rules! say {
    ($($fmt:tt)*) => { $crate::vp_engine::say_line(&format!($($fmt)*)) };
}

/// Which case each thread is working on, kept in a shared file so that it survives the
/// death of the process
pub struct Journal(*mut u64, usize);
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
pub const IDLE: u64 = u64::MAX;
impl Journal {
    pub fn open(path: &str, threads: usize) -> Journal {
        let words = threads * 2;
        let mut init = Vec::new();
        for _ in 0..words {
            init.extend_from_slice(&IDLE.to_le_bytes());
        }
        if path.is_empty() || std::fs::write(path, &init).is_err() {
            return Journal(std::ptr::null_mut(), 0);
        }
        let c = std::ffi::CString::new(path).unwrap();
        unsafe {
            let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c.as_ptr(), libc::O_RDWR | libc::O_CLOEXEC, 0) as i32;
            let p = libc::mmap(
                std::ptr::null_mut(),
                words * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                fd,
                0,
            );
            libc::close(fd);
            if p == libc::MAP_FAILED {
                return Journal(std::ptr::null_mut(), 0);
            }
            Journal(p.cast(), threads)
        }
    }
    fn mark(&self, t: usize, order: u64, enumerated: u64) {
        if t < self.1 {
            unsafe {
                self.0.add(2 * t).write_volatile(order);
                self.0.add(2 * t + 1).write_volatile(enumerated);
            }
        }
    }
}
/// In-flight cases of a dead process
pub fn read_journal(path: &str) -> Vec<(u64, bool)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(16)
        .map(|c| {
            (
                u64::from_le_bytes(c[..8].try_into().unwrap()),
                u64::from_le_bytes(c[8..].try_into().unwrap()) == 1,
            )
        })
        .filter(|x| x.0 != IDLE)
        .collect()
}

thread_local! {
    static LOGGED: RefCell<String> = const { RefCell::new(String::new()) };
    static ON_LOG: RefCell<Option<Box<dyn Fn()>>> = const { RefCell::new(None) };
}
struct Capture;
impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let line = format!("{} {} {}\n", r.level(), r.target(), r.args());
        LOGGED.with(|l| l.borrow_mut().push_str(&line));
        if let Some(f) = ON_LOG.take() {
            f();
            ON_LOG.set(Some(f));
        }
    }
    fn flush(&self) {}
}
static CAPTURE: Capture = Capture;
/// To be called whenever this thread logs, but not from within itself
pub fn on_log(f: Option<Box<dyn Fn()>>) {
    ON_LOG.set(f);
}
pub fn install_log() {
    if log::set_logger(&CAPTURE).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
}
/// What was logged on this thread since the case began or the last call
pub fn logged() -> String {
    LOGGED.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Caught {
    /// the harness itself failed: neither pass nor violation
    Harness(String),
    Code(String),
}

/// Runs code under test, turning a panic into an error. Panics raised by the
/// harness's own sources are told apart.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            let text = format!("panic at {loc}: {msg}");
            if loc.contains("vp_") && !loc.contains("vp_hooks") {
                Err(Caught::Harness(text))
            } else {
                Err(Caught::Code(text))
            }
        }
    }
}

/// Runs `f`; `Err` holds the message of a panic of the code under test
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match guard(f) {
        Ok(v) => Ok(v),
        Err(Caught::Code(m)) => Err(m),
        Err(Caught::Harness(m)) => panic!("vp_harness: {m}"),
    }
}

pub enum Verdict {
    Pass,
    Fail(String),
    HarnessError(String),
}

fn run_case(f: &dyn Fn(&mut Case) -> Outcome, case: &mut Case) -> Verdict {
    logged();
    match guard(|| f(case)) {
        Ok(Ok(())) => Verdict::Pass,
        Ok(Err(m)) => Verdict::Fail(m),
        Err(Caught::Code(m)) => Verdict::Fail(m),
        Err(Caught::Harness(m)) => Verdict::HarnessError(m),
    }
}

pub fn run_bytes(p: &Property, data: &[u8]) -> Result<(), (String, Vec<u64>)> {
    let mut case = Case::bytes(data);
    match run_case(&|c| (p.run)(c), &mut case) {
        Verdict::Pass => Ok(()),
        Verdict::Fail(m) => Err((m, case.rec)),
        Verdict::HarnessError(m) => {
            crate::say!("harness error (not a violation): {m}");
            std::process::exit(3);
        }
    }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ b.rotate_left(29));
    r.next()
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in c {
        h ^= *v;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h ^ c.len() as u64
}

#[derive(Default)]
struct ShardStats {
    evaluations: u64,
    cases: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, (u64, String)>,
    samples: Vec<Vec<u64>>,
}

struct Failure {
    order: u64,
    message: String,
    choices: Vec<u64>,
    enum_index: Option<u64>,
}

pub struct RunResult {
    pub failure: Option<(String, String)>,
    pub harness_error: Option<String>,
    pub known: Vec<(String, String)>,
}

pub struct Config {
    pub seed: u64,
    pub tier: String,
    pub evidence: String,
    pub merge: Vec<String>,
    pub replay_dir: String,
    pub scale: f64,
    pub threads: usize,
    pub variant: String,
    pub journal: String,
}

/// Shrinks a failing choice sequence while it keeps failing
fn shrink(f: &dyn Fn(&mut Case) -> Outcome, start: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let mut best = start;
    let mut best_msg = msg;
    let mut budget = 6000u32;
    let deadline = Instant::now() + std::time::Duration::from_secs(45);
    let try_one = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String, budget: &mut u32| {
        if *budget == 0 || Instant::now() > deadline {
            return false;
        }
        *budget -= 1;
        let mut c = Case::replay(&cand, false);
        if let Verdict::Fail(m) = run_case(f, &mut c) {
            let mut rec = c.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let smaller = rec.len() < best.len()
                || (rec.len() == best.len() && rec < *best);
            if smaller {
                *best = rec;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // delete blocks
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i -= 1;
                if i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    try_one(cand, &mut best, &mut best_msg, &mut budget);
                }
            }
        }
        // zero blocks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].iter_mut().for_each(|v| *v = 0);
                    try_one(cand, &mut best, &mut best_msg, &mut budget);
                }
                i += 1;
            }
        }
        // minimise single values by bisection
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            let mut steps = 0;
            while lo < hi && steps < 64 && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if try_one(cand, &mut best, &mut best_msg, &mut budget) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
                steps += 1;
            }
            i += 1;
        }
        if best == before || budget == 0 || Instant::now() > deadline {
            break;
        }
    }
    (best, best_msg)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const SHARDS: u64 = 64;
/// Processor time one case may use; ordinary ones take milliseconds
pub const HANG_CPU_S: f64 = 40.0;

fn case_seed(p: &Property, seed: u64, order: u64, enumerated: bool) -> u64 {
    let salt = p.id.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    mix(mix(seed, salt), if enumerated { order ^ 0xe000_0000 } else { order })
}

/// Runs one case given by its position in a run
pub fn run_one(p: &Property, seed: u64, order: u64, enumerated: bool) -> Outcome {
    let mut case = Case::random(case_seed(p, seed, order, enumerated));
    let v = if enumerated {
        run_case(&|c| (p.enum_run)(order, c), &mut case)
    } else {
        run_case(&|c| (p.run)(c), &mut case)
    };
    match v {
        Verdict::Pass => Ok(()),
        Verdict::Fail(m) => Err(m),
        Verdict::HarnessError(m) => {
            crate::say!("harness error (not a violation): {m}");
            std::process::exit(BROKEN);
        }
    }
}

/// What came of one case run on its own
pub struct Ran {
    pub failure: Option<String>,
    pub nontrivial: bool,
    pub choices: Vec<u64>,
    pub notes: Vec<String>,
}

/// Runs one case by its position, or again by its choices; nothing is judged a harness error here
pub fn run_alone(p: &Property, seed: u64, order: u64, enumerated: bool, again: Option<&[u64]>) -> Ran {
    let mut case = match again {
        Some(c) => Case::replay(c, true),
        None => Case::random(case_seed(p, seed, order, enumerated)),
    };
    let v = if enumerated {
        run_case(&|c| (p.enum_run)(order, c), &mut case)
    } else {
        run_case(&|c| (p.run)(c), &mut case)
    };
    let failure = match v {
        Verdict::Pass => None,
        Verdict::Fail(m) => Some(m),
        Verdict::HarnessError(m) => panic!("vp_ {m}"),
    };
    Ran { failure, nontrivial: case.nontrivial, choices: case.rec, notes: case.notes }
}

/// A smaller choice sequence that fails too
pub fn smaller(p: &Property, choices: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    shrink(&|c| (p.run)(c), choices, msg)
}

/// Stack the cases of a property run on: that of any Rust thread, or less where hostile input
/// could make the code recurse (optimised code needs less than the unoptimised code of a user)
pub fn stack(id: &str) -> usize {
    match id {
        "C01" | "C06" | "C30" => 512 << 10,
        _ => 2 << 20,
    }
}

/// Runs `f` on such a stack
pub fn on_stack<T: Send>(id: &str, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(stack(id)).spawn_scoped(s, f).expect("thread");
        t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

pub fn run(p: &Property, cfg: &Config) -> RunResult {
    let t0 = Instant::now();
    let thorough = cfg.tier == "thorough";
    let total = ((p.cases as f64) * cfg.scale * if thorough { 20.0 } else { 1.0 }).max(1.0) as u64;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let merged: Mutex<ShardStats> = Mutex::new(ShardStats::default());
    let done = AtomicBool::new(false);
    let beats: Vec<AtomicU64> = (0..cfg.threads).map(|_| AtomicU64::new(0)).collect();
    let active = AtomicUsize::new(cfg.threads);
    let clocks: Vec<AtomicI32> = (0..cfg.threads).map(|_| AtomicI32::new(0)).collect();
    let journal = Journal::open(&cfg.journal, cfg.threads);

    std::thread::scope(|s| {
        for t in 0..cfg.threads {
            let (next, stop, failures, herr, merged, beats, active, done, clocks, journal) = (
                &next, &stop, &failures, &herr, &merged, &beats, &active, &done, &clocks, &journal,
            );
            std::thread::Builder::new()
                .stack_size(stack(p.id))
                .spawn_scoped(s, move || {
                    let mut id: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
                    clocks[t].store(id, Ordering::SeqCst);
                    loop {
                        let shard = next.fetch_add(1, Ordering::SeqCst);
                        if shard >= SHARDS || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut st = ShardStats::default();
                        let mut one = |case: &mut Case,
                                       f: &dyn Fn(&mut Case) -> Outcome,
                                       order: u64,
                                       enum_index: Option<u64>|
                         -> bool {
                            beats[t].fetch_add(1, Ordering::Relaxed);
                            journal.mark(t, order, u64::from(enum_index.is_some()));
                            match run_case(f, case) {
                                Verdict::Pass => {
                                    st.cases += 1;
                                    st.evaluations += case.evals;
                                    for l in &case.labels {
                                        *st.labels.entry(l).or_insert(0) += 1;
                                    }
                                    for (k, m) in case.known.drain(..) {
                                        st.known.entry(k).or_insert((0, m)).0 += 1;
                                    }
                                    if case.nontrivial {
                                        st.nontrivial += 1;
                                        let h = hash_choices(&case.rec)
                                            ^ enum_index.map_or(0, |i| mix(i, 99));
                                        if (st.distinct.len() as u64) < 40_000_000 / SHARDS
                                            && st.distinct.insert(h)
                                            && st.samples.len() < 2
                                            && enum_index.is_none()
                                        {
                                            st.samples.push(case.rec.clone());
                                        }
                                    }
                                    true
                                }
                                Verdict::Fail(m) => {
                                    failures.lock().unwrap().push(Failure {
                                        order,
                                        message: m,
                                        choices: case.rec.clone(),
                                        enum_index,
                                    });
                                    stop.store(true, Ordering::Relaxed);
                                    false
                                }
                                Verdict::HarnessError(m) => {
                                    *herr.lock().unwrap() = Some(m);
                                    stop.store(true, Ordering::Relaxed);
                                    false
                                }
                            }
                        };
                        let mut ok = true;
                        // enumerated part of this shard
                        let mut i = shard;
                        while ok && i < p.enum_count && !stop.load(Ordering::Relaxed) {
                            let mut case = Case::random(case_seed(p, cfg.seed, i, true));
                            ok = one(&mut case, &|c| (p.enum_run)(i, c), i, Some(i));
                            i += SHARDS;
                        }
                        let n = total / SHARDS + u64::from(shard < total % SHARDS);
                        for k in 0..n {
                            if !ok || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let order = (1 << 40) + k * SHARDS + shard;
                            let mut case = Case::random(case_seed(p, cfg.seed, order, false));
                            ok = one(&mut case, &|c| (p.run)(c), order, None);
                        }
                        let mut m = merged.lock().unwrap();
                        m.cases += st.cases;
                        m.evaluations += st.evaluations;
                        m.nontrivial += st.nontrivial;
                        m.distinct.extend(st.distinct);
                        for (l, c) in st.labels {
                            *m.labels.entry(l).or_insert(0) += c;
                        }
                        for (k, (c, t)) in st.known {
                            m.known.entry(k).or_insert((0, t)).0 += c;
                        }
                        if m.samples.len() < 12 {
                            m.samples.extend(st.samples);
                        }
                    }
                    journal.mark(t, IDLE, 0);
                    clocks[t].store(0, Ordering::SeqCst);
                    if active.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
        // watchdog: a case that burns a minute of processor time does not terminate;
        // no progress without processor time is an error of the run
        let (done, beats, active, clocks) = (&done, &beats, &active, &clocks);
        s.spawn(move || {
            let cpu = |t: usize| -> f64 {
                let id = clocks[t].load(Ordering::SeqCst);
                let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                if id == 0 || unsafe { libc::clock_gettime(id, &mut ts) } != 0 {
                    return 0.0;
                }
                ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
            };
            let mut last: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); beats.len()];
            let mut since = Instant::now();
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for t in 0..beats.len() {
                    let b = beats[t].load(Ordering::Relaxed);
                    let now = cpu(t);
                    if last[t].0 != b {
                        last[t] = (b, now);
                        since = Instant::now();
                    } else if now - last[t].1 > HANG_CPU_S {
                        // the parent re-runs the cases in flight and reports
                        std::process::abort();
                    }
                }
                if since.elapsed().as_secs() > 240 && active.load(Ordering::SeqCst) > 0 {
                    crate::say!("ERROR property={} no case finished for 240 s", p.id);
                    std::process::exit(BROKEN);
                }
            }
        });
    });

    let stats = merged.into_inner().unwrap();
    let mut failures = failures.into_inner().unwrap();
    let harness_error = herr.into_inner().unwrap();
    failures.sort_by_key(|f| f.order);
    // one that only suffers from what another has done to the process comes later
    let apart = matches!(p.id, "C33" | "C35");
    if apart {
        let alone = |f: &Failure| {
            let mut c = Case::replay(&f.choices, false);
            f.enum_index.is_none() && elsewhere(p.id, &mut c).is_err()
        };
        if let Some(k) = failures.iter().position(alone) {
            failures.swap(0, k);
        }
    }
    let mut failure = None;
    if let Some(f) = failures.into_iter().next() {
        let (choices, message, kind) = match f.enum_index {
            Some(i) => (f.choices, f.message, format!("enum {i}")),
            None => {
                // a shrunk candidate may hang or kill the process: the failure already
                // found is then reported as it is
                journal.mark(0, f.order, 0);
                let (raw, why) = write_replay(p, cfg, "random", &f.choices, &f.message);
                let over = std::sync::Arc::new(AtomicBool::new(false));
                let (flag, id) = (over.clone(), p.id);
                std::thread::spawn(move || {
                    let t = Instant::now();
                    while t.elapsed().as_secs() < 100 {
                        std::thread::sleep(std::time::Duration::from_millis(100));
                        if flag.load(Ordering::SeqCst) {
                            return;
                        }
                    }
                    crate::say!("{id}: {why}");
                    crate::say!("VIOLATION property={id} replay={raw}");
                    std::process::exit(FAILED);
                });
                let run = |c: &mut Case| if apart { elsewhere(p.id, c) } else { (p.run)(c) };
                let (c, m) = shrink(&run, f.choices, f.message);
                over.store(true, Ordering::SeqCst);
                journal.mark(0, IDLE, 0);
                (c, m, "random".to_string())
            }
        };
        failure = Some(write_replay(p, cfg, &kind, &choices, &message));
    } else if harness_error.is_none() {
        if let Err(m) = (p.finish)() {
            failure = Some(write_replay(p, cfg, "finish", &[], &m));
        }
    }

    // evidence
    let mut samples = Vec::new();
    for ch in stats.samples.iter().take(6) {
        let mut c = Case::replay(ch, true);
        let _ = run_case(&|c| (p.run)(c), &mut c);
        let mut text = c.notes.join("; ");
        if text.len() > 900 {
            let mut cut = 900;
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            text.truncate(cut);
            text.push_str("...");
        }
        samples.push(text);
    }
    let mut cov = String::new();
    cov.push_str(&format!("\"evaluations\": {}, ", stats.evaluations));
    cov.push_str(&format!("\"cases\": {}, ", stats.cases));
    cov.push_str(&format!("\"distinct_nontrivial\": {}, ", stats.distinct.len()));
    cov.push_str(&format!("\"enumerated_cases\": {}, ", p.enum_count));
    cov.push_str(&format!("\"rule\": {}, ", json_str(p.rule)));
    if !p.exhaustive_note.is_empty() {
        cov.push_str(&format!("\"exhaustive_parts\": {}, ", json_str(p.exhaustive_note)));
    }
    cov.push_str(&format!("\"variant\": {}, ", json_str(&cfg.variant)));
    let labels: Vec<String> = stats
        .labels
        .iter()
        .map(|(l, c)| format!("{}: {}", json_str(l), c))
        .collect();
    cov.push_str(&format!("\"classes\": {{{}}}, ", labels.join(", ")));
    let known: Vec<String> = stats
        .known
        .iter()
        .map(|(l, (c, _))| format!("{}: {}", json_str(l), c))
        .collect();
    cov.push_str(&format!("\"known_findings_met\": {{{}}}, ", known.join(", ")));
    for (i, m) in cfg.merge.iter().enumerate() {
        if let Ok(t) = std::fs::read_to_string(m) {
            cov.push_str(&format!("\"other_run_{}\": {}, ", i, t.trim()));
        }
    }
    let s: Vec<String> = samples.iter().map(|x| json_str(x)).collect();
    cov.push_str(&format!("\"samples\": [{}]", s.join(", ")));
    let asm: Vec<String> = p.assumptions.iter().map(|x| json_str(x)).collect();
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        json_str(p.id),
        json_str(&cfg.tier),
        cfg.seed,
        cov,
        asm.join(", "),
        t0.elapsed().as_secs_f64(),
        u32::from(failure.is_some()),
    );
    if !cfg.evidence.is_empty() {
        if let Err(e) = std::fs::write(&cfg.evidence, ev) {
            crate::say!("cannot write evidence {}: {e}", cfg.evidence);
        }
    }
    crate::say!(
        "{} [{}] cases={} evaluations={} distinct_nontrivial={} in {:.1}s",
        p.id,
        cfg.variant,
        stats.cases,
        stats.evaluations,
        stats.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    RunResult {
        failure,
        harness_error,
        known: stats
            .known
            .into_iter()
            .map(|(k, (_, t))| (k.to_string(), t))
            .collect(),
    }
}

pub fn write_replay(
    p: &Property,
    cfg: &Config,
    kind: &str,
    choices: &[u64],
    message: &str,
) -> (String, String) {
    let _ = std::fs::create_dir_all(&cfg.replay_dir);
    let path = format!(
        "{}/{}-{}-{:016x}.replay",
        cfg.replay_dir,
        p.id,
        cfg.variant,
        hash_choices(choices) ^ mix(kind.len() as u64, kind.bytes().map(u64::from).sum())
    );
    let mut notes = Vec::new();
    if kind == "random" {
        let mut c = Case::replay(choices, true);
        let _ = run_case(&|c| (p.run)(c), &mut c);
        notes = c.notes;
    }
    let list: Vec<String> = choices.iter().map(|v| v.to_string()).collect();
    let body = format!(
        "property {}\nvariant {}\nkind {}\nseed {}\nchoices {}\nmessage {}\n{}\n",
        p.id,
        cfg.variant,
        kind,
        cfg.seed,
        list.join(","),
        message.replace('\n', "\\n"),
        notes
            .iter()
            .map(|n| format!("# {}", n.replace('\n', "\\n")))
            .collect::<Vec<_>>()
            .join("\n")
    );
    let _ = std::fs::write(&path, body);
    (path, message.to_string())
}

pub struct Replay {
    pub property: String,
    pub variant: String,
    pub kind: String,
    pub seed: u64,
    pub choices: Vec<u64>,
}

pub fn read_replay(path: &str) -> Result<Replay, String> {
    let t = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let get = |k: &str| {
        t.lines()
            .find_map(|l| l.strip_prefix(&format!("{k} ")))
            .unwrap_or("")
            .to_string()
    };
    Ok(Replay {
        property: get("property"),
        variant: get("variant"),
        kind: get("kind"),
        seed: get("seed").parse().unwrap_or(1),
        choices: get("choices")
            .split(',')
            .filter_map(|x| x.trim().parse().ok())
            .collect(),
    })
}

/// Runs the case that `data` encodes; a failure is shrunk and stored
pub fn bytes_case(p: &Property, cfg: &Config, data: &[u8]) -> Option<(String, String)> {
    match run_bytes(p, data) {
        Ok(()) => None,
        Err((m, choices)) => {
            let mut c = Case::replay(&choices, false);
            if !matches!(run_case(&|c| (p.run)(c), &mut c), Verdict::Fail(_)) {
                crate::say!("the failure does not repeat as a choice sequence: {m}");
                return Some(write_replay(p, cfg, "random", &choices, &m));
            }
            let (c, m) = shrink(&|c| (p.run)(c), choices, m);
            Some(write_replay(p, cfg, "random", &c, &m))
        }
    }
}

/// Re-runs one stored case without generation; `Err` if it still fails
pub fn replay(p: &Property, r: &Replay) -> Result<Vec<String>, (String, Vec<String>)> {
    for _ in 1..repeats(p.id) {
        replay_once(p, r)?;
    }
    replay_once(p, r)
}

/// Exit codes of children, which code under test that ends the process does not use
pub const HELD: i32 = 78;
pub const FAILED: i32 = 79;
pub const BROKEN: i32 = 80;

/// Set where a process runs a single case
pub static ALONE: AtomicBool = AtomicBool::new(false);

/// Runs a case that may leave its process in any state in a process of its own
fn elsewhere(id: &'static str, c: &mut Case) -> Outcome {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let Mode::Replay(choices) = &c.mode else { return Ok(()) };
    let list: Vec<String> = choices.iter().map(|v| v.to_string()).collect();
    let child = std::env::current_exe().and_then(|exe| {
        Command::new(exe).args(["choices", id]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn()
    });
    let out = child.and_then(|mut ch| {
        if let Some(mut i) = ch.stdin.take() {
            let _ = i.write_all(list.join(" ").as_bytes());
        }
        ch.wait_with_output()
    });
    let Ok(out) = out else { return Ok(()) };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(String::from));
    match (get("@@ choices "), get("@@ fail ")) {
        (Some(l), Some(m)) => {
            c.rec = l.split(' ').filter_map(|w| w.parse().ok()).collect();
            Err(m)
        }
        _ => Ok(()),
    }
}

/// The other side of `elsewhere`
pub fn choices(p: &Property, list: &str) {
    let list: Vec<u64> = list.split_whitespace().filter_map(|w| w.parse().ok()).collect();
    for _ in 0..if p.id == "C33" { 30 } else { 1 } {
        let mut c = Case::replay(&list, false);
        if let Verdict::Fail(m) = run_case(&|c| (p.run)(c), &mut c) {
            let rec: Vec<String> = c.rec.iter().map(|v| v.to_string()).collect();
            crate::say!("@@ choices {}", rec.join(" "));
            crate::say!("@@ fail {}", m.replace('\n', " "));
            return;
        }
    }
}

/// How often a case is run again where its outcome depends on the scheduler
pub fn repeats(id: &str) -> usize {
    if id == "C33" {
        200
    } else {
        1
    }
}

fn replay_once(p: &Property, r: &Replay) -> Result<Vec<String>, (String, Vec<String>)> {
    let mut c = Case::replay(&r.choices, true);
    let v = if let Some(i) = r.kind.strip_prefix("enum ") {
        let i: u64 = i.parse().unwrap_or(0);
        run_case(&|c| (p.enum_run)(i, c), &mut c)
    } else {
        run_case(&|c| (p.run)(c), &mut c)
    };
    match v {
        Verdict::Pass => Ok(c.notes),
        Verdict::Fail(m) => Err((m, c.notes)),
        Verdict::HarnessError(m) => {
            crate::say!("harness error (not a violation): {m}");
            std::process::exit(3);
        }
    }
}
