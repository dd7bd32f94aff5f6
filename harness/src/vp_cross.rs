//! What other machines do. C32: the properties on machines of another word size (a 32-bit build of
//! the whole harness) and of another byte order (interpreted by Miri). C33: threads under Miri's scheduler

use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vp_harness::{say, vp_engine as eng};

const BIG: &str = "s390x-unknown-linux-gnu";

/// All that a 32-bit machine decides at full speed
const ALL: [&str; 30] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25", "C26", "C28", "C29", "C30", "C31",
    "C33",
];

/// Properties whose oracle needs neither the interposed system calls nor a processor clock
const IDS: [&str; 23] = [
    "C02", "C08", "C09", "C10", "C11", "C03", "C31", "C05", "C04", "C18", "C06", "C07", "C01", "C12", "C15", "C17",
    "C19", "C20", "C21", "C22", "C24", "C26", "C28",
];

#[derive(Default, Debug)]
struct Seen {
    /// property, enumerated, order
    at: Option<(String, String, u64)>,
    cases: BTreeMap<String, (u64, u64)>,
    nontrivial: HashSet<(String, String, u64)>,
    fail: Option<String>,
    choices: String,
    notes: Vec<String>,
    ended: bool,
    samples: Vec<String>,
    stderr: String,
    killed: bool,
    status: String,
}

/// Without the checks that find undefined behaviour Miri does more than twice as much
const FAST: &str = " -Zmiri-disable-validation -Zmiri-disable-stacked-borrows";

/// Flags for a worker of C33: one of several schedules, with few or many changes of thread
fn schedule(n: u64) -> String {
    let rate = ["0.01", "0.05", "0.2", "0.5"][n as usize % 4];
    format!("{FAST} -Zmiri-seed={n} -Zmiri-preemption-rate={rate}")
}

/// `cargo miri run`; check.sh has built the sysroot
fn miri(flags: &str) -> Command {
    let mut c = Command::new("cargo");
    let tgt = std::env::var("VP_MIRI").unwrap_or_else(|_| "/verif/target/miri".into());
    c.args(["+nightly", "miri", "run", "-q", "--locked", "--offline", "--features", "mini", "--bin", "mini"])
        .args(["--target", BIG, "--target-dir", &tgt, "--"])
        .env("MIRI_SYSROOT", format!("{tgt}/sys"))
        .env_remove("RUSTUP_TOOLCHAIN")
        .env("VP_REPO", "/nonexistent")
        .env("RUSTFLAGS", "--cfg vp_hooks -Awarnings")
        .env("RUST_BACKTRACE", "0")
        .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks{flags}"));
    c
}

fn worker(ids: &[&str], flags: &str, seed: u64, worker: u64, workers: u64, secs: u64) -> Seen {
    let mut s = Seen::default();
    let mut c = miri(flags);
    c.args(["run", &seed.to_string(), &worker.to_string(), &workers.to_string(), &secs.to_string()])
        .args(ids)
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    use std::os::unix::process::CommandExt;
    c.process_group(0);
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            s.stderr = e.to_string();
            return s;
        }
    };
    let pid = child.id() as i32;
    let (out, mut err) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    // the code under test writes to standard error too: keep the end of it
    let tail = Arc::new(Mutex::new(Vec::new()));
    let t = tail.clone();
    let errs = std::thread::spawn(move || {
        let mut b = [0; 4096];
        while let Ok(n) = err.read(&mut b) {
            if n == 0 {
                break;
            }
            let mut t = t.lock().unwrap();
            t.extend_from_slice(&b[..n]);
            let cut = t.len().saturating_sub(20000);
            t.drain(..cut);
        }
    });
    let over = Arc::new(Mutex::new((false, false)));
    let flag = over.clone();
    let start = Instant::now();
    let watch = std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let mut f = flag.lock().unwrap();
        if f.0 {
            return;
        }
        if start.elapsed().as_secs() > secs + 150 {
            f.1 = true;
            unsafe { libc::kill(-pid, libc::SIGKILL) };
            return;
        }
    });
    for l in BufReader::new(out).split(b'\n').map_while(Result::ok) {
        let l = String::from_utf8_lossy(&l).into_owned();
        let Some(l) = l.strip_prefix("@@ ") else { continue };
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let w: Vec<&str> = v.split(' ').collect();
        match k {
            "case" => s.at = Some((w[0].into(), w[1].into(), w[2].parse().unwrap_or(0))),
            "pass" => {
                if let Some(at) = &s.at {
                    let e = s.cases.entry(at.0.clone()).or_default();
                    e.0 += 1;
                    if w[0] == "1" {
                        e.1 += 1;
                        s.nontrivial.insert(at.clone());
                        if s.samples.len() < 2 {
                            s.samples.push(format!("{BIG}: {} case {} (enumerated: {})", at.0, at.2, at.1));
                        }
                    }
                }
            }
            "fail" => s.fail = Some(v.into()),
            "choices" => s.choices = v.into(),
            "note" => s.notes.push(v.into()),
            "end" => s.ended = true,
            _ => {}
        }
    }
    s.status = child.wait().map(|x| x.to_string()).unwrap_or_default();
    let mut f = over.lock().unwrap();
    f.0 = true;
    s.killed = f.1;
    drop(f);
    let _ = watch.join();
    let _ = errs.join();
    s.stderr = String::from_utf8_lossy(&tail.lock().unwrap()).into_owned();
    s
}

/// What Miri says of code that breaks the rules of the language or takes the process down
fn verdict(stderr: &str) -> Option<String> {
    let l = stderr.lines().find(|l| {
        ["error: Undefined Behavior", "error: abnormal termination", "error: resource exhaustion"]
            .iter()
            .any(|p| l.starts_with(p))
            || l.starts_with("error: ") && l.contains("deadlock")
    })?;
    let at = stderr.lines().skip_while(|x| *x != l).find(|x| x.trim_start().starts_with("-->")).unwrap_or("");
    Some(format!("{} {}", l.trim_start_matches("error: "), at.trim()))
}

fn store(cfg: &eng::Config, id: &str, s: &Seen, what: &str) -> String {
    let at = s.at.clone().unwrap_or_default();
    let _ = std::fs::create_dir_all(&cfg.replay_dir);
    let path = format!("{}/{id}-{}-{}-{}.replay", cfg.replay_dir, BIG, at.0, at.2);
    let body = format!(
        "property {id}\nvariant miri\nkind platform {} {} {} {}\nseed {}\nchoices {}\nmessage {}\n{}\n",
        BIG,
        at.0,
        at.1,
        at.2,
        cfg.seed,
        s.choices,
        what,
        s.notes.iter().map(|n| format!("# {n}")).collect::<Vec<_>>().join("\n")
    );
    let _ = std::fs::write(&path, body);
    path
}

/// One property's check on the 32-bit build: (cases, distinct non-trivial cases)
fn native(cfg: &eng::Config, id: &str, scale: f64) -> Result<(u64, u64), i32> {
    let exe = std::env::var("VP_I686").unwrap_or_default();
    let o = Command::new(exe)
        .args(["run", id, "--variant", "i686", "--replays", &cfg.replay_dir])
        .args(["--seed", &(cfg.seed + 900).to_string(), "--scale", &scale.to_string()])
        .output();
    let o = match o {
        Ok(o) => o,
        Err(e) => {
            say!("ERROR property=C32 cannot start the 32-bit build: {e}");
            return Err(3);
        }
    };
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    if o.status.code() == Some(1) {
        for l in out.lines() {
            match l.strip_prefix(&format!("VIOLATION property={id} ")) {
                Some(rest) => say!("VIOLATION property=C32 {rest}"),
                None => match l.strip_prefix(&format!("{id}: ")) {
                    Some(m) => say!("C32: {id} on i686: {m}"),
                    None => {}
                },
            }
        }
        return Err(1);
    }
    if !o.status.success() {
        say!("ERROR property=C32 {id} on i686: {} {}", o.status, out.lines().last().unwrap_or_default());
        return Err(3);
    }
    let get = |k: &str| {
        let w = out.split_whitespace().find_map(|w| w.strip_prefix(k));
        w.and_then(|w| w.parse().ok()).unwrap_or(0)
    };
    Ok((get("cases="), get("distinct_nontrivial=")))
}

fn all_workers(cfg: &eng::Config, ids: &[&str], flags: impl Fn(u64) -> String, secs: u64) -> Vec<Seen> {
    std::thread::scope(|sc| {
        let n = cfg.threads as u64;
        let start = |w| {
            let f = flags(w);
            sc.spawn(move || worker(ids, &f, cfg.seed, w, n, secs))
        };
        let h: Vec<_> = (0..n).map(start).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// Reports the first failure; returns the workers that gave no answer
fn conclude(cfg: &eng::Config, id: &str, seen: &[Seen], code: &mut i32) -> Vec<String> {
    let mut unclear = Vec::new();
    for s in seen {
        let at = s.at.clone().unwrap_or_default();
        let found = match (&s.fail, verdict(&s.stderr)) {
            // a shrunk candidate may have ended the process
            (Some(m), _) => Some(m.clone()),
            (None, Some(m)) => Some(m),
            _ => None,
        };
        if let Some(m) = found {
            if *code == 0 {
                let m = format!("{} on {BIG}: {m}", at.0);
                let path = store(cfg, id, s, &m);
                say!("{id}: {m}");
                say!("VIOLATION property={id} replay={path}");
                *code = 1;
            }
        } else if !s.ended {
            let e: Vec<&str> = s.stderr.lines().filter(|l| l.starts_with("error")).collect();
            let why = if s.killed { "stopped after its time".into() } else { format!("{} {}", s.status, e.join(" / ")) };
            unclear.push(format!("{BIG} at {} {}: {why}", at.0, at.2));
        }
    }
    unclear
}

fn counts(m: &BTreeMap<String, (u64, u64)>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("\"{k}\": {}", v.0)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn run(cfg: &eng::Config) -> i32 {
    let t0 = Instant::now();
    let thorough = cfg.tier == "thorough";
    let mut code = 0;
    let mut narrow = BTreeMap::new();
    for id in ALL {
        match native(cfg, id, if thorough { 0.5 } else { 0.08 }) {
            Ok(n) => narrow.insert(id.to_string(), n),
            Err(c) => {
                code = c;
                break;
            }
        };
    }
    let secs: u64 = std::env::var("VP_MIRI_SECONDS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if thorough { 400 } else { 120 });
    let seen: Vec<Seen> = if code != 0 {
        Vec::new()
    } else {
        all_workers(cfg, &IDS, |w| if w % 4 == 0 { String::new() } else { FAST.into() }, secs)
    };
    let unclear = conclude(cfg, "C32", &seen, &mut code);
    let mut big: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut distinct = HashSet::new();
    for s in &seen {
        for (k, v) in &s.cases {
            let e = big.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        distinct.extend(s.nontrivial.iter().cloned());
    }
    let both = || narrow.values().chain(big.values());
    let cases: u64 = both().map(|v| v.0).sum();
    let nontrivial = narrow.values().map(|v| v.1).sum::<u64>() + distinct.len() as u64;
    let samples: Vec<String> = seen.iter().flat_map(|s| &s.samples).take(12).map(|s| eng::json_str(s)).collect();
    let notes: Vec<String> = unclear.iter().map(|s| eng::json_str(s)).collect();
    let ev = format!(
        "{{\"property\": \"C32\", \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {cases}, \"distinct_nontrivial\": {nontrivial}, \"rule\": {}, \"classes\": {{\"32-bit (i686)\": {}, \"big-endian (s390x, Miri)\": {}}}, \"without_answer\": [{}], \"samples\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        eng::json_str(&cfg.tier),
        cfg.seed,
        eng::json_str("one case is one case of another property's check, on a 32-bit build or interpreted for a big-endian machine; it is non-trivial if that property's own rule says so, and counted once per machine"),
        counts(&narrow),
        counts(&big),
        notes.join(", "),
        samples.join(", "),
        eng::json_str("Miri interprets s390x faithfully; s390x and i686 stand for big-endian and 32-bit machines"),
        t0.elapsed().as_secs_f64(),
        u32::from(code == 1),
    );
    if !cfg.evidence.is_empty() {
        if let Err(e) = std::fs::write(&cfg.evidence, ev) {
            say!("cannot write evidence {}: {e}", cfg.evidence);
        }
    }
    let interpreted: u64 = big.values().map(|v| v.0).sum();
    say!("C32 cases={cases} ({interpreted} interpreted) distinct_nontrivial={nontrivial} in {:.1}s", t0.elapsed().as_secs_f64());
    for u in &unclear {
        say!("NOTE no answer from {u}");
    }
    if code == 0 && big.is_empty() {
        say!("ERROR property=C32 nothing ran on {BIG}");
        code = 3;
    }
    code
}

/// C33 under Miri's scheduler, which also finds data races and deadlocks
pub fn threads(cfg: &eng::Config) -> i32 {
    let secs: u64 = std::env::var("VP_MIRI_SECONDS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if cfg.tier == "thorough" { 400 } else { 60 });
    let mut code = 0;
    let seen = all_workers(cfg, &["C33"], |w| schedule(cfg.seed * 100 + w), secs);
    let unclear = conclude(cfg, "C33", &seen, &mut code);
    let total = |k: fn(&(u64, u64)) -> u64| -> u64 { seen.iter().flat_map(|s| s.cases.values()).map(k).sum() };
    let (cases, nontrivial) = (total(|v| v.0), total(|v| v.1));
    let notes: Vec<String> = unclear.iter().map(|s| eng::json_str(s)).collect();
    let ev = format!(
        "{{\"engine\": \"Miri: random schedules, data races, deadlocks\", \"seconds\": {secs}, \"processes\": {}, \"evaluations\": {cases}, \"nontrivial\": {nontrivial}, \"without_answer\": [{}]}}",
        seen.len(),
        notes.join(", ")
    );
    if !cfg.evidence.is_empty() {
        if let Err(e) = std::fs::write(&cfg.evidence, ev) {
            say!("cannot write evidence {}: {e}", cfg.evidence);
        }
    }
    say!("C33 [Miri] cases={cases} nontrivial={nontrivial}");
    for u in &unclear {
        say!("NOTE no answer from {u}");
    }
    if code == 0 && cases == 0 {
        say!("ERROR property=C33 nothing ran under Miri");
        code = 3;
    }
    code
}

/// Runs a stored case again; one of threads under several schedules
pub fn replay(path: &str, id: &str) -> i32 {
    if id != "C33" {
        return replay_once(path, id, "");
    }
    for n in 0..16 {
        let code = replay_once(path, id, &schedule(n));
        if code != 0 {
            return code;
        }
    }
    0
}

fn replay_once(path: &str, id: &str, flags: &str) -> i32 {
    let full = std::fs::canonicalize(path).map(|p| p.display().to_string()).unwrap_or(path.into());
    match miri(flags).args(["replay", &full]).output() {
        Ok(o) => {
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                say!("{l}");
            }
            if o.status.success() {
                return 0;
            }
            if let Some(m) = verdict(&String::from_utf8_lossy(&o.stderr)) {
                say!("{id}: on {BIG}: {m}");
                say!("VIOLATION property={id} replay={path}");
                return 1;
            }
            o.status.code().unwrap_or(3)
        }
        Err(e) => {
            say!("ERROR cannot start: {e}");
            3
        }
    }
}
