//! `vp run ID`, `vp replay FILE`, `vp list`

mod vp_cross;

use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command};
use eng::{BROKEN, FAILED, HELD};
use vp_harness::{props, say, vp_engine as eng, vp_env};

fn arg(name: &str, default: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter()
        .position(|x| x == name)
        .and_then(|i| a.get(i + 1).cloned())
        .unwrap_or_else(|| default.to_string())
}

fn args(name: &str) -> Vec<String> {
    let a: Vec<String> = std::env::args().collect();
    (0..a.len())
        .filter(|i| a[*i] == name)
        .filter_map(|i| a.get(i + 1).cloned())
        .collect()
}

fn config() -> eng::Config {
    eng::Config {
        seed: arg("--seed", "1").parse().unwrap_or(1),
        tier: arg("--tier", "quick"),
        evidence: arg("--evidence", ""),
        merge: args("--merge"),
        replay_dir: arg("--replays", "/verif/replays"),
        scale: arg("--scale", "1").parse().unwrap_or(1.0),
        threads: arg("--threads", "8").parse().unwrap_or(8),
        variant: arg(
            "--variant",
            if cfg!(feature = "strict") {
                "strict"
            } else if cfg!(feature = "win") {
                if cfg!(debug_assertions) { "win" } else { "winrel" }
            } else if cfg!(debug_assertions) {
                "std"
            } else {
                "rel"
            },
        ),
        journal: arg("--journal", ""),
    }
}

fn property(id: &str) -> eng::Property {
    match props::find(id) {
        Some(p) => p,
        None => {
            say!("unknown property {id}");
            exit(2)
        }
    }
}

/// Output of the code under test goes nowhere, or to where the check looks at it
fn isolate(id: &str) {
    unsafe {
        let out = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 50);
        eng::set_out(out);
        if id == "C13" {
            vp_harness::props::auth::capture_output();
        } else {
            let null = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_WRONLY, 0) as i32;
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            libc::close(null);
        }
    }
}

fn limit(gb: u64) {
    let l = libc::rlimit64 { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe {
        // ThreadSanitizer reserves address space without end
        if std::env::var_os("TSAN_OPTIONS").is_none() {
            libc::setrlimit64(libc::RLIMIT_AS, &l);
        }
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn watching(id: &str) -> Result<(), String> {
    #[cfg(target_arch = "x86_64")]
    if matches!(id, "C35" | "C36") {
        return vp_harness::vp_watch::self_test().map_err(|m| format!("watching system calls does not work: {m}"));
    }
    let _ = id;
    Ok(())
}

fn start(id: &str) {
    eng::install_panic_hook();
    // C35 in its release build: as in an application that installs no logger
    if id != "C35" || cfg!(debug_assertions) {
        eng::install_log();
    }
    isolate(id);
    vp_env::init();
    if let Err(e) = vp_env::self_test().and_then(|_| vp_harness::vp_spec::self_test()).and_then(|_| watching(id)) {
        say!("ERROR {e}");
        exit(BROKEN);
    }
}

/// Runs the cases of a property in this process
fn work(id: &str) -> i32 {
    let p = property(id);
    let cfg = config();
    limit(20);
    start(id);
    let r = eng::run(&p, &cfg);
    if let Some(m) = r.harness_error {
        say!("ERROR property={id} harness: {m}");
        return BROKEN;
    }
    for (k, m) in &r.known {
        say!("KNOWN-FINDING: property={id} {k} {m}");
    }
    if let Some((path, m)) = r.failure {
        say!("{id}: {m}");
        say!("VIOLATION property={id} replay={path}");
        return FAILED;
    }
    HELD
}

fn one(id: &str) -> i32 {
    let p = property(id);
    limit(6);
    let l = libc::rlimit { rlim_cur: 60, rlim_max: 61 };
    unsafe { libc::setrlimit(libc::RLIMIT_CPU, &l) };
    start(id);
    eng::ALONE.store(true, std::sync::atomic::Ordering::SeqCst);
    let order = arg("--order", "0").parse().unwrap_or(0);
    let (seed, en) = (config().seed, arg("--enum", "0") == "1");
    match eng::on_stack(id, || (0..eng::repeats(id)).try_for_each(|_| eng::run_one(&p, seed, order, en))) {
        Ok(()) => HELD,
        Err(m) => {
            say!("{id}: {m}");
            FAILED
        }
    }
}

/// Exit code of ThreadSanitizer
const RACE: i32 = 66;

/// What ThreadSanitizer has written next to the other temporary files
fn race_report() -> Option<String> {
    let dir = std::fs::read_dir(std::env::temp_dir()).ok()?;
    let texts = dir
        .flatten()
        .filter(|f| f.file_name().to_string_lossy().starts_with("tsan."))
        .filter_map(|f| std::fs::read_to_string(f.path()).ok());
    let line = |t: String| t.lines().find_map(|l| l.strip_prefix("SUMMARY: ").map(String::from));
    texts.filter_map(line).next()
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("own path"))
}

/// Runs `work` in a child; a child that dies is a violation if a case in flight kills it again
fn run(id: &str) -> i32 {
    let cfg = config();
    property(id);
    let journal = format!("{}/vp-{}-{}.journal", std::env::temp_dir().display(), id, std::process::id());
    let mut all: Vec<String> = std::env::args().skip(1).collect();
    all[0] = "work".into();
    let status = me().args(&all).args(["--journal", &journal]).status();
    let code = match status {
        Err(e) => {
            say!("ERROR cannot start: {e}");
            3
        }
        Ok(s) if s.code() == Some(HELD) => 0,
        Ok(s) if s.code() == Some(FAILED) => 1,
        Ok(s) if matches!(s.code(), Some(BROKEN)) => 3,
        Ok(s) => {
            let sig = s.signal().unwrap_or(0);
            let race = s.code() == Some(RACE);
            if let (Some(c), false) = (s.code(), race) {
                say!("{id}: the process ended early (exit code {c}); re-running the cases in flight");
            } else if race {
                say!("{id}: ThreadSanitizer reports a data race; re-running the cases in flight");
            } else {
                say!("{id}: the process died of signal {sig}; re-running the cases in flight");
            }
            let mut code = 3;
            for (order, en) in eng::read_journal(&journal) {
                if let Some(how) = dies(id, cfg.seed, order, en) {
                    let p = property(id);
                    let kind = format!("crash {} {}", u32::from(en), order);
                    let (path, m) = eng::write_replay(&p, &cfg, &kind, &[], &how);
                    say!("{id}: {m}");
                    say!("VIOLATION property={id} replay={path}");
                    code = 1;
                    break;
                }
            }
            let memory = [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP].contains(&sig);
            let report = match code {
                3 if race => race_report(),
                // what threads do to each other need not happen again at the first attempt
                3 if id == "C33" && memory => Some(format!("the process dies of signal {sig}")),
                _ => None,
            };
            if let Some(how) = report {
                let (path, m) = eng::write_replay(&property(id), &cfg, "finish", &[], &how);
                say!("{id}: {m}");
                say!("VIOLATION property={id} replay={path}");
                code = 1;
            }
            if code == 3 {
                say!("ERROR property={id} the process died ({s}) and no case reproduces it");
            }
            code
        }
    };
    let _ = std::fs::remove_file(&journal);
    code
}

fn dies(id: &str, seed: u64, order: u64, en: bool) -> Option<String> {
    let s = me()
        .args(["one", id, "--seed", &seed.to_string(), "--order", &order.to_string()])
        .args(["--enum", if en { "1" } else { "0" }])
        .status()
        .ok()?;
    match (s.signal(), s.code()) {
        (Some(libc::SIGXCPU), _) | (Some(libc::SIGKILL), _) => {
            Some("a case does not terminate (60 s of processor time)".into())
        }
        (Some(sig), _) => Some(format!("a case kills the process (signal {sig})")),
        (None, Some(RACE)) => Some(race_report().unwrap_or("a data race".into())),
        (None, Some(FAILED)) => Some("a case fails when run alone".into()),
        (None, Some(HELD | BROKEN)) => None,
        (None, Some(c)) => Some(format!("a case ends the process (exit code {c})")),
        _ => None,
    }
}

/// A case found by the coverage-guided fuzzer; `--inner 1` runs it in this process
fn bytes(id: &str) -> i32 {
    let p = property(id);
    let cfg = config();
    let path = std::env::args().nth(3).unwrap_or_default();
    let data = match std::fs::read(&path) {
        Ok(d) => d,
        Err(e) => {
            say!("cannot read {path}: {e}");
            return 2;
        }
    };
    if arg("--inner", "0") == "1" {
        limit(8);
        let l = libc::rlimit { rlim_cur: 120, rlim_max: 121 };
        unsafe { libc::setrlimit(libc::RLIMIT_CPU, &l) };
        start(id);
        return match eng::on_stack(id, || eng::bytes_case(&p, &cfg, &data)) {
            None => 0,
            Some((path, m)) => {
                say!("{id}: {m}");
                say!("VIOLATION property={id} replay={path}");
                1
            }
        };
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    match me().args(&a).args(["--inner", "1"]).status() {
        Ok(s) if s.code().is_some() => s.code().unwrap(),
        Ok(s) => {
            let hex: String = data.iter().map(|b| format!("{b:02x}")).collect();
            let how = format!("a case does not terminate or kills the process ({s})");
            let (path, m) = eng::write_replay(&p, &cfg, &format!("bytes {hex}"), &[], &how);
            say!("{id}: {m}");
            say!("VIOLATION property={id} replay={path}");
            1
        }
        Err(e) => {
            say!("ERROR cannot start: {e}");
            3
        }
    }
}

fn replay(path: &str) -> i32 {
    let r = match eng::read_replay(path) {
        Ok(r) => r,
        Err(e) => {
            say!("cannot read {path}: {e}");
            return 2;
        }
    };
    if r.kind.starts_with("platform ") {
        return vp_cross::replay(path, &r.property);
    }
    let p = property(&r.property);
    if let Some(rest) = r.kind.strip_prefix("crash ") {
        let mut it = rest.split(' ');
        let en = it.next() == Some("1");
        let order = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        return match dies(p.id, r.seed, order, en) {
            Some(m) => {
                say!("{}: {m}", p.id);
                say!("VIOLATION property={} replay={path}", p.id);
                1
            }
            None => {
                say!("{}: passes", p.id);
                0
            }
        };
    }
    if r.kind == "finish" {
        say!("a judgement of a whole run, which is repeated");
        let s = me().args(["run", p.id, "--seed", &r.seed.to_string()]).status();
        return s.ok().and_then(|s| s.code()).unwrap_or(3);
    }
    eng::ALONE.store(true, std::sync::atomic::Ordering::SeqCst);
    start(p.id);
    if let Some(h) = r.kind.strip_prefix("bytes ") {
        let data: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
        return match eng::on_stack(p.id, || eng::run_bytes(&p, &data)) {
            Ok(()) => {
                say!("{}: passes", p.id);
                0
            }
            Err((m, _)) => {
                say!("{}: {m}", p.id);
                say!("VIOLATION property={} replay={path}", p.id);
                1
            }
        };
    }
    match eng::on_stack(p.id, || eng::replay(&p, &r)) {
        Ok(notes) => {
            for n in notes {
                say!("  {n}");
            }
            say!("{}: passes", p.id);
            0
        }
        Err((m, notes)) => {
            for n in notes {
                say!("  {n}");
            }
            say!("{}: {m}", p.id);
            say!("VIOLATION property={} replay={path}", p.id);
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(2).cloned().unwrap_or_default();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&id),
        Some("work") => work(&id),
        Some("one") => one(&id),
        Some("bytes") => bytes(&id),
        Some("replay") => replay(&id),
        Some("choices") => {
            let p = property(&id);
            limit(6);
            let mut list = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut list);
            eng::ALONE.store(true, std::sync::atomic::Ordering::SeqCst);
            start(&id);
            eng::on_stack(p.id, || eng::choices(&p, &list));
            0
        }
        Some("threads") => vp_cross::threads(&config()),
        Some("cross") => vp_cross::run(&config()),
        Some("fresh") => {
            start("fresh");
            vp_harness::props::extra::fresh(&id)
        }
        Some("list") => {
            for p in props::all() {
                say!("{} cases={} enumerated={} {}", p.id, p.cases, p.enum_count, p.rule);
            }
            0
        }
        _ => {
            say!("usage: vp run ID [--tier T] [--seed N] | vp replay FILE | vp list");
            2
        }
    };
    exit(code);
}
