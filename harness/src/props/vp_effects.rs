//! C35: what calls do besides giving their results

use super::clients::{host_bytes, ERRNO};
use super::threads::{describe, kind, op, perform, Op};
use crate::vp_engine::{catch, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_alloc;
use crate::vp_env::{self, Clock, HostFile};
use crate::vp_gen as g;
use crate::vp_watch::{Told, Watch};
use http_ntlm::messages::structures::FileTime;
use http_ntlm::messages::Challenge;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::Write;
use std::time::{Duration, SystemTime};

/// What a process has only one of
#[derive(PartialEq)]
struct World {
    env: BTreeMap<OsString, OsString>,
    level: log::LevelFilter,
    logger: [usize; 2],
    hook: [usize; 2],
    signals: Vec<u8>,
}

fn parts<T: ?Sized>(p: &T) -> [usize; 2] {
    assert_eq!(std::mem::size_of::<&T>(), std::mem::size_of::<[usize; 2]>());
    unsafe { std::mem::transmute_copy::<&T, [usize; 2]>(&p) }
}

fn world() -> World {
    let hook = std::panic::take_hook();
    let which = parts(&*hook);
    std::panic::set_hook(hook);
    let mut mask: libc::sigset_t = unsafe { std::mem::zeroed() };
    unsafe { libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut mask) };
    let n = std::mem::size_of_val(&mask);
    World {
        env: std::env::vars_os().collect(),
        level: log::max_level(),
        logger: parts(log::logger()),
        hook: which,
        signals: unsafe { std::slice::from_raw_parts((&raw const mask).cast::<u8>(), n) }.to_vec(),
    }
}

impl World {
    fn same(&self, now: &World) -> Outcome {
        for (k, v) in &self.env {
            ensure!(now.env.get(k) == Some(v), "the environment variable {k:?} is {:?} afterwards, was {v:?}", now.env.get(k));
        }
        if let Some((k, v)) = now.env.iter().find(|(k, _)| !self.env.contains_key(*k)) {
            return Err(format!("the environment variable {k:?} is set to {v:?}"));
        }
        ensure!(self.level == now.level, "the level of logging is {} afterwards, was {}", now.level, self.level);
        ensure!(self.logger == now.logger, "another logger is installed");
        ensure!(self.hook == now.hook, "another panic hook is installed");
        ensure!(self.signals == now.signals, "signals are blocked or unblocked");
        Ok(())
    }
}

enum Step {
    Op(Op),
    Fill,
    Time(Duration),
    /// with a clock this many seconds before 1970
    Early(u32),
}

fn go(s: &Step) -> Result<(), String> {
    match s {
        Step::Op(o) => perform(o, &mut Vec::new()).map(drop),
        Step::Fill => catch(|| {
            let mut m = Challenge::default();
            m.fill_from_env();
            let _ = format!("{m:?}");
        }),
        Step::Time(d) => catch(|| {
            let t = FileTime::now();
            let f = FileTime::try_from(SystemTime::UNIX_EPOCH + *d).ok();
            let _ = format!("{t:?} {:?}", f.as_ref());
        }),
        Step::Early(secs) => {
            let _clock = Clock::early(*secs);
            catch(FileTime::now).map(drop)
        }
    }
}

fn c35(c: &mut Case) -> Outcome {
    let n = 1 + c.below(4);
    let steps: Vec<Step> = (0..n)
        .map(|_| match c.weighted(&[12, 1, 1, 1]) {
            0 => match op(c) {
                // the harness itself would start a thread
                Op::Handed(s, _) => Step::Op(Op::Exchange(s)),
                o => Step::Op(o),
            },
            1 => Step::Fill,
            2 => Step::Time(g::clock(c)),
            _ => Step::Early(1 + g::int(c, 31) as u32),
        })
        .collect();
    let vars: Vec<(&str, Option<Vec<u8>>)> = vp_env::VARS
        .iter()
        .map(|v| {
            let t = match c.weighted(&[3, 2, 1]) {
                0 => None,
                1 => Some(g::text(c, 20).into_bytes()),
                _ => Some([g::text(c, 4).as_bytes(), &[0xff]].concat()),
            };
            (*v, t.map(|b| b.into_iter().filter(|x| *x != 0).collect()))
        })
        .collect();
    let host = match c.weighted(&[6, 2, 2]) {
        0 => HostFile::Content(host_bytes(c)),
        1 => HostFile::OpenError(*c.pick(ERRNO)),
        _ => HostFile::Unreadable,
    };
    let clock = c.flip().then(|| g::clock(c));
    let levels = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Trace];
    let level = *c.pick(&levels);
    for s in &steps {
        match s {
            Step::Op(o) => {
                c.label(kind(o));
                c.note(|| describe(o));
            }
            Step::Fill => c.label("target information from the environment"),
            Step::Time(_) => c.label("times"),
            Step::Early(_) => c.label("clock before 1970"),
        }
    }
    c.label(["nothing logged", "errors logged", "warnings logged", "everything logged"][levels.iter().position(|l| *l == level).unwrap_or(0)]);
    c.label(match host {
        HostFile::Content(_) => "host name file",
        HostFile::OpenError(_) => "host name file cannot be opened",
        _ => "host name file cannot be read",
    });
    let rounds = if c.chance(1, 8) { 10 } else { 2 };
    c.note(|| format!("environment {vars:?} host name file {host:?} clock {clock:?} logging {level}"));

    // of everything a process has only one of, there is one user at a time
    let run = || -> Result<(Told, bool, Outcome, Vec<i64>), String> {
        let guard = vp_env::with(&vars, host.clone());
        let was = log::max_level();
        log::set_max_level(level);
        let _clock = clock.map(Clock::at);
        let before = world();
        let watch = Watch::begin()?;
        let (failed, told) = watch.during(|| {
            let failed = steps.iter().filter(|s| go(s).is_err()).count() > 0;
            let _ = std::io::stdout().flush();
            failed
        });
        // what is needed only once is there now
        let mut held = Vec::with_capacity(rounds);
        for _ in 0..rounds {
            steps.iter().for_each(|s| drop(go(s)));
            forget_all();
            held.push(vp_alloc::live());
        }
        let same = before.same(&world());
        log::set_max_level(was);
        crate::vp_engine::logged();
        drop(guard);
        Ok((told, failed, same, held))
    };
    let r = std::thread::scope(|s| s.spawn(run).join()).expect("vp_ thread");
    let (told, failed, same, held) = r.unwrap_or_else(|m| panic!("vp_ watching system calls: {m}"));
    c.evals = told.calls as u64 + 5;
    c.nontrivial = told.calls > 0 || failed;
    c.label_if(told.calls == 0, "asks nothing of the system");
    c.label_if(failed, "a call fails");
    if let Some(e) = told.effects.first() {
        return Err(format!("besides giving its result, a call does {e}; {} such", told.effects.len()));
    }
    ensure!(told.left_open == 0, "{} files are left open", told.left_open);
    let more = held[rounds - 1] - held[0];
    ensure!(more <= 0, "{more} bytes more are held when the same calls are repeated {} times", rounds - 1);
    same
}

/// What the harness keeps of the last call
fn forget_all() {
    let _ = catch(|| ());
    crate::vp_engine::logged();
}

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C35",
        rule: "one to four operations (decoding, encoding, whole exchanges, clients used again, random values, target information from the environment, times with clocks before and after 1970, calls that panic) with any environment variables, host name file, failure to open or read it, and log level, in a thread whose system calls are all told; non-trivial: something was asked of the operating system, or a call failed",
        run: c35,
        cases: 30_000,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &["seccomp filters tell every system call but those listed as harmless in vp_watch.rs"],
        exhaustive_note: "",
    }]
}
