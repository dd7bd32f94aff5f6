//! C33: use from several threads at once, from within callbacks and after panics

use super::auth::{identity, setup, Setup};
use crate::vp_client::{self as vc, Exchange};
use crate::vp_conv::{self as cv, Codec};
use crate::vp_engine::{catch, no_enum, no_finish, on_log, Case, Outcome, Property, Rng, ALONE};
use crate::vp_env::Clock;
use crate::vp_gen as g;
use crate::vp_make as mk;
use crate::vp_spec as sp;
use http_ntlm::client::Client;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::vp_hooks::{OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Write};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc, Barrier};
use std::time::Duration;

// Whether a type may be sent to and shared between threads, asked without requiring it
struct Ask<T>(PhantomData<T>);
trait No {
    const SEND: bool = false;
}
impl<T> No for Ask<T> {}
impl<T: Send> Ask<T> {
    const SEND: bool = true;
}
struct AskSync<T>(PhantomData<T>);
trait NoSync {
    const SYNC: bool = false;
}
impl<T> NoSync for AskSync<T> {}
impl<T: Sync> AskSync<T> {
    const SYNC: bool = true;
}

/// Carries a value to another thread; `Ask` has allowed it
pub struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}
impl<T> Carry<T> {
    fn open(self) -> T {
        self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Broken {
    NoChallenge,
    Level(u32),
    Writer,
    Logger,
}

pub enum Op {
    Decode(Vec<u8>),
    Neg(Carry<Negotiate>),
    Chal(Carry<Challenge>),
    Auth(Carry<Authenticate>),
    Pairs(Carry<Vec<st::AvPair>>),
    Exchange(Setup),
    /// the client changes threads between its steps
    Handed(Setup, u32),
    /// a callback panics in the middle of an exchange, which the client then starts afresh
    Again(Setup, u32),
    Random,
    Broken(Broken),
}

/// What each operation gave
type Seen = BTreeMap<usize, String>;

struct Plan {
    ops: Vec<Op>,
    scripts: Vec<Script>,
    rounds: usize,
}

struct Script {
    /// operation, and the one to run from within its callbacks
    steps: Vec<(usize, Option<usize>)>,
    clock: Option<Duration>,
    pace: u64,
}

fn digest(s: &Setup, x: &Exchange) -> Result<String, String> {
    let a = s.accept(x)?;
    identity(s, x)?;
    if let (Some(k), Some(m)) = (a.session_key, x.key) {
        ensure!(k == m, "the server derives another session key");
    }
    if s.level >= 3 {
        let k = x.key.ok_or("no session key")?;
        let want = sp::mic(&k, &x.neg, &x.chal, &x.auth);
        ensure!(want == x.raw.mic, "the MIC does not verify");
        let time = a.time.unwrap_or(0);
        let given = s.ch.av.iter().any(|p| matches!(p, sp::Av::Time(t) if *t == time));
        ensure!(
            given || (vc::ticks(x.before) <= time && time <= vc::ticks(x.after)),
            "the time {time} is neither the server's nor this thread's"
        );
    }
    let r = &x.raw;
    Ok(format!("NEGOTIATE {} flags {:08x} {:?} {}", mk::hex(&x.neg), r.flags, &r.fields[2..5], mk::hex(&r.version)))
}

fn drawn(x: &Exchange, fresh: &mut Vec<[u8; 8]>, s: &Setup) {
    if let Ok(a) = s.accept(x) {
        fresh.extend(a.client_challenge);
        fresh.extend(a.key_sent.map(|k| [k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]]));
    }
}

thread_local! {
    static INNER: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
/// Runs the operation meant for callbacks, unless it is running already
fn callback() {
    if let Some(mut f) = INNER.take() {
        f();
        INNER.set(Some(f));
    }
}

struct Reenter(Vec<u8>);
impl Write for Reenter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        callback();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Breaks(usize);
impl Write for Breaks {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 < b.len() {
            std::panic::resume_unwind(Box::new("a writer panics"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn encode<T: Codec + std::fmt::Debug>(v: &T) -> Result<String, String> {
    let mut w = Reenter(Vec::new());
    let n = v.vp_encode_into(&mut w).map_err(|e| e.to_string())?;
    Ok(format!("{n} {}", mk::hex(&w.0)))
}

fn decode(b: &[u8]) -> String {
    let mut s = String::new();
    macro_rules! go {
        ($($t:ty),*) => {$(
            match <$t>::vp_decode(b) {
                Ok((v, rest)) => s.push_str(&format!("{v:?} {rest};")),
                Err(()) => s.push_str("no;"),
            }
        )*};
    }
    go!(Negotiate, Challenge, Authenticate, Flags, UnicodeString, OEMString, Vec<st::AvPair>);
    go!(st::Ntv2Challenge, st::LmChallenge, st::FileTime, st::MessageSignature, st::Version);
    s
}

/// A step of its own thread, or of this one; what it captures and gives may be sent, as `Ask` has told
fn at<T>(elsewhere: u32, f: impl FnOnce() -> T) -> T {
    if elsewhere == 0 {
        return f();
    }
    let f = Carry(f);
    std::thread::scope(|t| {
        let h = t.spawn(move || {
            let f = f;
            Carry((f.open())())
        });
        h.join().expect("vp_ thread").open()
    })
}

/// One operation's outcome as a text that is the same every time
pub fn perform(op: &Op, fresh: &mut Vec<[u8; 8]>) -> Result<String, String> {
    match op {
        Op::Decode(b) => catch(|| decode(b)),
        Op::Neg(m) => catch(|| encode(&m.0))?,
        Op::Chal(m) => catch(|| encode(&m.0))?,
        Op::Auth(m) => catch(|| encode(&m.0))?,
        Op::Pairs(m) => catch(|| encode(&m.0))?,
        Op::Exchange(s) => {
            let mut cl = s.client()?;
            let neg = vc::send_negotiate(&mut *cl)?;
            callback();
            let m = vc::decode_challenge(&s.chal)?;
            catch(|| cl.challenge(m))?;
            callback();
            let x = vc::answer(&mut *cl, &neg, &s.chal)?;
            drawn(&x, fresh, s);
            digest(s, &x)
        }
        Op::Handed(s, places) => {
            let mut cl = at(places & 1, || s.client())?;
            let neg = at(places & 2, || vc::send_negotiate(&mut *cl))?;
            let m = at(places & 4, || vc::decode_challenge(&s.chal))?;
            at(places & 8, || catch(|| cl.challenge(m)))?;
            let x = at(places & 16, || vc::answer(&mut *cl, &neg, &s.chal))?;
            drawn(&x, fresh, s);
            digest(s, &x)
        }
        Op::Again(s, calls) => {
            let level = vc::other(s.level);
            let spelling = vc::Spelling::Split { user: s.creds.user.clone(), domain: s.creds.domain.clone() };
            let mut cl = catch(|| vc::unsupported(s.level, &spelling, &s.creds.password))?;
            cl.set_version(s.version);
            cl.set_workstation(s.workstation.clone());
            // the user's own version() panics at some call
            vc::panic_after(Some(*calls));
            let m = vc::decode_challenge(&s.chal)?;
            let r = catch(|| {
                cl.negotiate();
                cl.challenge(m);
                cl.authenticate();
            });
            vc::panic_after(None);
            drop(r);
            let x = vc::exchange(&mut *cl, &s.chal)?;
            vc::other(level);
            drawn(&x, fresh, s);
            digest(s, &x)
        }
        Op::Random => {
            let k = catch(st::ExportedSessionKey::random)?;
            fresh.push(k[..8].try_into().expect("vp_ size"));
            let c = catch(st::ClientChallenge::random)?;
            fresh.push(c[..8].try_into().expect("vp_ size"));
            Ok("drawn".into())
        }
        Op::Broken(b) => {
            let level = vc::other(6);
            let s = vc::Spelling::Split { user: "u".into(), domain: "d".into() };
            let _ = catch(|| match b {
                Broken::NoChallenge => vc::client(3, &s, "p", "").authenticate(),
                Broken::Level(n) => vc::unsupported(*n, &s, "p").negotiate(),
                Broken::Writer => {
                    let n = sp::Neg { flags: 0x1002, domain: Some("DOMAIN".into()), workstation: None, version: None };
                    let m = cv::negotiate(&n);
                    for k in [0, 9, 17, 30, 41] {
                        let _ = catch(|| m.vp_encode_into(&mut Breaks(k)));
                    }
                    vec![]
                }
                Broken::Logger => {
                    on_log(Some(Box::new(|| std::panic::resume_unwind(Box::new("a logger panics")))));
                    // a presence flag without its field is worth a warning
                    let n = sp::Neg { flags: 0x3003, domain: None, workstation: None, version: None };
                    let b = n.bytes();
                    let r = catch(|| Negotiate::vp_decode(&b).is_ok());
                    on_log(None);
                    drop(r);
                    vec![]
                }
            });
            on_log(None);
            vc::other(level);
            Ok("broken".into())
        }
    }
}

/// The operation with another one run from within every callback it makes
fn step(plan: &Arc<Plan>, k: usize, inner: Option<usize>, fresh: &mut Vec<[u8; 8]>, seen: &mut Seen) -> Outcome {
    let found: Rc<RefCell<(Vec<[u8; 8]>, Vec<Result<String, String>>)>> = Rc::default();
    if let Some(i) = inner {
        let (p, f) = (plan.clone(), found.clone());
        let mut left = if cfg!(miri) { 1 } else { 3 };
        INNER.set(Some(Box::new(move || {
            if left == 0 {
                return;
            }
            left -= 1;
            let mut fr = Vec::new();
            let r = perform(&p.ops[i], &mut fr);
            let mut f = f.borrow_mut();
            f.0.extend(fr);
            f.1.push(r);
        })));
        on_log(Some(Box::new(callback)));
    }
    let r = perform(&plan.ops[k], fresh);
    on_log(None);
    INNER.set(None);
    let (more, results) = found.take();
    fresh.extend(more);
    for r in results {
        judge(seen, inner.unwrap_or(k), r).map_err(|m| format!("within a callback: {m}"))?;
    }
    judge(seen, k, r)
}

/// An operation succeeds, and gives the same every time
fn judge(seen: &mut Seen, k: usize, r: Result<String, String>) -> Outcome {
    let got = r.map_err(|m| format!("operation {k}: {}", cut(&m)))?;
    let first = seen.entry(k).or_insert_with(|| got.clone());
    ensure!(got == *first, "operation {k} gives {} and {}", cut(&got), cut(first));
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

type Answer = (usize, Result<(), String>, Vec<[u8; 8]>, Seen);

fn thread(plan: Arc<Plan>, t: usize, gate: Arc<Barrier>, stop: Arc<AtomicBool>) -> Answer {
    let script = &plan.scripts[t];
    let _clock = script.clock.map(Clock::at);
    let mut pace = Rng::new(script.pace);
    let mut fresh = Vec::new();
    let mut seen = Seen::new();
    let mut result = Ok(());
    for _ in 0..plan.rounds {
        gate.wait();
        // after a failure the others are kept company at the gate
        if stop.load(Ordering::SeqCst) {
            continue;
        }
        for (k, inner) in &script.steps {
            match pace.next() % 4 {
                0 => std::thread::yield_now(),
                1 => (0..pace.next() % if cfg!(miri) { 3 } else { 300 }).for_each(|_| std::hint::spin_loop()),
                _ => {}
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&plan, *k, *inner, &mut fresh, &mut seen)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => result = Err(m),
                Err(_) => result = Err("vp_ the harness panics".into()),
            }
            crate::vp_engine::logged();
            if result.is_err() {
                stop.store(true, Ordering::SeqCst);
                break;
            }
        }
    }
    (t, result, fresh, seen)
}

pub fn op(c: &mut Case) -> Op {
    let small = |c: &mut Case| -> Setup { setup(c, 0, 5, true) };
    match c.weighted(&[4, 1, 1, 1, 1, 5, 2, 2, 2, 2]) {
        0 => Op::Decode(match c.below(4) {
            0 => mk::neg(c).bytes(),
            1 => mk::auth(c).bytes(),
            2 => mk::server_challenge(c).bytes(),
            _ => super::codec::hostile(c),
        }),
        1 => Op::Neg(Carry(cv::negotiate(&mk::neg(c)))),
        2 => match cv::challenge(&mk::server_challenge(c)) {
            Ok(m) => Op::Chal(Carry(m)),
            Err(_) => Op::Random,
        },
        3 => Op::Auth(Carry(cv::authenticate(&mk::auth(c)))),
        4 => Op::Pairs(Carry(cv::av_list(&mk::av_list(c, 600)))),
        5 => Op::Exchange(small(c)),
        6 => {
            let s = small(c);
            Op::Handed(s, c.draw(31) as u32)
        }
        7 => {
            let s = small(c);
            let calls = c.draw(4) as u32;
            Op::Again(s, calls)
        }
        8 => Op::Random,
        _ => Op::Broken(match c.below(4) {
            0 => Broken::NoChallenge,
            1 => Broken::Level(6 + g::int(c, 8) as u32),
            2 => Broken::Writer,
            _ => Broken::Logger,
        }),
    }
}

pub fn kind(o: &Op) -> &'static str {
    match o {
        Op::Decode(_) => "decoding",
        Op::Neg(_) | Op::Chal(_) | Op::Auth(_) | Op::Pairs(_) => "encoding a shared value",
        Op::Exchange(_) => "exchange",
        Op::Handed(..) => "client handed over",
        Op::Again(..) => "client used again after a panic",
        Op::Random => "random values",
        Op::Broken(_) => "panicking call",
    }
}

pub fn describe(o: &Op) -> String {
    match o {
        Op::Decode(b) => format!("decode {}", mk::hex(b)),
        Op::Neg(m) => format!("encode {}", mk::short(&m.0)),
        Op::Chal(m) => format!("encode {}", mk::short(&m.0)),
        Op::Auth(m) => format!("encode {}", mk::short(&m.0)),
        Op::Pairs(m) => format!("encode {}", mk::short(&m.0)),
        Op::Exchange(s) | Op::Handed(s, _) => format!("{} level {} {:?}", kind(o), s.level, s.creds),
        Op::Again(s, n) => format!("version() panics at call {n}, then an exchange at level {} {:?}", s.level, s.creds),
        Op::Random => "random values".into(),
        Op::Broken(b) => format!("{b:?} panics"),
    }
}

fn c33(c: &mut Case) -> Outcome {
    let sends = Ask::<Client<vc::L0>>::SEND && Ask::<Client<vc::L3>>::SEND;
    ensure!(sends, "a client cannot be handed to another thread");
    let values = Ask::<Negotiate>::SEND && Ask::<Challenge>::SEND && Ask::<Authenticate>::SEND;
    let shared = AskSync::<Negotiate>::SYNC && AskSync::<Challenge>::SYNC && AskSync::<Authenticate>::SYNC;
    ensure!(values && shared, "messages cannot be handed to or shared between threads");

    let tiny = cfg!(miri);
    let n = 1 + c.below(if tiny { 2 } else { 5 });
    let mut ops: Vec<Op> = (0..n).map(|_| op(c)).collect();
    // one account in several places
    for k in 1..ops.len() {
        if c.chance(1, 3) {
            let (a, b) = ops.split_at_mut(k);
            if let (Op::Exchange(x) | Op::Handed(x, _), Op::Exchange(y) | Op::Handed(y, _)) = (&a[k - 1], &mut b[0]) {
                c.label("account in common");
                y.creds.user = x.creds.user.clone();
                if c.flip() {
                    y.creds.password = x.creds.password.clone();
                }
                if c.flip() {
                    y.creds.domain = x.creds.domain.clone();
                }
            }
        }
    }
    let threads = if tiny { 2 + c.below(2) } else { 1 + c.weighted(&[1, 3, 3, 2, 1]) };
    let mut scripts = Vec::new();
    for _ in 0..threads {
        let len = 1 + c.below(if tiny { 2 } else { 4 });
        let steps: Vec<(usize, Option<usize>)> = (0..len)
            .map(|_| {
                let k = c.below(n);
                let inner = c.chance(1, 4).then(|| c.below(n));
                // one level of nesting, and no clients within a panicking call
                let inner = inner.filter(|_| !matches!(ops[k], Op::Broken(_)));
                (k, inner)
            })
            .collect();
        let clock = c.chance(1, 2).then(|| g::clock(c));
        scripts.push(Script { steps, clock, pace: c.draw(u64::MAX) });
    }
    let rounds = if tiny { 1 } else { 1 + c.below(12) };
    c.label(["", "one thread", "two threads", "three threads", "four threads", "five threads"][threads]);
    for o in &ops {
        c.label(kind(o));
    }
    let nested = scripts.iter().any(|s| s.steps.iter().any(|x| x.1.is_some()));
    c.label_if(nested, "within callbacks");
    c.nontrivial = threads > 1 || nested || ops.iter().any(|o| matches!(o, Op::Broken(_) | Op::Again(..)));
    for (k, o) in ops.iter().enumerate() {
        c.note(|| format!("operation {k}: {}", describe(o)));
    }
    for (t, s) in scripts.iter().enumerate() {
        c.note(|| format!("thread {t}: operations (and those within callbacks) {:?} clock {:?}", s.steps, s.clock));
    }
    c.note(|| format!("{rounds} rounds"));

    let mut fresh = Vec::new();
    // alone, before or after: the first use of something may be special
    let when = c.draw(2);
    let mut all = Seen::new();
    let plan = Arc::new(Plan { ops, scripts, rounds });
    if when == 1 && !tiny {
        alone(&plan, &mut all, &mut fresh).map_err(|m| format!("alone: {m}"))?;
    }
    c.evals = (rounds * plan.scripts.iter().map(|s| s.steps.len()).sum::<usize>()) as u64;
    let gate = Arc::new(Barrier::new(threads));
    let stop = Arc::new(AtomicBool::new(false));
    let (tx, rx) = mpsc::channel();
    let mut handles = Vec::new();
    for t in 0..threads {
        let (p, gt, st, tx) = (plan.clone(), gate.clone(), stop.clone(), tx.clone());
        let h = std::thread::Builder::new().spawn(move || {
            let _ = tx.send(thread(p, t, gt, st));
        });
        handles.push(h.expect("vp_ thread"));
    }
    drop(tx);
    let mut answers = Vec::new();
    if tiny {
        // the interpreter finds deadlocks itself
        handles.into_iter().for_each(|h| h.join().expect("vp_ thread"));
        answers.extend(rx);
    } else {
        for _ in 0..threads {
            answers.push(wait(&rx)?);
        }
        handles.into_iter().for_each(|h| h.join().expect("vp_ thread"));
    }
    answers.sort_by_key(|a| a.0);
    for (t, r, f, seen) in answers {
        fresh.extend(f);
        for (k, got) in seen {
            judge(&mut all, k, Ok(got)).map_err(|m| format!("thread {t}: {m}"))?;
        }
        if let Err(m) = r {
            assert!(!m.starts_with("vp_"), "{m}");
            return Err(format!("thread {t}: {m}"));
        }
    }
    if when == 2 && !tiny {
        alone(&plan, &mut all, &mut fresh).map_err(|m| format!("alone, afterwards: {m}"))?;
    }
    // whatever was done, the next user of the library does not notice
    if !tiny || plan.ops.iter().any(|o| matches!(o, Op::Broken(_) | Op::Again(..))) {
        let next = next_user();
        alone(&next, &mut Seen::new(), &mut fresh).map_err(|m| format!("the next user: {m}"))?;
    }
    let drawn = fresh.len();
    fresh.sort();
    fresh.dedup();
    ensure!(fresh.len() == drawn, "{} of {drawn} random values are repeated", drawn - fresh.len());
    Ok(())
}

/// What a thread sends before it ends; nothing here takes more than milliseconds
fn wait<T>(rx: &mpsc::Receiver<T>) -> Result<T, String> {
    if let Ok(x) = rx.recv_timeout(Duration::from_secs(30)) {
        return Ok(x);
    }
    const WHY: &str = "threads do not come to an end: deadlock";
    if !ALONE.load(Ordering::SeqCst) {
        // nothing that this process goes on to do would say anything
        crate::say!("C33: {WHY}");
        std::process::abort();
    }
    Err(WHY.into())
}

/// The operations one after the other in a thread of their own
fn alone(plan: &Arc<Plan>, seen: &mut Seen, fresh: &mut Vec<[u8; 8]>) -> Outcome {
    let (tx, rx) = mpsc::channel();
    let p = plan.clone();
    let h = std::thread::Builder::new().spawn(move || {
        let mut fresh = Vec::new();
        let results: Vec<_> = p.ops.iter().map(|o| perform(o, &mut fresh)).collect();
        crate::vp_engine::logged();
        let _ = tx.send((results, fresh));
    });
    let h = h.expect("vp_ thread");
    let (results, drawn) = if cfg!(miri) { rx.recv().expect("vp_ thread") } else { wait(&rx)? };
    h.join().expect("vp_ thread");
    fresh.extend(drawn);
    results.into_iter().enumerate().try_for_each(|(k, r)| judge(seen, k, r))
}

/// What anybody does: one message of each kind there and back, and an exchange
fn next_user() -> Arc<Plan> {
    // all choices zero
    let mut c = Case::replay(&[], false);
    let n = cv::negotiate(&mk::neg(&mut c));
    let a = cv::authenticate(&mk::auth(&mut c));
    let ch = mk::server_challenge(&mut c);
    let mut ops = vec![
        Op::Decode(ch.bytes()),
        Op::Neg(Carry(n)),
        Op::Auth(Carry(a)),
        Op::Exchange(setup(&mut c, 0, 0, true)),
        Op::Exchange(setup(&mut c, 3, 3, true)),
    ];
    if let Ok(m) = cv::challenge(&ch) {
        ops.push(Op::Chal(Carry(m)));
    }
    Arc::new(Plan { ops, scripts: vec![], rounds: 0 })
}

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C33",
        rule: "one to five threads, each with a script of one to four operations (decoding, encoding of shared messages, whole exchanges, clients handed from thread to thread, random values, calls that panic, clients used again after a panic), some with other operations run from within writers and loggers, begun together and repeated up to twelve times; non-trivial: more than one thread, nesting, or a panic",
        run: c33,
        cases: 20_000,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &["the scheduler of the operating system, with pauses drawn at random, or Miri's scheduler"],
        exhaustive_note: "",
    }]
}
