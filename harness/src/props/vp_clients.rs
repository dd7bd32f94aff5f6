//! C12, C14 to C17, C25: how the client behaves over calls, accounts and environments

use crate::vp_client::{self as vc, AnyClient, Exchange, Spelling};
use crate::vp_engine::{catch, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_env::{self, HostFile};
use crate::vp_env::Clock;
use crate::vp_gen as g;
use crate::vp_make as mk;
use crate::vp_spec::{self as sp, fl, Account, Av, Chal};
use std::collections::HashMap;
use std::sync::Mutex;

pub const ERRNO: &[i32] = &[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::ELOOP, libc::EINVAL];

fn split(creds: &mk::Creds) -> Spelling {
    Spelling::Split { user: creds.user.clone(), domain: creds.domain.clone() }
}

fn new_client(level: u32, s: &Spelling, password: &str) -> Result<Box<dyn AnyClient>, String> {
    catch(|| vc::client(level, s, password, "")).map_err(|m| format!("creating the client: {m}"))
}

fn account(c: &mk::Creds) -> Account {
    Account { user: c.user.clone(), domain: c.domain.clone(), password: c.password.clone() }
}

/// The NEGOTIATE message a configuration must produce
fn expected_negotiate_flags(level: u32, domain: bool, version: bool) -> u32 {
    let mut f = fl::UNICODE
        | fl::OEM
        | fl::REQUEST_TARGET
        | fl::SIGN
        | fl::SEAL
        | fl::NTLM
        | fl::ALWAYS_SIGN
        | fl::TYPE_SERVER
        | fl::B128;
    f |= match level {
        0 => fl::LM_KEY | fl::KEY_EXCH,
        1 => fl::ESS,
        _ => fl::ESS | fl::KEY_EXCH | fl::TARGET_INFO,
    };
    f = mk::agree(f, fl::OEM_DOMAIN, domain);
    mk::agree(f, fl::VERSION, version)
}

fn check_negotiate(b: &[u8], level: u32, domain: &str, version: Option<sp::Ver>) -> Outcome {
    let r = sp::parse(b).map_err(|m| format!("NEGOTIATE {}: {m}", mk::hex(b)))?;
    ensure!(r.kind == 1, "message of type {} instead of NEGOTIATE", r.kind);
    let want = expected_negotiate_flags(level, !domain.is_empty(), version.is_some());
    ensure!(
        r.flags == want,
        "level {level} domain {domain:?} version {version:?}: NEGOTIATE flags {:08x} instead of {want:08x}",
        r.flags
    );
    if domain.is_ascii() {
        ensure!(
            r.fields[0] == domain.as_bytes(),
            "NEGOTIATE names domain {} instead of {domain:?}",
            mk::hex(&r.fields[0])
        );
    } else {
        ensure!(!r.fields[0].is_empty(), "NEGOTIATE lacks the domain {domain:?}");
    }
    ensure!(r.fields[1].is_empty(), "NEGOTIATE names a workstation: {}", mk::hex(&r.fields[1]));
    let slot = version.map(sp::ver_bytes).unwrap_or([0; 8]);
    ensure!(r.version == slot, "version slot {}", mk::hex(&r.version));
    ensure!(
        b.len() == r.header_len + r.fields[0].len(),
        "NEGOTIATE has {} bytes beside its fixed part and domain",
        b.len() - r.header_len
    );
    Ok(())
}

// ---------- C12 ----------

enum Model {
    Idle,
    Offered(Vec<u8>),
    Challenged(Vec<u8>, usize),
}

fn c12(c: &mut Case) -> Outcome {
    let level = mk::level(c);
    let creds = mk::creds(c);
    let version = mk::opt_ver(c);
    // distinct challenges: an answer tells which one it answers
    let pool: Vec<Chal> = (0..2 + c.below(3))
        .map(|i| {
            let mut ch = mk::server_challenge(c);
            ch.sc[0] = i as u8;
            ch
        })
        .collect();
    c.note(|| format!("level {level} {creds:?} version {version:?}"));
    let spell = split(&creds);
    let mut cl = new_client(level, &spell, &creds.password)?;
    cl.set_version(version);
    let mut model = Model::Idle;
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let (mut ignored, mut answers, mut restarts) = (0, 0, 0);
    let steps = 1 + c.below(14);
    for step in 0..steps {
        match c.weighted(&[4, 6, 6]) {
            0 => {
                let b = vc::send_negotiate(&mut *cl)?;
                c.note(|| "NEGOTIATE".into());
                check_negotiate(&b, level, &creds.domain, version)?;
                if !matches!(model, Model::Idle) {
                    restarts += 1;
                }
                model = Model::Offered(b);
            }
            1 => {
                let i = c.below(pool.len());
                let m = vc::decode_challenge(&pool[i].bytes())?;
                catch(|| cl.challenge(m)).map_err(|m| format!("step {step}: challenge: {m}"))?;
                c.note(|| format!("challenge {i} flags {:08x}", pool[i].flags));
                model = match model {
                    Model::Offered(n) => Model::Challenged(n, i),
                    other => {
                        ignored += 1;
                        other
                    }
                };
            }
            _ => {
                c.note(|| "AUTHENTICATE".into());
                match &model {
                    Model::Challenged(neg, i) => {
                        let ch = &pool[*i];
                        let neg = neg.clone();
                        let x = vc::answer(&mut *cl, &neg, &ch.bytes())
                            .map_err(|m| format!("step {step}: {m}"))?;
                        let a = account(&creds)
                            .accept(level, ch.flags, &ch.sc, &sp::av_bytes(&ch.av), &x.raw)
                            .map_err(|m| {
                                format!("step {step}: the answer does not fit the accepted challenge {i}: {m}")
                            })?;
                        if let (Some(k), Some(m)) = (a.session_key, x.key) {
                            ensure!(k == m, "step {step}: session key differs from the server's");
                        }
                        if level >= 3 {
                            let key = a.session_key.ok_or("no session key")?;
                            ensure!(
                                x.raw.mic == sp::mic(&key, &neg, &ch.bytes(), &x.auth),
                                "step {step}: MIC is not over this exchange"
                            );
                        }
                        if let Some(cc) = a.client_challenge {
                            ensure!(
                                seen.insert(cc.to_vec(), ()).is_none(),
                                "step {step}: client challenge {} used again",
                                mk::hex(&cc)
                            );
                        }
                        if a.key_sent.is_some() {
                            if let Some(k) = a.session_key {
                                ensure!(
                                    seen.insert(k.to_vec(), ()).is_none(),
                                    "step {step}: session key used again"
                                );
                            }
                        }
                        answers += 1;
                    }
                    _ => {
                        // it may panic, but must not produce a message
                        if let Ok(b) = catch(|| cl.authenticate()) {
                            ensure!(
                                b.is_empty(),
                                "step {step}: {} bytes of AUTHENTICATE without an accepted challenge",
                                b.len()
                            );
                        }
                        c.label("AUTHENTICATE refused");
                    }
                }
            }
        }
    }
    c.label_if(ignored > 0, "challenge ignored");
    c.label_if(answers > 1, "several answers");
    c.label_if(restarts > 0, "restarted");
    c.nontrivial = answers > 0 && (ignored > 0 || restarts > 0 || answers > 1);
    Ok(())
}

/// All sequences of up to seven calls over {NEGOTIATE, challenge 0, challenge 1, AUTHENTICATE}
fn c12_enum(i: u64, c: &mut Case) -> Outcome {
    let level = (i % 6) as u32;
    let mut n = i / 6;
    let creds = mk::Creds { user: "User".into(), domain: "Domain".into(), password: "Password".into() };
    let ch = |k: u8| Chal {
        flags: expected_negotiate_flags(level, false, false) & !(fl::OEM | fl::LM_KEY),
        target: Some("S".into()),
        sc: [k; 8],
        av: vec![Av::Text(1, format!("host{k}")), Av::Eol],
        version: None,
    };
    let mut cl = new_client(level, &split(&creds), &creds.password)?;
    let mut model = Model::Idle;
    let mut answers = 0;
    for step in 0..C12_DEPTH {
        let op = n % 4;
        n /= 4;
        match op {
            0 => {
                let b = vc::send_negotiate(&mut *cl)?;
                check_negotiate(&b, level, "Domain", None)?;
                model = Model::Offered(b);
            }
            1 | 2 => {
                let m = vc::decode_challenge(&ch(op as u8).bytes())?;
                catch(|| cl.challenge(m))?;
                if let Model::Offered(b) = model {
                    model = Model::Challenged(b, op as usize);
                }
            }
            _ => match &model {
                Model::Challenged(b, k) => {
                    let ch = ch(*k as u8);
                    let x = vc::answer(&mut *cl, &b.clone(), &ch.bytes())?;
                    account(&creds)
                        .accept(level, ch.flags, &ch.sc, &sp::av_bytes(&ch.av), &x.raw)
                        .map_err(|m| format!("step {step} of sequence {i}: {m}"))?;
                    answers += 1;
                }
                _ => {
                    if let Ok(b) = catch(|| cl.authenticate()) {
                        ensure!(b.is_empty(), "step {step} of sequence {i}: AUTHENTICATE without an accepted challenge");
                    }
                }
            },
        }
    }
    c.nontrivial = answers > 0;
    Ok(())
}
const C12_DEPTH: u32 = 6;

// ---------- C14 ----------

struct Fresh {
    seen: HashMap<u64, ()>,
    ones: [u64; 192],
    values: [u64; 256],
    n: u64,
    repeat: Option<String>,
}
static FRESH: Mutex<Option<Fresh>> = Mutex::new(None);

fn c14(c: &mut Case) -> Outcome {
    c.nontrivial = true;
    c.evals = C14_PER_CASE as u64;
    let mode = c.below(3);
    // a random value must not depend on the clock moving
    let _clock = c.flip().then(Clock::stop);
    c.label_if(_clock.is_some(), "clock stopped");
    c.label(["one client, answering again", "one client, new handshakes", "a new client each time"][mode]);
    let mut creds = mk::creds(c);
    if !creds.password.is_ascii() {
        creds.password = "Password".into();
    }
    let fixed = c.flip();
    let fixed_level = mk::level(c);
    let base = challenge_with_key_exchange(c, fixed_level);
    c.note(|| format!("mode {mode} {creds:?} level {fixed_level} fixed {fixed} flags {:08x}", base.flags));
    let mut level = fixed_level;
    let mut cl = new_client(level, &split(&creds), &creds.password)?;
    let mut ch = base.clone();
    let mut samples: Vec<[u8; 24]> = Vec::new();
    let mut neg = vec![];
    for i in 0..C14_PER_CASE {
        if mode == 2 {
            if !fixed {
                level = mk::level(c);
                ch = challenge_with_key_exchange(c, level);
            }
            cl = new_client(level, &split(&creds), &creds.password)?;
        } else if mode == 1 && !fixed {
            ch = challenge_with_key_exchange(c, level);
        }
        if i == 0 || mode != 0 {
            neg = vc::send_negotiate(&mut *cl)?;
            let m = vc::decode_challenge(&ch.bytes())?;
            catch(|| cl.challenge(m))?;
        }
        let x = vc::answer(&mut *cl, &neg, &ch.bytes())?;
        let a = account(&creds).accept(level, ch.flags, &ch.sc, &sp::av_bytes(&ch.av), &x.raw)?;
        let (Some(cc), Some(k)) = (a.client_challenge, a.session_key) else {
            return Err("no client challenge or session key".into());
        };
        ensure!(a.key_sent.is_some(), "key exchange granted but no key sent");
        let mut s = [0u8; 24];
        s[..8].copy_from_slice(&cc);
        s[8..].copy_from_slice(&k);
        samples.push(s);
    }
    // no repeats among all 8-byte parts of this case
    let mut parts: Vec<(u64, usize, usize)> = Vec::new();
    for (i, s) in samples.iter().enumerate() {
        for k in 0..3 {
            parts.push((u64::from_le_bytes(s[8 * k..8 * k + 8].try_into().unwrap()), i, k));
        }
    }
    parts.sort();
    const PART: [&str; 3] = ["client challenge", "first half of the session key", "second half of the session key"];
    for w in parts.windows(2) {
        ensure!(
            w[0].0 != w[1].0,
            "{} of answer {} repeats {} of answer {}",
            PART[w[1].2],
            w[1].1,
            PART[w[0].2],
            w[0].1
        );
    }
    // every bit varies, and so does the relation of any two 4-byte words
    let word = |s: &[u8; 24], k: usize| u32::from_le_bytes(s[4 * k..4 * k + 4].try_into().unwrap());
    for a in 0..6 {
        for b in a + 1..7 {
            let rel = |s: &[u8; 24]| if b == 6 { word(s, a) } else { word(s, a) ^ word(s, b) };
            let (mut or, mut and) = (0u32, u32::MAX);
            for s in &samples {
                or |= rel(s);
                and &= rel(s);
            }
            let stuck = !or | and;
            ensure!(
                stuck == 0,
                "{C14_PER_CASE} answers: bits {stuck:08x} of word {a}{} never change",
                if b < 6 { format!(" xor word {b}") } else { String::new() }
            );
        }
    }
    let all: Vec<&[u8]> = samples.iter().map(|s| &s[..]).collect();
    super::extra::not_predictable(&all)?;
    let mut lock = FRESH.lock().unwrap_or_else(|e| e.into_inner());
    let f = lock.get_or_insert_with(|| Fresh {
        seen: HashMap::new(),
        ones: [0; 192],
        values: [0; 256],
        n: 0,
        repeat: None,
    });
    for s in &samples {
        f.n += 1;
        for (i, o) in f.ones.iter_mut().enumerate() {
            *o += u64::from(s[i / 8] >> (i % 8) & 1);
        }
        for b in s {
            f.values[*b as usize] += 1;
        }
        for k in 0..3 {
            let v = u64::from_le_bytes(s[8 * k..8 * k + 8].try_into().unwrap());
            if f.seen.insert(v, ()).is_some() && f.repeat.is_none() {
                f.repeat = Some(format!("the 8 random bytes {v:016x} occurred twice among {} answers", f.n));
            }
        }
    }
    Ok(())
}
const C14_PER_CASE: usize = 64;

fn challenge_with_key_exchange(c: &mut Case, level: u32) -> Chal {
    let mut ch = mk::server_challenge(c);
    ch.flags |= fl::KEY_EXCH | if c.flip() { fl::SIGN } else { fl::SEAL };
    if level <= 2 {
        ch.flags |= fl::ESS;
        if cfg!(feature = "strict") {
            ch.flags &= !fl::LM_KEY;
        }
    }
    if ch.av.len() > 6 {
        ch.av = vec![Av::Text(1, "HOST".into()), Av::Eol];
    }
    ch
}

fn c14_finish() -> Outcome {
    let lock = FRESH.lock().unwrap_or_else(|e| e.into_inner());
    let Some(f) = lock.as_ref() else { return Ok(()) };
    if let Some(r) = &f.repeat {
        return Err(r.clone());
    }
    let n = f.n as f64;
    if n < 1000.0 {
        return Ok(());
    }
    for (i, o) in f.ones.iter().enumerate() {
        let z = (*o as f64 - n / 2.0).abs() / (n.sqrt() / 2.0);
        ensure!(z < 9.0, "bit {i} of client challenge and session key is biased: set in {o} of {n} answers");
    }
    let total = n * 24.0;
    let (m, sd) = (total / 256.0, (total / 256.0 * 255.0 / 256.0).sqrt());
    for (v, k) in f.values.iter().enumerate() {
        let z = (*k as f64 - m).abs() / sd;
        ensure!(z < 9.0, "byte value {v:02x} occurs {k} times in {total} random bytes");
    }
    super::extra::unlike_other_processes("client", |w| f.seen.contains_key(&w))
}

// ---------- C15 ----------

fn responses(level: u32, s: &Spelling, password: &str, ch: &Chal) -> Result<Exchange, String> {
    let mut cl = new_client(level, s, password)?;
    vc::exchange(&mut *cl, &ch.bytes())
}

fn swap_case(c: &mut Case, s: &str) -> String {
    let how = c.below(4);
    let other = match how {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        _ => s
            .chars()
            .map(|x| {
                let y: String = if c.flip() { x.to_uppercase().collect() } else { x.to_lowercase().collect() };
                if y.chars().count() == 1 {
                    y.chars().next().unwrap_or(x)
                } else {
                    x
                }
            })
            .collect(),
    };
    // some texts grow beyond what a field can hold
    if other.encode_utf16().count() <= 32767 {
        other
    } else {
        s.to_string()
    }
}

fn c15(c: &mut Case) -> Outcome {
    let level = mk::level(c);
    let creds = mk::creds(c);
    let ch = mk::server_challenge(c);
    let av = sp::av_bytes(&ch.av);
    c.note(|| format!("level {level} {creds:?} flags {:08x}", ch.flags));
    let check = |acc: &Account, x: &Exchange| acc.accept(level, ch.flags, &ch.sc, &av, &x.raw).map(|_| ());
    match c.weighted(&[6, 3, 2, 2, 3]) {
        0 => {
            // a joined name against its parts
            let mut name = String::new();
            let n = c.weighted(&[1, 6, 3, 1]);
            let part = |c: &mut Case| match c.below(3) {
                0 => g::text(c, 16),
                1 => (0..c.below(6)).map(|_| (b'a' + c.below(26) as u8) as char).collect(),
                _ => g::text(c, 16).replace(['@', '\\'], ""),
            };
            name.push_str(&part(c));
            for _ in 0..n {
                name.push(*c.pick(&['\\', '@', '\\', '@', '/']));
                name.push_str(&part(c));
            }
            c.note(|| format!("name {name:?}"));
            let (domain, user) = if let Some(p) = name.find('\\') {
                c.label("DOMAIN\\user");
                c.label_if(name.contains('@'), "both separators");
                (name[..p].to_string(), name[p + 1..].to_string())
            } else if let Some(p) = name.find('@') {
                c.label("user@domain");
                (name[p + 1..].to_string(), name[..p].to_string())
            } else {
                c.label("no separator");
                (String::new(), name.clone())
            };
            c.nontrivial = name.contains('\\') || name.contains('@');
            let acc = Account { user: user.clone(), domain: domain.clone(), password: creds.password.clone() };
            let a = responses(level, &Spelling::Joined(name.clone()), &creds.password, &ch)?;
            let b = responses(level, &Spelling::Split { user: user.clone(), domain: domain.clone() }, &creds.password, &ch)?;
            ensure!(a.neg == b.neg, "{name:?}: NEGOTIATE differs from that of user {user:?} domain {domain:?}");
            for (i, what) in [(2, "domain"), (3, "user"), (4, "workstation")] {
                ensure!(
                    a.raw.fields[i] == b.raw.fields[i],
                    "{name:?}: {what} {} instead of {}",
                    mk::hex(&a.raw.fields[i]),
                    mk::hex(&b.raw.fields[i])
                );
            }
            ensure!(a.raw.fields[3] == sp::utf16(&user), "{name:?}: user on the wire is {}", mk::hex(&a.raw.fields[3]));
            ensure!(a.raw.fields[2] == sp::utf16(&domain), "{name:?}: domain on the wire is {}", mk::hex(&a.raw.fields[2]));
            ensure!(a.raw.flags == b.raw.flags, "{name:?}: flags differ");
            check(&acc, &a).map_err(|m| format!("{name:?}: {m}"))?;
            check(&acc, &b).map_err(|m| format!("user {user:?} domain {domain:?}: {m}"))?;
        }
        1 => {
            // user-name case does not matter to NTLMv2
            let other = swap_case(c, &creds.user);
            if other.to_uppercase() != creds.user.to_uppercase() {
                c.label("no case pair");
                return Ok(());
            }
            c.nontrivial = other != creds.user;
            c.label_if(c.nontrivial, "user case");
            let x = responses(level, &Spelling::Split { user: other.clone(), domain: creds.domain.clone() }, &creds.password, &ch)?;
            check(&account(&creds), &x).map_err(|m| format!("user {other:?} for account {:?}: {m}", creds.user))?;
            ensure!(x.raw.fields[3] == sp::utf16(&other), "user name on the wire is altered");
        }
        2 => {
            // domain case matters to NTLMv2
            let other = swap_case(c, &creds.domain);
            if level < 3 || other == creds.domain {
                return Ok(());
            }
            c.nontrivial = true;
            c.label("domain case");
            let x = responses(level, &Spelling::Split { user: creds.user.clone(), domain: other.clone() }, &creds.password, &ch)?;
            ensure!(
                check(&account(&creds), &x).is_err(),
                "domain {other:?} gives responses valid for {:?}",
                creds.domain
            );
        }
        3 => {
            // password case matters to NT responses
            let other = swap_case(c, &creds.password);
            if other == creds.password {
                return Ok(());
            }
            c.nontrivial = true;
            c.label("password case");
            let x = responses(level, &split(&creds), &other, &ch)?;
            ensure!(
                check(&account(&creds), &x).is_err(),
                "password {other:?} gives responses valid for {:?}",
                creds.password
            );
        }
        _ => {
            // LM: case and everything after 14 characters are ignored
            let n = c.below(20);
            let p: String = (0..n).map(|_| (0x20 + c.below(0x5f) as u8) as char).collect();
            let mut q = swap_case(c, &p);
            if p.len() >= 14 {
                q.truncate(14);
                q.push_str(&g::ascii_text(c, 12));
            }
            let mut ch = ch.clone();
            ch.flags &= !fl::ESS;
            c.nontrivial = p != q;
            c.label_if(c.nontrivial, "LM equivalence");
            let a = responses(0, &split(&creds), &p, &ch)?;
            let b = responses(0, &split(&creds), &q, &ch)?;
            ensure!(
                a.raw.fields[0] == b.raw.fields[0],
                "LM responses of {p:?} and {q:?} differ: {} and {}",
                mk::hex(&a.raw.fields[0]),
                mk::hex(&b.raw.fields[0])
            );
        }
    }
    Ok(())
}

// ---------- C16 ----------

pub fn host_bytes(c: &mut Case) -> Vec<u8> {
    match c.weighted(&[6, 3, 3, 3, 3, 2, 2]) {
        0 => {
            let mut b = g::text(c, 30).into_bytes();
            if c.flip() {
                b.push(b'\n');
            }
            b
        }
        1 => {
            let mut s = String::new();
            for _ in 0..c.below(4) {
                s.push_str(c.pick(&["host", "Host", " ", ".", "\n", "\r\n", "\t", "example.com", "é", "ß", "\u{a0}", "\u{feff}", "#", "\u{b}", "\u{85}", "\r"]));
            }
            s.into_bytes()
        }
        2 => vec![],
        3 => {
            let n = g::len(c, 40);
            g::bytes(c, n)
        }
        4 => {
            let mut b = g::text(c, 12).into_bytes();
            let i = c.below(b.len() + 1);
            b.insert(i, *c.pick(&[0xffu8, 0x80, 0xc3, 0xed, 0xf5, 0]));
            b
        }
        5 => {
            let n = c.below(3000);
            let mut b = vec![b'h'; n];
            b.push(b'\n');
            b
        }
        _ => {
            let mut s = g::text(c, 16).replace('.', "x");
            s.push('.');
            s.push_str(&g::text(c, 16));
            s.push('\n');
            s.push_str(&g::text(c, 16));
            s.into_bytes()
        }
    }
}

/// `Ok(expected)`, or `Err` when the text leaves room for interpretation
pub fn expected_workstation(var: &Option<Vec<u8>>, host: &HostFile) -> Result<Option<String>, ()> {
    if let Some(v) = var {
        if let Ok(s) = String::from_utf8(v.clone()) {
            return Ok(Some(s));
        }
        // undecodable: as if it were not set
    }
    let HostFile::Content(b) = host else { return Ok(None) };
    let Ok(t) = String::from_utf8(b.clone()) else { return Ok(None) };
    if t.is_empty() {
        return Ok(None);
    }
    if t.contains('\r') && !t.contains("\r\n") {
        return Err(());
    }
    let first = t.split('\n').next().unwrap_or("");
    let first = first.strip_suffix('\r').unwrap_or(first);
    let label = first.split('.').next().unwrap_or("");
    Ok(Some(label.trim().to_uppercase()))
}

fn wild_text(c: &mut Case, m: usize) -> String {
    let mut s = g::text(c, m - 16);
    if c.chance(1, 8) {
        s.push('\0');
        s.push_str(&g::text(c, 8));
    }
    s
}

fn c16(c: &mut Case) -> Outcome {
    c.nontrivial = true;
    let level = mk::level(c);
    let var: Option<Vec<u8>> = match c.weighted(&[4, 2, 1, 1]) {
        0 => None,
        1 => Some(g::text(c, 40).into_bytes()),
        2 => Some(vec![]),
        _ => {
            let mut v: Vec<u8> = g::text(c, 8).into_bytes();
            v.push(*c.pick(&[0xffu8, 0xc3, 0x80, 0xfe]));
            c.label("undecodable COMPUTERNAME");
            Some(v)
        }
    };
    // the environment cannot hold NUL
    let var = var.map(|v| v.into_iter().filter(|b| *b != 0).collect::<Vec<u8>>());
    let host = match c.weighted(&[10, 2, 1]) {
        0 => HostFile::Content(host_bytes(c)),
        1 => HostFile::OpenError(*c.pick(ERRNO)),
        _ => HostFile::Unreadable,
    };
    let m = match c.weighted(&[50, 10, 1]) {
        0 => 24,
        1 => 300,
        _ => 32767,
    };
    let joined = c.chance(1, 3);
    let (user, domain, password) = (wild_text(c, m), wild_text(c, m), wild_text(c, m * 2 + 16));
    let mut creds = mk::Creds { user, domain, password };
    while creds.domain.len() > 65535 {
        creds.domain = creds.domain.chars().take(creds.domain.chars().count() / 2).collect();
    }
    let target = g::text(c, 20);
    let spell = if joined {
        let n = g::text(c, 20);
        let sep = *c.pick(&["\\", "@", "", "\\\\", "@@"]);
        let rest = g::text(c, 20);
        Spelling::Joined(format!("{n}{sep}{rest}"))
    } else {
        split(&creds)
    };
    c.note(|| format!("level {level} {creds:?} {spell:?} COMPUTERNAME {:?} host file {host:?}", var.as_ref().map(|v| String::from_utf8_lossy(v).into_owned())));
    c.label_if(var.is_none(), "host name file decides");
    c.label_if(!creds.password.is_ascii(), "non-ASCII password");
    c.label_if(matches!(host, HostFile::Content(ref b) if b.is_empty()), "empty host name file");

    let mut cl = {
        let _g = vp_env::with(&[("COMPUTERNAME", var.clone())], host.clone());
        catch(|| vc::client(level, &spell, &creds.password, &target))
            .map_err(|m| format!("creating the client: {m}"))?
    };
    let ch = c16_challenge(c);
    let neg = vc::send_negotiate(&mut *cl)?;
    ensure!(sp::parse(&neg).is_ok(), "NEGOTIATE {} is malformed", mk::hex(&neg));
    let total = sp::av_bytes(&ch.av).len();
    let m = vc::decode_challenge(&ch.bytes())?;
    catch(|| cl.challenge(m)).map_err(|m| format!("challenge: {m}"))?;
    let auth = match catch(|| cl.authenticate()) {
        Ok(a) => a,
        Err(m) => {
            if level >= 3 && total + 48 > 65535 {
                c.label("oversized target information");
                return c.finding(
                    "C16",
                    "K1",
                    "send_authenticate panics when the challenge's target information is longer than 65487 bytes".into(),
                );
            }
            return Err(format!("AUTHENTICATE at level {level} with {total} bytes of target information: {m}"));
        }
    };
    let r = sp::parse(&auth).map_err(|m| format!("AUTHENTICATE: {m}"))?;
    if let Ok(w) = expected_workstation(&var, &host) {
        let want = w.as_ref().map(|w| sp::utf16(w)).unwrap_or_default();
        ensure!(
            r.fields[4] == want,
            "workstation {:?} instead of {w:?} for COMPUTERNAME {:?} and host file {}",
            sp::from_utf16(&r.fields[4]),
            var.as_ref().map(|v| String::from_utf8_lossy(v).into_owned()),
            mk::short(&host)
        );
    }
    Ok(())
}

/// Any decodable challenge, up to the longest target information
fn c16_challenge(c: &mut Case) -> Chal {
    let mut ch = mk::server_challenge(c);
    if c.chance(1, 60) {
        c.label("target information near the limit");
        let span = if c.flip() { 120 } else { 1200 };
        let total = 65535 - c.below(span);
        // one or two text pairs fill the list; values are whole UTF-16 units
        let mut left = total - 4;
        let mut av = Vec::new();
        while left >= 6 {
            let v = (left - 4).min(20000) / 2 * 2;
            av.push(Av::Text(1, "a".repeat(v / 2)));
            left -= 4 + v;
        }
        av.push(Av::Eol);
        ch.av = av;
        ch.target = None;
    }
    ch
}

// ---------- C17 ----------

fn c17(c: &mut Case) -> Outcome {
    let level = mk::level(c);
    let version = mk::opt_ver(c);
    let mut creds = mk::creds(c);
    if c.chance(3, 4) {
        creds.domain = g::ascii_text(c, 200).replace(['\0'], "");
    }
    c.nontrivial = true;
    c.note(|| format!("level {level} {creds:?} version {version:?}"));
    c.label_if(creds.domain.is_empty(), "no domain");
    if c.chance(1, 64) {
        c.label("unsupported level");
        let level = 6 + g::int(c, 32).min(u64::from(u32::MAX - 6)) as u32;
        let mut cl = catch(|| vc::unsupported(level, &split(&creds), &creds.password))?;
        if let Ok(b) = catch(|| cl.negotiate()) {
            return Err(format!("NEGOTIATE {} sent at the unsupported level {level}", mk::hex(&b)));
        }
        return Ok(());
    }
    let mut cl = new_client(level, &split(&creds), &creds.password)?;
    let later = c.chance(1, 3);
    if later {
        // earlier activity changes nothing
        c.label("reused client");
        if c.flip() {
            cl.set_version(mk::opt_ver(c));
        }
        let _ = vc::send_negotiate(&mut *cl)?;
        if c.flip() {
            let m = vc::decode_challenge(&mk::server_challenge(c).bytes())?;
            catch(|| cl.challenge(m))?;
            if c.flip() {
                catch(|| cl.authenticate())?;
            }
        }
    }
    cl.set_version(version);
    if c.flip() {
        let w = g::opt_text(c, 20);
        cl.set_workstation(w);
    }
    let b = vc::send_negotiate(&mut *cl)?;
    check_negotiate(&b, level, &creds.domain, version)
}

// ---------- C25 ----------

/// Everything in an AUTHENTICATE that is not random, clock time or derived from them
fn stable_part(x: &Exchange, level: u32, ch: &Chal) -> Vec<(&'static str, Vec<u8>)> {
    let r = &x.raw;
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![
        ("flags", r.flags.to_le_bytes().to_vec()),
        ("version", r.version.to_vec()),
        ("domain", r.fields[2].clone()),
        ("user", r.fields[3].clone()),
        ("workstation", r.fields[4].clone()),
        ("session key size", vec![r.fields[5].len() as u8]),
        ("layout", r.places.iter().flat_map(sp::field).collect()),
        ("size", (x.auth.len() as u32).to_le_bytes().to_vec()),
    ];
    let nt = &r.fields[1];
    if level >= 3 {
        if let Some(b) = nt.get(16..) {
            if b.len() >= 28 {
                v.push(("blob header", b[..8].to_vec()));
                v.push(("blob tail", b[24..].to_vec()));
                // the server's, or the clock's, which shows the same for both
                v.push(("blob time", b[8..16].to_vec()));
            }
        }
    } else if !fl::has(ch.flags, fl::ESS) {
        v.push(("LM response", r.fields[0].clone()));
        v.push(("NT response", nt.clone()));
    } else {
        v.push(("LM response padding", r.fields[0].get(8..).unwrap_or(&[]).to_vec()));
    }
    if level < 3 {
        v.push(("MIC", r.mic.to_vec()));
    }
    // gaps between and after fields, if any
    let mut used = vec![false; x.auth.len()];
    for (i, p) in r.places.iter().enumerate() {
        if !r.fields[i].is_empty() {
            let s = p.offset as usize;
            used[s..s + p.len as usize].iter_mut().for_each(|u| *u = true);
        }
    }
    let rest: Vec<u8> = (r.header_len..x.auth.len()).filter(|i| !used[*i]).map(|i| x.auth[i]).collect();
    v.push(("unused bytes", rest));
    v
}

/// A client that lives long: more exchanges, answers or offers than 16 bits count
fn c25_enum(i: u64, c: &mut Case) -> Outcome {
    const ROUNDS: u32 = 66_000;
    let (level, mode) = ((i % 6) as u32, i / 6);
    let mut few = Case::random(i);
    let creds = mk::creds(&mut few);
    let chs: Vec<Chal> = (0..5).map(|_| mk::server_challenge(&mut few)).collect();
    let mut cl = new_client(level, &split(&creds), &creds.password)?;
    let first = vc::send_negotiate(&mut *cl)?;
    let mut nonces = std::collections::HashSet::new();
    let mut check = |cl: &mut dyn AnyClient, neg: &[u8], ch: &Chal, n: u32| -> Outcome {
        let x = vc::answer(cl, neg, &ch.bytes())?;
        let a = account(&creds)
            .accept(level, ch.flags, &ch.sc, &sp::av_bytes(&ch.av), &x.raw)
            .map_err(|m| format!("answer {n}: {m}"))?;
        if let (Some(k), Some(m)) = (a.session_key, x.key) {
            ensure!(k == m, "answer {n}: the server derives another session key");
        }
        if let Some(k) = a.client_challenge {
            ensure!(nonces.insert(k), "answer {n}: the client challenge {} has been used before", mk::hex(&k));
        }
        Ok(())
    };
    let take = |cl: &mut dyn AnyClient, ch: &Chal| -> Outcome {
        let m = vc::decode_challenge(&ch.bytes())?;
        catch(|| cl.challenge(m))
    };
    if mode == 1 {
        take(&mut *cl, &chs[0])?;
    }
    for n in 0..ROUNDS {
        let ch = &chs[n as usize % chs.len()];
        if mode != 1 {
            let neg = vc::send_negotiate(&mut *cl)?;
            ensure!(neg == first, "NEGOTIATE {n} is {}, the first was {}", mk::hex(&neg), mk::hex(&first));
        }
        match mode {
            0 => {
                take(&mut *cl, ch)?;
                check(&mut *cl, &first, ch, n)?;
            }
            1 => check(&mut *cl, &first, &chs[0], n)?,
            _ => {}
        }
    }
    if mode == 2 {
        take(&mut *cl, &chs[0])?;
        check(&mut *cl, &first, &chs[0], ROUNDS)?;
    }
    c.evals = u64::from(ROUNDS);
    c.nontrivial = true;
    Ok(())
}

fn c25(c: &mut Case) -> Outcome {
    let level = mk::level(c);
    let creds = mk::creds(c);
    let version = mk::opt_ver(c);
    let workstation = g::opt_text(c, 30);
    let ch = mk::server_challenge(c);
    c.note(|| format!("level {level} {creds:?} version {version:?} workstation {workstation:?} flags {:08x}", ch.flags));
    let make = || -> Result<Box<dyn AnyClient>, String> {
        let mut cl = new_client(level, &split(&creds), &creds.password)?;
        cl.set_version(version);
        cl.set_workstation(workstation.clone());
        Ok(cl)
    };
    let mut old = make()?;
    let pre = mk::server_challenge(c);
    // other clients at work in between
    let mut others: Vec<(Box<dyn AnyClient>, u32, mk::Creds, Option<(Vec<u8>, Option<Chal>)>)> = Vec::new();
    for _ in 0..c.below(3) {
        let (l, k) = (mk::level(c), if c.flip() { mk::creds(c) } else { mk::Creds { user: creds.user.clone(), domain: creds.domain.clone(), password: g::text(c, 12) } });
        let cl = new_client(l, &split(&k), &k.password)?;
        others.push((cl, l, k, None));
    }
    let mut state: Option<(Vec<u8>, Option<Chal>)> = None;
    let steps = 1 + c.below(10);
    let mut done = 0;
    let mut clock = None;
    // history, then one clean handshake interleaved with the others
    for step in 0..steps + 3 {
        while !others.is_empty() && c.chance(1, 2) {
            let i = c.below(others.len());
            let (cl, l, k, st) = &mut others[i];
            match (c.below(3), &st) {
                (0, _) => *st = Some((vc::send_negotiate(&mut **cl)?, None)),
                (1, Some((n, None))) => {
                    let o = mk::server_challenge(c);
                    let m = vc::decode_challenge(&o.bytes())?;
                    catch(|| cl.challenge(m))?;
                    *st = Some((n.clone(), Some(o)));
                }
                (_, Some((n, Some(o)))) => {
                    let x = vc::answer(&mut **cl, n, &o.bytes())?;
                    account(k)
                        .accept(*l, o.flags, &o.sc, &sp::av_bytes(&o.av), &x.raw)
                        .map_err(|m| format!("interleaved client {i} at step {step}: {m}"))?;
                    c.label("interleaved exchange");
                }
                _ => {}
            }
        }
        if step < steps {
            match (c.below(3), &state) {
                (0, _) => state = Some((vc::send_negotiate(&mut *old)?, None)),
                (1, Some((n, None))) => {
                    let o = mk::server_challenge(c);
                    let m = vc::decode_challenge(&o.bytes())?;
                    catch(|| old.challenge(m))?;
                    state = Some((n.clone(), Some(o)));
                }
                (_, Some((n, Some(o)))) => {
                    let x = vc::answer(&mut *old, n, &o.bytes())?;
                    account(&creds)
                        .accept(level, o.flags, &o.sc, &sp::av_bytes(&o.av), &x.raw)
                        .map_err(|m| format!("step {step}: {m}"))?;
                    done += 1;
                }
                (_, Some((n, None))) => {
                    let n = n.clone();
                    let m = vc::decode_challenge(&pre.bytes())?;
                    catch(|| old.challenge(m))?;
                    state = Some((n, Some(pre.clone())));
                }
                (_, None) => {
                    // ignored
                    let m = vc::decode_challenge(&pre.bytes())?;
                    catch(|| old.challenge(m))?;
                }
            }
            continue;
        }
        // from here on the clock stands still
        clock.get_or_insert_with(|| Clock::at(g::clock(c)));
        match step - steps {
            0 => state = Some((vc::send_negotiate(&mut *old)?, None)),
            1 => {
                let m = vc::decode_challenge(&ch.bytes())?;
                catch(|| old.challenge(m))?;
            }
            _ => {}
        }
    }
    let Some((neg, _)) = state else { return Err("harness: no NEGOTIATE".into()) };
    let used = vc::answer(&mut *old, &neg, &ch.bytes())?;
    let mut fresh_client = make()?;
    let fresh = vc::exchange(&mut *fresh_client, &ch.bytes())?;
    ensure!(
        used.neg == fresh.neg,
        "NEGOTIATE of a reused client {} differs from a new one's {}",
        mk::hex(&used.neg),
        mk::hex(&fresh.neg)
    );
    let (a, b) = (stable_part(&used, level, &ch), stable_part(&fresh, level, &ch));
    for (x, y) in a.iter().zip(&b) {
        ensure!(
            x == y,
            "{} after earlier activity is {} instead of {} [level {level} granted {:08x}]",
            x.0,
            mk::hex(&x.1),
            mk::hex(&y.1),
            ch.flags
        );
    }
    ensure!(a.len() == b.len(), "NTLMv2 response of the reused client is malformed");
    let mut nonces = Vec::new();
    for (who, x) in [("reused", &used), ("new", &fresh)] {
        let r = account(&creds)
            .accept(level, ch.flags, &ch.sc, &sp::av_bytes(&ch.av), &x.raw)
            .map_err(|m| format!("{who} client: {m}"))?;
        if let (Some(k), Some(m)) = (r.session_key, x.key) {
            ensure!(k == m, "{who} client: session key differs from the server's");
        }
        if level >= 3 {
            if let Some(k) = r.session_key {
                ensure!(
                    x.raw.mic == sp::mic(&k, &x.neg, &ch.bytes(), &x.auth),
                    "{who} client: the MIC does not cover this exchange"
                );
            }
        }
        nonces.push(r.client_challenge);
    }
    if nonces[0].is_some() {
        ensure!(nonces[0] != nonces[1], "both clients use the same client challenge");
    }
    c.nontrivial = true;
    c.label_if(done > 0, "completed exchange before");
    c.label_if(done == 0, "only abandoned activity before");
    Ok(())
}

pub fn all() -> Vec<Property> {
    let base = Property {
        id: "",
        rule: "",
        run: c12,
        cases: 0,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &[],
        exhaustive_note: "",
    };
    vec![
        Property {
            id: "C12",
            rule: "sequences of 1 to 14 calls (NEGOTIATE, one of 2 to 4 challenges, AUTHENTICATE) against a model; non-trivial: an answer was produced and a challenge was ignored, or the handshake was restarted, or several answers were given",
            run: c12,
            cases: 800_000,
            enum_count: 6 * 4u64.pow(C12_DEPTH),
            enum_run: c12_enum,
            exhaustive_note: "all 4096 sequences of six calls over two challenges, at every level",
            assumptions: &["asking for an answer without an accepted challenge may panic"],
            ..base
        },
        Property {
            id: "C14",
            rule: "64 answers per case (same client asked again, new handshakes, new clients, mixed levels), all with visible client challenge and session key; statistics over the whole run; every case is non-trivial",
            run: c14,
            cases: 24_000,
            finish: c14_finish,
            assumptions: &["randomness is judged statistically: repeats, stuck or related bits, 9-sigma bias of bits and byte values; a good deterministic generator with an unpredictable seed would pass"],
            ..base
        },
        Property {
            id: "C15",
            rule: "pairs of spellings of one account, or of accounts differing in letter case only; non-trivial: the two spellings or texts really differ",
            run: c15,
            cases: 1_200_000,
            assumptions: &["String::to_uppercase is the reference for user-name case"],
            ..base
        },
        Property {
            id: "C16",
            rule: "accounts of any Unicode (NUL included), COMPUTERNAME unset, set, empty or undecodable, host name file of any content, missing or failing, one whole exchange with any decodable challenge; every case is non-trivial",
            run: c16,
            cases: 1_000_000,
            assumptions: &["the host name file is simulated by interposing open(2)", "texts fit one message field (64 KiB)", "a lone carriage return in the host name file may or may not end the line"],
            ..base
        },
        Property {
            id: "C17",
            rule: "new and reused clients at all levels with any domain and version, and the refusal of levels above 5; every case is non-trivial",
            run: c17,
            cases: 2_800_000,
            assumptions: &["the contents of a non-ASCII domain in NEGOTIATE are not specified (OEM character set)"],
            ..base
        },
        Property {
            id: "C25",
            rule: "a client with 1 to 10 steps of earlier history, interleaved with up to two other clients, against a new client given the same challenge; every case is non-trivial",
            run: c25,
            cases: 480_000,
            enum_count: 18,
            enum_run: c25_enum,
            exhaustive_note: "18 clients of 66000 exchanges, answers or offers each",
            ..base
        },
    ]
}
