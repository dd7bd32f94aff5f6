//! C08 to C11, C13, C18: what the AUTHENTICATE message proves, protects and reveals

use crate::vp_client::{self as vc, Exchange, Spelling};
use crate::vp_conv::{self as cv, Codec};
use crate::vp_engine::{catch, logged, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_env::Clock;
use crate::vp_gen as g;
use crate::vp_make as mk;
use crate::vp_spec::{self as sp, fl, Account, Accepted, Av, Chal, Lm, Nt};
use http_ntlm::messages::structures::ExportedSessionKey;
use http_ntlm::messages::Authenticate;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicI32, Ordering};

pub struct Setup {
    pub creds: mk::Creds,
    pub level: u32,
    pub version: Option<sp::Ver>,
    pub workstation: Option<String>,
    pub ch: Chal,
    pub chal: Vec<u8>,
}

impl Setup {
    pub fn account(&self) -> Account {
        Account {
            user: self.creds.user.clone(),
            domain: self.creds.domain.clone(),
            password: self.creds.password.clone(),
        }
    }
    pub fn client(&self) -> Result<Box<dyn vc::AnyClient>, String> {
        let s = Spelling::Split {
            user: self.creds.user.clone(),
            domain: self.creds.domain.clone(),
        };
        let mut cl = catch(|| vc::client(self.level, &s, &self.creds.password, ""))
            .map_err(|m| format!("creating the client: {m}"))?;
        cl.set_version(self.version);
        cl.set_workstation(self.workstation.clone());
        Ok(cl)
    }
    pub fn exchange(&self) -> Result<Exchange, String> {
        vc::exchange(&mut *self.client()?, &self.chal)
    }
    /// The exchange on a new or a used client, with every answer if asked again
    pub fn answers(&self, c: &mut Case) -> Result<Vec<Exchange>, String> {
        let mut cl = self.client()?;
        let used = if c.chance(1, 4) { 1 + c.below(2) } else { 0 };
        for _ in 0..used {
            c.label("used client");
            let other = mk::server_challenge(c);
            let how = c.below(3);
            let neg = vc::send_negotiate(&mut *cl)?;
            if how > 0 {
                let m = vc::decode_challenge(&other.bytes())?;
                catch(|| cl.challenge(m))?;
                if how > 1 {
                    vc::answer(&mut *cl, &neg, &other.bytes())?;
                }
            }
        }
        // the clock may show anything and run backwards
        let any_time = c.flip();
        let mut _clock = any_time.then(|| Clock::at(g::clock(c)));
        let mut xs = vec![vc::exchange(&mut *cl, &self.chal)?];
        let again = c.weighted(&[5, 1, 1]);
        for _ in 0..again {
            c.label("answered again");
            if any_time && c.flip() {
                // the old one ends before the new one begins
                drop(_clock.take());
                _clock = Some(Clock::at(g::clock(c)));
            }
            let neg = xs[0].neg.clone();
            xs.push(vc::answer(&mut *cl, &neg, &self.chal)?);
        }
        Ok(xs)
    }
    pub fn accept(&self, x: &Exchange) -> Result<Accepted, String> {
        self.account().accept(self.level, self.ch.flags, &self.ch.sc, &sp::av_bytes(&self.ch.av), &x.raw)
    }
    fn describe(&self, c: &mut Case) {
        c.note(|| format!("level {} {:?} version {:?} workstation {:?}", self.level, self.creds, self.version, self.workstation));
        c.note(|| format!("challenge flags {:08x} sc {} av {}", self.ch.flags, mk::hex(&self.ch.sc), mk::short(&self.ch.av)));
    }
}

/// A client and the challenge it meets; `canonical` keeps the layout this crate writes
pub fn setup(c: &mut Case, lo: u64, hi: u64, canonical: bool) -> Setup {
    let level = c.range(lo, hi) as u32;
    let creds = mk::creds(c);
    let version = mk::opt_ver(c);
    let workstation = if c.chance(1, 4) { None } else { Some(g::text(c, 40)) };
    let ch = mk::server_challenge(c);
    let chal = if canonical || c.flip() {
        ch.bytes()
    } else {
        let r = if c.chance(1, 3) && !cfg!(feature = "strict") { g::int(c, 64) } else { 0 };
        mk::arrange_chal(c, &ch, r)
    };
    let s = Setup { creds, level, version, workstation, ch, chal };
    s.describe(c);
    c.label(["level 0", "level 1", "level 2", "level 3", "level 4", "level 5"][level as usize]);
    let f = s.ch.flags;
    c.label_if(fl::has(f, fl::ESS), "extended session security");
    c.label_if(sp::key_exchanged(f), "key exchanged");
    c.label_if(fl::has(f, fl::LM_KEY), "LM key");
    c.label_if(fl::has(f, fl::NON_NT_KEY), "non-NT key");
    c.label_if(!s.creds.password.is_ascii(), "non-ASCII password");
    c.label_if(s.creds.user != s.creds.user.to_uppercase(), "user with lower case");
    c.label_if(s.ch.av.len() > 1, "target information");
    s
}

fn with_context<T>(s: &Setup, r: Result<T, String>) -> Result<T, String> {
    r.map_err(|m| format!("{m} [level {} granted {:08x} {:?}]", s.level, s.ch.flags, s.creds))
}

// ---------- C08 ----------

fn c08(c: &mut Case) -> Outcome {
    let s = setup(c, 0, 2, false);
    c.nontrivial = !s.creds.password.is_empty();
    for x in with_context(&s, s.answers(c))? {
        let a = with_context(&s, s.accept(&x))?;
        // nothing but the responses of this exchange
        if fl::has(s.ch.flags, fl::ESS) {
            ensure!(a.client_challenge.is_some(), "no client challenge");
        } else if s.level == 0 {
            c.label("LM response");
            ensure!(
                s.creds.password.is_ascii() || x.raw.fields[0] != x.raw.fields[1],
                "the LM response repeats the NT response at level 0"
            );
        }
    }
    Ok(())
}

// ---------- C09 ----------

fn c09(c: &mut Case) -> Outcome {
    let s = setup(c, 3, 5, false);
    c.nontrivial = !s.creds.password.is_empty();
    for x in with_context(&s, s.answers(c))? {
        blob_time(c, &s, &x)?;
    }
    Ok(())
}

/// The responses are accepted and the blob's time is the right one
fn blob_time(c: &mut Case, s: &Setup, x: &Exchange) -> Outcome {
    let a = with_context(s, s.accept(x))?;
    let t = a.time.unwrap_or(0);
    let end = s.ch.av.iter().position(|x| *x == Av::Eol).unwrap_or(s.ch.av.len());
    let find = |l: &[Av]| {
        l.iter().find_map(|a| match a {
            Av::Time(t) => Some(*t),
            _ => None,
        })
    };
    let (first, any) = (find(&s.ch.av[..end]), find(&s.ch.av));
    let clock = vc::ticks(x.before) <= t && t <= vc::ticks(x.after);
    match (first, any) {
        (Some(want), _) => {
            c.label("server time");
            ensure!(t == want, "blob time {t} is not the server's {want}");
        }
        (None, None) => {
            c.label("own time");
            ensure!(
                clock,
                "blob time {t} is not the current time ({} to {})",
                vc::ticks(x.before),
                vc::ticks(x.after)
            );
        }
        // only after an end marker inside the list: either reading is right
        (None, Some(w)) => ensure!(t == w || clock, "blob time {t} is neither the server's nor the clock's"),
    }
    Ok(())
}

// ---------- C10 ----------

fn c10(c: &mut Case) -> Outcome {
    let s = setup(c, 0, 5, false);
    c.nontrivial = true;
    for x in with_context(&s, s.answers(c))? {
        let a = with_context(&s, s.accept(&x))?;
        ensure!(
            a.key_sent.is_some() == sp::key_exchanged(s.ch.flags),
            "granted {:08x}: encrypted session key {}",
            s.ch.flags,
            if a.key_sent.is_some() { "sent without key exchange" } else { "missing" }
        );
        match (a.session_key, x.key) {
            (Some(k), Some(m)) => ensure!(
                k == m,
                "the server derives session key {} but the client uses {} [level {} granted {:08x} {:?}]",
                mk::hex(&k),
                mk::hex(&m),
                s.level,
                s.ch.flags,
                s.creds
            ),
            (None, Some(_)) => c.label("key depends on a non-ASCII LM hash"),
            (_, None) => return Err("the client has no session key after AUTHENTICATE".into()),
        }
    }
    Ok(())
}

// ---------- C11 ----------

fn c11(c: &mut Case) -> Outcome {
    if c.chance(1, 4) {
        return c11_alone(c);
    }
    let canonical = c.chance(3, 4);
    let s = setup(c, 3, 5, canonical);
    c.nontrivial = true;
    let mut cl = with_context(&s, s.client())?;
    // earlier activity on the same client must not enter the MIC
    let rounds = c.below(3);
    for _ in 0..rounds {
        c.label("reused client");
        let other = mk::server_challenge(c);
        if c.flip() {
            with_context(&s, vc::exchange(&mut *cl, &other.bytes()))?;
        } else {
            with_context(&s, vc::send_negotiate(&mut *cl))?;
        }
        if c.flip() {
            cl.set_version(mk::opt_ver(c));
        }
    }
    let mut x = with_context(&s, vc::exchange(&mut *cl, &s.chal))?;
    let again = c.below(3);
    for k in 0..=again {
        if k > 0 {
            c.label("answered again");
            x = with_context(&s, vc::answer(&mut *cl, &x.neg.clone(), &s.chal))?;
        }
        let a = with_context(&s, s.accept(&x))?;
        let key = a.session_key.ok_or("no session key")?;
        let want = sp::mic(&key, &x.neg, &s.chal, &x.auth);
        if x.raw.mic != want {
            let re = s.ch.bytes();
            if re != s.chal && x.raw.mic == sp::mic(&key, &x.neg, &re, &x.auth) {
                c.finding(
                    "C11",
                    "K2",
                    "the MIC covers a re-encoding of the CHALLENGE message instead of the bytes received".into(),
                )?;
                continue;
            }
            return Err(format!(
                "MIC {} should be {} [level {} answer {k} granted {:08x}]",
                mk::hex(&x.raw.mic),
                mk::hex(&want),
                s.level,
                s.ch.flags
            ));
        }
    }
    Ok(())
}

/// `compute_mic` on messages of any content
fn c11_alone(c: &mut Case) -> Outcome {
    c.label("stand-alone MIC");
    c.nontrivial = true;
    let n = cv::negotiate(&mk::neg(c));
    let ch = match cv::challenge(&mk::chal(c)) {
        Ok(x) => x,
        Err(_) => {
            c.nontrivial = false;
            return Ok(());
        }
    };
    let v = mk::auth(c);
    c.note(|| format!("stand-alone {}", mk::short(&v)));
    let build = |mic: [u8; 16], key: Option<[u8; 16]>| -> Authenticate {
        let mut v = v.clone();
        v.mic = mic;
        let mut m = cv::authenticate(&v);
        m.exported_session_key = key.map(ExportedSessionKey::from);
        m
    };
    let enc = |m: &Authenticate| catch(|| m.vp_encode());
    let key: [u8; 16] = g::array(c);
    let (nb, cb) = (catch(|| n.vp_encode())?, catch(|| ch.vp_encode())?);
    let zero = enc(&build([0; 16], None))?;
    let mut parts: Vec<&[u8]> = vec![&nb, &cb];
    parts.push(&zero);
    let want = sp::hmac(&key, &parts);

    let mut m = build(v.mic, Some(key));
    for round in 0..2 {
        catch(|| m.compute_mic(&n, &ch))?;
        ensure!(
            m.mic[..] == want,
            "MIC computation {} over a message with MIC {} gives {:?}, not {}",
            round + 1,
            mk::hex(&v.mic),
            m.mic,
            mk::hex(&want)
        );
        let same = build(want, Some(key));
        ensure!(m == same, "computing the MIC changed something else in the message");
    }
    let mut m = build(v.mic, None);
    catch(|| m.compute_mic(&n, &ch))?;
    ensure!(m == build(v.mic, None), "computing the MIC without session key changed the message");
    Ok(())
}

// ---------- C13 ----------

static SINK: AtomicI32 = AtomicI32::new(-1);

/// Standard output and error of the process go to a memory file that the check reads
pub fn capture_output() {
    unsafe {
        let fd = libc::memfd_create(c"output".as_ptr(), libc::MFD_CLOEXEC);
        libc::dup2(fd, 1);
        libc::dup2(fd, 2);
        SINK.store(fd, Ordering::SeqCst);
    }
}

fn sink_pos() -> i64 {
    let fd = SINK.load(Ordering::SeqCst);
    if fd < 0 {
        return 0;
    }
    let _ = std::io::stdout().flush();
    unsafe { libc::lseek(fd, 0, libc::SEEK_CUR) as i64 }
}

fn sink_since(from: i64) -> Vec<u8> {
    let fd = SINK.load(Ordering::SeqCst);
    let to = sink_pos();
    let mut v = vec![0u8; (to - from).max(0) as usize];
    if fd >= 0 && !v.is_empty() {
        let n = unsafe { libc::pread(fd, v.as_mut_ptr().cast(), v.len(), from as _) };
        v.truncate(n.max(0) as usize);
    }
    v
}

fn base64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for ch in b.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for (i, s) in [18, 12, 6, 0].iter().enumerate() {
            if i <= ch.len() {
                o.push(T[(n >> s) as usize & 63] as char);
            }
        }
    }
    o
}

/// Forms in which bytes are usually printed; white space is already normalised
fn printed_forms(s: &[u8]) -> Vec<String> {
    let n = s.len();
    let mut parts: Vec<&[u8]> = vec![s];
    if n == 16 {
        parts.extend([&s[..6], &s[5..11], &s[10..]]);
        parts.retain(|p| p.iter().filter(|b| **b != 0).count() >= 5);
    }
    let back: Vec<u8> = s.iter().rev().copied().collect();
    parts.push(&back);
    let mut o = Vec::new();
    for part in parts {
        let join = |f: &dyn Fn(&u8) -> String, sep: &str| part.iter().map(f).collect::<Vec<_>>().join(sep);
        for sep in ["", " ", ":", ", "] {
            o.push(join(&|b| format!("{b:02x}"), sep));
            o.push(join(&|b| format!("{b:02X}"), sep));
        }
        for sep in [", ", ",", " "] {
            o.push(join(&|b| format!("{b}"), sep));
        }
        o.push(join(&|b| format!("{b:x}"), ", "));
        o.push(join(&|b| format!("{b:X}"), ", "));
        o.push(join(&|b| format!("0x{b:02x}"), ", "));
        o.push(join(&|b| format!("0x{b:x}"), ", "));
        if part.len() == n {
            o.push(base64(part).trim_end_matches('=').to_string());
        }
    }
    o
}

fn squeeze(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn c13(c: &mut Case) -> Outcome {
    let mut s = setup(c, 0, 5, false);
    c.nontrivial = true;
    // a password that cannot occur by chance, in a varied alphabet
    let n = 12 + c.below(24);
    let mut r = c.bulk();
    let wide = c.chance(1, 4);
    s.creds.password = (0..n)
        .map(|i| {
            let x = r.next();
            if wide && i % 3 == 0 {
                char::from_u32(0x100 + (x % 0x2000) as u32).unwrap_or('x')
            } else {
                (0x21 + (x % 0x5e) as u8) as char
            }
        })
        .collect();
    if c.chance(1, 2) {
        let d: Vec<char> = s.creds.password.chars().collect();
        s.creds.user = d.iter().rev().take(5).collect();
    }
    let from = sink_pos();
    logged();
    let xs = with_context(&s, history(c, &s));
    let log = logged();
    let xs = xs?;
    let out = sink_since(from);
    let p = &s.creds.password;
    let mut secrets: Vec<(&str, Vec<u8>)> = vec![
        ("NT hash", sp::nt_hash(p).to_vec()),
        ("NTLMv2 hash", sp::ntlmv2_hash(&s.creds.user, &s.creds.domain, p).to_vec()),
        ("password as text", p.as_bytes().to_vec()),
        ("password as UTF-16", sp::utf16(p)),
        ("upper-cased password", p.to_uppercase().into_bytes()),
    ];
    if let Some(h) = sp::lm_hash(p) {
        secrets.push(("LM hash", h.to_vec()));
    }
    for (ch, x) in &xs {
        let a = with_context(&s, s.account().accept(s.level, ch.flags, &ch.sc, &sp::av_bytes(&ch.av), &x.raw))?;
        secrets.push(("session base key", a.session_base_key.to_vec()));
        for (n, k) in [
            ("key exchange key", a.key_exchange_key),
            ("exported session key", a.session_key),
            ("client's session key", x.key),
        ] {
            if let Some(k) = k {
                secrets.push((n, k.to_vec()));
            }
        }
    }
    let pieces = pieces(&secrets);
    let printed = printed(&secrets);
    for (i, (ch, x)) in xs.iter().enumerate() {
        for (msg, b) in [("NEGOTIATE", &x.neg), ("AUTHENTICATE", &x.auth)] {
            if let Some((name, f)) = find_piece(&pieces, b) {
                return Err(format!(
                    "{msg} number {i} contains the {name} ({}) [level {} granted {:08x}]",
                    mk::hex(&f),
                    s.level,
                    ch.flags
                ));
            }
        }
    }
    for (place, b) in [("the log", log.as_bytes()), ("standard output or error", &out[..])] {
        if b.is_empty() {
            continue;
        }
        c.label(if place == "the log" { "something logged" } else { "something printed" });
        if let Some((name, f)) = find_piece(&pieces, b) {
            return Err(format!("{place} contains the {name} ({})", mk::hex(&f)));
        }
        let t = squeeze(b);
        if let Some((name, f)) = find_printed(&printed, &t) {
            return Err(format!("{place} contains the {name} as {f:?}"));
        }
        let dbg = format!("{p:?}");
        ensure!(!t.contains(&dbg[1..dbg.len() - 1]), "{place} contains the password");
    }
    Ok(())
}

/// One to three exchanges of one client, the last with the challenge of `s`
fn history(c: &mut Case, s: &Setup) -> Result<Vec<(Chal, Exchange)>, String> {
    let mut cl = s.client()?;
    let mut xs: Vec<(Chal, Exchange)> = Vec::new();
    let rounds = c.weighted(&[3, 1, 1]);
    for k in 0..=rounds {
        let (ch, b) = if k == rounds {
            (s.ch.clone(), s.chal.clone())
        } else {
            c.label("used client");
            let ch = mk::server_challenge(c);
            let b = ch.bytes();
            (ch, b)
        };
        let x = vc::exchange(&mut *cl, &b)?;
        let neg = x.neg.clone();
        xs.push((ch.clone(), x));
        if c.chance(1, 6) {
            c.label("answered again");
            xs.push((ch, vc::answer(&mut *cl, &neg, &b)?));
        }
    }
    if c.chance(1, 6) {
        // a last NEGOTIATE, after which the client is left alone
        c.label("negotiates again");
        let neg = vc::send_negotiate(&mut *cl)?;
        let (ch, mut x) = xs[xs.len() - 1].clone();
        x.neg = neg;
        xs.push((ch, x));
    }
    Ok(xs)
}

/// Every short run of bytes of the secrets that does not occur by chance
struct Pieces(HashMap<[u8; 6], Vec<(&'static str, Vec<u8>)>>);

fn pieces(secrets: &[(&'static str, Vec<u8>)]) -> Pieces {
    let mut m: HashMap<[u8; 6], Vec<(&'static str, Vec<u8>)>> = HashMap::new();
    for (name, v) in secrets {
        // keys by 6 bytes, texts by 8 characters (the user name may repeat 5 of them)
        let len = match (v.len(), *name) {
            (_, "password as UTF-16") => 16,
            (_, "password as text" | "upper-cased password") => 12,
            _ => 6,
        };
        let back: Vec<u8> = v.iter().rev().copied().collect();
        let both = [&v[..], &back[..]];
        for w in both[..if len == 6 { 2 } else { 1 }].iter().flat_map(|x| x.windows(len)) {
            let mut d = w.to_vec();
            d.sort_unstable();
            d.dedup();
            if d.len() < 5 {
                continue;
            }
            let mut k = [0; 6];
            k.copy_from_slice(&w[..6]);
            m.entry(k).or_default().push((*name, w.to_vec()));
        }
    }
    Pieces(m)
}

/// Printed forms by the eight bytes they start with
struct Printed(HashMap<[u8; 8], Vec<(&'static str, String)>>);

fn printed(secrets: &[(&'static str, Vec<u8>)]) -> Printed {
    let mut m: HashMap<[u8; 8], Vec<(&'static str, String)>> = HashMap::new();
    for (name, v) in secrets {
        for f in printed_forms(v) {
            let mut k = [0; 8];
            if f.len() >= 8 {
                k.copy_from_slice(&f.as_bytes()[..8]);
                m.entry(k).or_default().push((*name, f));
            }
        }
    }
    Printed(m)
}

fn find_printed(p: &Printed, t: &str) -> Option<(&'static str, String)> {
    let b = t.as_bytes();
    for i in 0..b.len().saturating_sub(7) {
        let mut k = [0; 8];
        k.copy_from_slice(&b[i..i + 8]);
        if let Some(f) = p.0.get(&k).and_then(|l| l.iter().find(|f| b[i..].starts_with(f.1.as_bytes()))) {
            return Some(f.clone());
        }
    }
    None
}

fn find_piece(p: &Pieces, b: &[u8]) -> Option<(&'static str, Vec<u8>)> {
    for i in 0..b.len().saturating_sub(5) {
        let mut k = [0; 6];
        k.copy_from_slice(&b[i..i + 6]);
        if let Some(l) = p.0.get(&k) {
            if let Some(f) = l.iter().find(|f| b[i..].starts_with(&f.1)) {
                return Some(f.clone());
            }
        }
    }
    None
}

// ---------- C18 ----------

fn c18(c: &mut Case) -> Outcome {
    let s = setup(c, 0, 5, false);
    c.nontrivial = true;
    for x in with_context(&s, s.answers(c))? {
        identity(&s, &x)?;
    }
    Ok(())
}

pub fn identity(s: &Setup, x: &Exchange) -> Outcome {
    let r = &x.raw;
    for (i, what, want) in [
        (2, "domain", sp::utf16(&s.creds.domain)),
        (3, "user", sp::utf16(&s.creds.user)),
        (4, "workstation", s.workstation.as_ref().map(|w| sp::utf16(w)).unwrap_or_default()),
    ] {
        ensure!(
            r.fields[i] == want,
            "{what} on the wire is {} instead of {}",
            mk::hex(&r.fields[i]),
            mk::hex(&want)
        );
    }
    let sent = !r.fields[5].is_empty();
    let mut want = s.ch.flags;
    want = mk::agree(want, fl::KEY_EXCH, sent);
    want = mk::agree(want, fl::VERSION, s.version.is_some());
    want &= !(fl::TYPE_SERVER | fl::OEM);
    want |= fl::UNICODE | fl::TARGET_INFO | fl::REQUEST_TARGET;
    ensure!(
        r.flags == want,
        "granted {:08x} gives AUTHENTICATE flags {:08x} instead of {want:08x}",
        s.ch.flags,
        r.flags
    );
    let slot = s.version.map(sp::ver_bytes).unwrap_or([0; 8]);
    ensure!(r.version == slot, "version slot {} instead of {}", mk::hex(&r.version), mk::hex(&slot));
    let (m, rest) = catch(|| Authenticate::vp_decode(&x.auth))?
        .map_err(|_| format!("the crate does not decode its AUTHENTICATE {}", mk::hex(&x.auth)))?;
    ensure!(rest == 0, "{rest} bytes left over after decoding AUTHENTICATE");
    let d = cv::auth_of(&m)?;
    ensure!(d.flags == want, "decoded flags {:08x}", d.flags);
    ensure!(d.version == s.version, "decoded version {:?}", d.version);
    ensure!(d.domain == mk::norm(Some(s.creds.domain.clone())), "decoded domain {:?}", d.domain);
    ensure!(d.user == mk::norm(Some(s.creds.user.clone())), "decoded user {:?}", d.user);
    ensure!(d.workstation == mk::norm(s.workstation.clone()), "decoded workstation {:?}", d.workstation);
    ensure!(d.mic == r.mic, "decoded MIC {}", mk::hex(&d.mic));
    ensure!(d.key.map(|k| k.to_vec()).unwrap_or_default() == r.fields[5], "decoded session key");
    match (&d.lm, s.level) {
        (Some(l @ Lm::V1(_)), 0..=2) | (Some(l @ Lm::V2(..)), 3..=5) => {
            ensure!(l.bytes()[..] == r.fields[0][..], "decoded LM response {l:?}")
        }
        (l, n) => return Err(format!("LM response decoded as {l:?} at level {n}")),
    }
    match (&d.nt, s.level) {
        (Some(n @ Nt::V1(_)), 0..=2) | (Some(n @ Nt::Resp(..)), 3..=5) => {
            ensure!(n.bytes() == r.fields[1], "decoded NT response {}", mk::short(n))
        }
        (l, n) => return Err(format!("NT response decoded as {} at level {n}", mk::short(l))),
    }
    Ok(())
}

pub fn all() -> Vec<Property> {
    let base = Property {
        id: "",
        rule: "",
        run: c08,
        cases: 0,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &[],
        exhaustive_note: "",
    };
    const SERVER: &str = "the reference server follows MS-NLMP 3.3; String::to_uppercase is the reference for upper-casing user names; LM hashes are defined for ASCII passwords only";
    vec![
        Property {
            id: "C08",
            rule: "whole exchanges at levels 0 to 2: account texts of all kinds, any granted flags, any well-formed challenge in any legal layout; non-trivial: a password that is not empty",
            run: c08,
            cases: 2_000_000,
            assumptions: &[SERVER],
            ..base
        },
        Property {
            id: "C09",
            rule: "as C08 at levels 3 to 5; non-trivial: a password that is not empty",
            run: c09,
            cases: 1_600_000,
            assumptions: &[SERVER, "target information up to 65000 bytes", "the wall clock does not step backwards during a call"],
            ..base
        },
        Property {
            id: "C10",
            rule: "as C08 at all levels, key-selecting flags forced to all combinations in two thirds of the cases; every case is non-trivial",
            run: c10,
            cases: 1_800_000,
            assumptions: &[SERVER, "session keys that depend on the LM hash are compared for ASCII passwords only"],
            ..base
        },
        Property {
            id: "C11",
            rule: "exchanges at levels 3 to 5 on new and reused clients, answered up to three times, canonical challenges in three quarters; one quarter calls compute_mic on arbitrary messages; every case is non-trivial",
            run: c11,
            cases: 1_200_000,
            assumptions: &[SERVER],
            ..base
        },
        Property {
            id: "C13",
            rule: "as C08 at all levels with random passwords of 12 to 35 characters; one to three exchanges of one client; every run of 6 bytes of a key or hash, forwards and backwards, and of 8 characters of the password is searched in every message, and the usual printed forms in log records of every level and standard output and error; every case is non-trivial",
            run: c13,
            cases: 120_000,
            assumptions: &["secrets are recognised raw, in UTF-16, in hexadecimal, decimal or base64"],
            ..base
        },
        Property {
            id: "C18",
            rule: "as C08 at all levels, with and without version and workstation; every case is non-trivial",
            run: c18,
            cases: 1_600_000,
            assumptions: &["texts without NUL"],
            ..base
        },
    ]
}
