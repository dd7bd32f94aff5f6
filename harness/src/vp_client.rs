//! Clients of any compatibility level behind one interface

use crate::vp_conv;
use crate::vp_engine::catch;
use crate::vp_make::hex;
use crate::vp_spec::{self, Raw, Ver};
use http_ntlm::client::Client;
use http_ntlm::messages::vp_hooks::Codec;
use http_ntlm::messages::Challenge;
use http_ntlm::NtlmVersion;
use std::time::SystemTime;

macro_rules! levels {
    ($($name:ident $n:literal),*) => {
        $(pub struct $name;
        impl NtlmVersion for $name {
            fn version() -> u32 { $n }
        })*
    };
}
levels!(L0 0, L1 1, L2 2, L3 3, L4 4, L5 5);

thread_local!(static OTHER: std::cell::Cell<u32> = const { std::cell::Cell::new(6) });

/// A level outside the supported ones
pub struct Other;
impl NtlmVersion for Other {
    fn version() -> u32 {
        if let Some(n) = PANIC_AFTER.get() {
            if n == 0 {
                PANIC_AFTER.set(None);
                std::panic::resume_unwind(Box::new("version() panics"));
            }
            PANIC_AFTER.set(Some(n - 1));
        }
        OTHER.get()
    }
}

thread_local!(static PANIC_AFTER: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) });
/// Lets `Other::version` panic once, after so many calls
pub fn panic_after(n: Option<u32>) {
    PANIC_AFTER.set(n);
}

/// Sets the level of `Other` on this thread and returns what it was
pub fn other(level: u32) -> u32 {
    OTHER.replace(level)
}

pub fn unsupported(level: u32, s: &Spelling, password: &str) -> Box<dyn AnyClient> {
    OTHER.set(level);
    make::<Other>(s, password, "")
}

pub trait AnyClient {
    fn negotiate(&mut self) -> Vec<u8>;
    fn challenge(&mut self, c: Challenge);
    fn authenticate(&mut self) -> Vec<u8>;
    fn set_version(&mut self, v: Option<Ver>);
    fn set_workstation(&mut self, w: Option<String>);
    fn session_key(&self) -> Option<[u8; 16]>;
}

impl<V: NtlmVersion> AnyClient for Client<V> {
    fn negotiate(&mut self) -> Vec<u8> {
        self.send_negociate().to_vec()
    }
    fn challenge(&mut self, c: Challenge) {
        self.recv_challenge(c)
    }
    fn authenticate(&mut self) -> Vec<u8> {
        self.send_authenticate().to_vec()
    }
    fn set_version(&mut self, v: Option<Ver>) {
        self.vp_set_version(v.map(vp_conv::version))
    }
    fn set_workstation(&mut self, w: Option<String>) {
        self.vp_set_workstation(w)
    }
    fn session_key(&self) -> Option<[u8; 16]> {
        self.vp_exported_session_key().and_then(|k| k[..].try_into().ok())
    }
}

/// How the account is spelled when the client is created
#[derive(Clone, Debug, PartialEq)]
pub enum Spelling {
    Split { user: String, domain: String },
    Joined(String),
}

fn make<V: NtlmVersion + 'static>(s: &Spelling, password: &str, target: &str) -> Box<dyn AnyClient> {
    Box::new(match s {
        Spelling::Split { user, domain } => Client::<V>::new_with_domain(
            user.clone(),
            domain.clone(),
            password.into(),
            target.into(),
        ),
        Spelling::Joined(name) => Client::<V>::new(name.clone(), password.into(), target.into()),
    })
}

pub fn client(level: u32, s: &Spelling, password: &str, target: &str) -> Box<dyn AnyClient> {
    match level {
        0 => make::<L0>(s, password, target),
        1 => make::<L1>(s, password, target),
        2 => make::<L2>(s, password, target),
        3 => make::<L3>(s, password, target),
        4 => make::<L4>(s, password, target),
        _ => make::<L5>(s, password, target),
    }
}

pub fn decode_challenge(b: &[u8]) -> Result<Challenge, String> {
    Challenge::vp_decode(b).map(|x| x.0).map_err(|_| "challenge does not decode".to_string())
}

/// One complete exchange as both sides saw it
#[derive(Clone)]
pub struct Exchange {
    pub neg: Vec<u8>,
    pub chal: Vec<u8>,
    pub auth: Vec<u8>,
    pub raw: Raw,
    /// the client's exported session key
    pub key: Option<[u8; 16]>,
    pub before: SystemTime,
    pub after: SystemTime,
}

pub fn send_negotiate(cl: &mut dyn AnyClient) -> Result<Vec<u8>, String> {
    catch(|| cl.negotiate()).map_err(|m| format!("NEGOTIATE: {m}"))
}

/// Asks an already challenged client for its answer
pub fn answer(cl: &mut dyn AnyClient, neg: &[u8], chal: &[u8]) -> Result<Exchange, String> {
    let before = SystemTime::now();
    let auth = catch(|| cl.authenticate()).map_err(|m| format!("AUTHENTICATE: {m}"))?;
    let after = SystemTime::now();
    let raw = vp_spec::parse(&auth).map_err(|m| format!("AUTHENTICATE {}: {m}", hex(&auth)))?;
    if raw.kind != 3 {
        return Err(format!("message of type {} instead of AUTHENTICATE", raw.kind));
    }
    if !vp_spec::disjoint(&raw) {
        return Err(format!("AUTHENTICATE fields overlap: {:?}", raw.places));
    }
    Ok(Exchange {
        neg: neg.to_vec(),
        chal: chal.to_vec(),
        auth,
        raw,
        key: cl.session_key(),
        before,
        after,
    })
}

pub fn exchange(cl: &mut dyn AnyClient, chal: &[u8]) -> Result<Exchange, String> {
    let neg = send_negotiate(cl)?;
    let m = decode_challenge(chal)?;
    catch(|| cl.challenge(m)).map_err(|m| format!("challenge: {m}"))?;
    answer(cl, &neg, chal)
}

/// FILETIME of a clock reading
pub fn ticks(t: SystemTime) -> u64 {
    let d = t.duration_since(SystemTime::UNIX_EPOCH).unwrap_or_default();
    116_444_736_000_000_000 + d.as_secs() * 10_000_000 + (d.subsec_nanos() / 100) as u64
}
