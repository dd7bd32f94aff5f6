//! C28 to C31: values and their printing, random constructors, bounded resources, the server's side

use crate::vp_alloc;
use crate::vp_client as vc;
use crate::vp_conv::{self as cv, Codec};
use crate::vp_env::Clock;
use crate::vp_engine::{catch, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_gen as g;
use crate::vp_make as mk;
use crate::vp_spec::{self as sp, fl, Auth, Av, Blob, Chal, Lm, Neg, Nt};
use http_ntlm::messages::structures as st;
use http_ntlm::messages::vp_hooks::{OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::ops::{Deref, DerefMut};
use std::os::unix::process::CommandExt;
use std::sync::Mutex;

// ---------- C28 ----------

fn plain_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn buffer<T, const N: usize>(c: &mut Case, name: &str) -> Outcome
where
    T: From<[u8; N]> + Deref<Target = [u8]> + DerefMut + Debug + Default + PartialEq + Clone,
{
    let a: [u8; N] = g::array(c);
    c.note(|| format!("{name} {}", plain_hex(&a)));
    let mut v = T::from(a);
    ensure!(v[..] == a, "{name} made from {} holds {}", plain_hex(&a), plain_hex(&v));
    let shown = catch(|| format!("{v:?}"))?;
    ensure!(shown == plain_hex(&a), "{name} {} prints as {shown}", plain_hex(&a));
    let zero = T::default();
    ensure!(zero[..] == [0; N], "default {name} holds {}", plain_hex(&zero));
    ensure!((zero == v) == (a == [0; N]), "comparison of {name} {} with zero is wrong", plain_hex(&a));
    let mut w = v.clone();
    ensure!(w == v, "copy of {name} {} differs", plain_hex(&a));
    let i = c.below(N);
    let x = 1 + c.draw(254) as u8;
    w[i] ^= x;
    ensure!(v[..] == a, "changing a copy of {name} changes the original");
    ensure!(w != v, "{name} {} equals {}", plain_hex(&v), plain_hex(&w));
    let mut b = a;
    b[i] ^= x;
    ensure!(w[..] == b, "byte {i} of {name} {} set to {:02x}: {}", plain_hex(&a), b[i], plain_hex(&w));
    w[i] ^= x;
    ensure!(w == v, "{name} {} differs from {}", plain_hex(&v), plain_hex(&w));
    let other: [u8; N] = g::array(c);
    v.copy_from_slice(&other);
    ensure!(v[..] == other && (v == w) == (a == other), "{name} overwritten with {} holds {}", plain_hex(&other), plain_hex(&v));
    Ok(())
}

fn string<T>(c: &mut Case, name: &str) -> Outcome
where
    T: From<String>
        + for<'a> From<&'a str>
        + Into<String>
        + Deref<Target = String>
        + DerefMut
        + Debug
        + Display
        + Default
        + PartialEq
        + Clone,
{
    let mut s = g::text(c, 60);
    if c.chance(1, 6) {
        s.push('\0');
        s.push_str(&g::text(c, 4));
    }
    c.note(|| format!("{name} {s:?}"));
    let v = T::from(s.clone());
    ensure!(*v == s, "{name} made from {s:?} holds {:?}", *v);
    ensure!(v == T::from(s.as_str()), "{name} made from text {s:?} in two ways differs");
    ensure!(T::default().is_empty(), "default {name} is not empty");
    ensure!((v == T::default()) == s.is_empty(), "comparison of {name} {s:?} with the default is wrong");
    ensure!(catch(|| v.to_string())? == s, "{name} {s:?} prints as {v}");
    ensure!(catch(|| format!("{v:?}"))? == format!("{s:?}"), "{name} {s:?} prints as {v:?}");
    ensure!(format!("{v:>70}|{v:<9.4}") == format!("{s:>70}|{s:<9.4}"), "{name} {s:?} is padded differently");
    let mut w = v.clone();
    let x = g::ch(c);
    w.push(x);
    ensure!(w != v && *v == s, "adding to a copy of {name} {s:?} is not seen, or changes the original");
    let mut t = s.clone();
    t.push(x);
    ensure!(*w == t, "{name} {s:?} with {x:?} added holds {:?}", *w);
    let back: String = w.into();
    ensure!(back == t, "{name} {t:?} turns into {back:?}");
    Ok(())
}

/// Two different values compare and print differently; copies do neither
fn differ<T: PartialEq + Debug + Clone>(what: &str, a: &T, b: &T, same: bool) -> Outcome {
    let (pa, pb) = (catch(|| format!("{a:?} {a:#?}"))?, catch(|| format!("{b:?} {b:#?}"))?);
    let copy = a.clone();
    ensure!(copy == *a, "a copy of {what} {} differs", mk::short(a));
    ensure!(format!("{copy:?} {copy:#?}") == pa, "a copy of {what} {} prints differently", mk::short(a));
    ensure!(
        (a == b) == same,
        "{what} {} and {} compare {}",
        mk::short(a),
        mk::short(b),
        if same { "different" } else { "equal" }
    );
    ensure!((pa == pb) == same, "{what} {} and {} print {}", mk::short(a), mk::short(b), if same { "differently" } else { "alike" });
    Ok(())
}

fn another<T: PartialEq + Clone>(c: &mut Case, old: &T, f: impl Fn(&mut Case) -> T) -> T {
    for _ in 0..8 {
        let v = f(c);
        if v != *old {
            return v;
        }
    }
    old.clone()
}

/// A value that differs from another one in a single part, by little
mod near {
    use super::*;
    use crate::vp_spec::{Av, Blob, Lm, Nt};

    pub fn byte(c: &mut Case, b: &mut [u8]) {
        let i = c.below(b.len());
        b[i] ^= *c.pick(&[1, 2, 0x20, 0x80, 0xff]);
    }

    pub fn number(c: &mut Case, n: u64, bits: u64) -> u64 {
        n ^ 1 << c.draw(bits - 1)
    }

    pub fn text(c: &mut Case, s: &str) -> String {
        let mut all: Vec<char> = s.chars().collect();
        let x = *c.pick(&[' ', '\0', '.', 'a', '\u{301}', '\u{feff}', '😀']);
        match c.below(5) {
            0 => all.push(x),
            1 => all.insert(0, x),
            2 if !all.is_empty() => {
                let i = c.below(all.len());
                all[i] = if all[i].is_ascii_alphabetic() { (all[i] as u8 ^ 0x20) as char } else { x };
            }
            3 if !all.is_empty() => {
                let i = c.below(all.len());
                all.remove(i);
            }
            _ => all.insert(all.len() / 2, x),
        }
        let t: String = all.into_iter().collect();
        if t == s {
            // replaced by itself
            return t + "!";
        }
        t
    }

    pub fn opt_text(c: &mut Case, s: &Option<String>) -> Option<String> {
        match s {
            Some(s) if !c.chance(1, 6) => Some(text(c, s)),
            Some(_) => None,
            // the empty text is not the absent one
            None => Some(String::new()),
        }
    }

    pub fn av(c: &mut Case, a: &Av) -> Av {
        let mut a = a.clone();
        match &mut a {
            Av::Eol => return Av::Text(1, String::new()),
            Av::Text(id, t) => {
                if c.chance(1, 3) {
                    *id = if *id == 9 { 1 } else { *id % 5 + 1 };
                } else {
                    *t = text(c, t);
                }
            }
            Av::Flags(f) => *f = number(c, u64::from(*f), 3) as u32,
            Av::Time(t) => *t = number(c, *t, 64),
            Av::Single { size, custom, machine } => match c.below(3) {
                0 => *size = number(c, u64::from(*size), 32) as u32,
                1 => byte(c, custom),
                _ => byte(c, machine),
            },
            Av::Bindings(b) => byte(c, b),
        }
        a
    }

    pub fn av_list(c: &mut Case, l: &[Av]) -> Vec<Av> {
        let mut l = l.to_vec();
        match c.below(4) {
            0 => l.push(Av::Eol),
            1 if !l.is_empty() => drop(l.pop()),
            2 if l.len() > 1 && l[0] != l[1] => l.swap(0, 1),
            _ if !l.is_empty() => {
                let i = c.below(l.len());
                l[i] = av(c, &l[i]);
            }
            _ => l.push(Av::Eol),
        }
        l
    }

    pub fn blob(c: &mut Case, b: &Blob) -> Blob {
        let mut b = b.clone();
        match c.below(3) {
            0 => b.time = number(c, b.time, 64),
            1 => byte(c, &mut b.cc),
            _ => b.av = av_list(c, &b.av),
        }
        b
    }

    pub fn nt(c: &mut Case, n: &Nt) -> Nt {
        match n {
            Nt::V1(b) => {
                let mut b = *b;
                byte(c, &mut b);
                Nt::V1(b)
            }
            Nt::V2(b) => match c.below(4) {
                0 => Nt::Resp([0; 16], b.clone()),
                _ => Nt::V2(blob(c, b)),
            },
            Nt::Resp(p, b) => match c.below(3) {
                0 => Nt::V2(b.clone()),
                1 => {
                    let mut p = *p;
                    byte(c, &mut p);
                    Nt::Resp(p, b.clone())
                }
                _ => Nt::Resp(*p, blob(c, b)),
            },
        }
    }

    pub fn lm(c: &mut Case, l: &Lm) -> Lm {
        let kind = c.chance(1, 4);
        match l {
            Lm::V1(b) => {
                let mut b = *b;
                if kind {
                    return Lm::V2(b[..16].try_into().unwrap(), b[16..].try_into().unwrap());
                }
                byte(c, &mut b);
                Lm::V1(b)
            }
            Lm::V2(r, k) => {
                let mut b = [0; 24];
                b[..16].copy_from_slice(r);
                b[16..].copy_from_slice(k);
                if kind {
                    return Lm::V1(b);
                }
                byte(c, &mut b);
                Lm::V2(b[..16].try_into().unwrap(), b[16..].try_into().unwrap())
            }
        }
    }
}

/// Any version structure, of any revision
fn version(c: &mut Case) -> st::Version {
    let mut v = cv::version(mk::ver(c));
    if c.flip() {
        v.revision_count = c.draw(255) as u8;
    }
    v
}

fn near_version(c: &mut Case, v: &st::Version) -> st::Version {
    let mut v = v.clone();
    match c.below(4) {
        0 => v.major = near::number(c, v.major.into(), 8) as u8,
        1 => v.minor = near::number(c, v.minor.into(), 8) as u8,
        2 => v.build = near::number(c, v.build.into(), 16) as u16,
        _ => v.revision_count = near::number(c, v.revision_count.into(), 8) as u8,
    }
    v
}

/// Two values that differ in one part only
fn twins(c: &mut Case) -> Outcome {
    match c.below(10) {
        0 => {
            let a = version(c);
            let b = near_version(c, &a);
            c.note(|| format!("{a:?} and its like"));
            differ("version", &a, &b, false)
        }
        1 => {
            let a = mk::av_pair(c, 20);
            let b = near::av(c, &a);
            c.note(|| format!("{} and its like", mk::short(&a)));
            differ("AV pair", &cv::av(&a), &cv::av(&b), false)
        }
        2 => {
            let t = g::filetime(c);
            c.note(|| format!("FILETIME {t} and its like"));
            differ("FILETIME", &cv::filetime(t), &cv::filetime(near::number(c, t, 64)), false)
        }
        3 => {
            let a = mk::nt(c);
            let b = near::nt(c, &a);
            c.note(|| format!("{} and its like", mk::short(&a)));
            differ("NT response", &cv::nt(&a), &cv::nt(&b), false)
        }
        4 => {
            let v1 = c.flip();
            let a = mk::lm_kind(c, v1);
            let b = near::lm(c, &a);
            c.note(|| format!("{} and its like", mk::short(&a)));
            differ("LM response", &cv::lm(&a), &cv::lm(&b), false)
        }
        5 => {
            let s = st::MessageSignature { random_pad: g::array::<4>(c).into(), checksum: g::int(c, 32) as u32, seq_num: g::int(c, 32) as u32 };
            let mut t = s.clone();
            match c.below(3) {
                0 => near::byte(c, &mut t.random_pad),
                1 => t.checksum = near::number(c, t.checksum.into(), 32) as u32,
                _ => t.seq_num = near::number(c, t.seq_num.into(), 32) as u32,
            }
            c.note(|| format!("{s:?} and its like"));
            differ("message signature", &s, &t, false)
        }
        6 => {
            let w = g::flag_word(c);
            c.note(|| format!("flags {w:08x} and their like"));
            differ("flags", &Flags(w), &Flags(near::number(c, w.into(), 32) as u32), false)
        }
        7 => {
            let a = mk::neg(c);
            let mut x = cv::negotiate(&a);
            if a.version.is_some() {
                x.version = Some(version(c));
            }
            let mut y = x.clone();
            c.note(|| format!("{} and its like", mk::short(&a)));
            match c.below(4) {
                0 => y.negotiate_flags.0 = near::number(c, x.negotiate_flags.0.into(), 32) as u32,
                1 => drop(y.set_domain_name(near::opt_text(c, &a.domain))),
                2 => drop(y.set_workstation(near::opt_text(c, &a.workstation))),
                _ => y.version = x.version.as_ref().map_or_else(|| Some(Default::default()), |v| Some(near_version(c, v))),
            }
            differ("NEGOTIATE", &x, &y, false)
        }
        8 => {
            let a = mk::chal(c);
            let Ok(mut x) = cv::challenge(&a) else {
                c.nontrivial = false;
                return Ok(());
            };
            if a.version.is_some() {
                x.version = Some(version(c));
            }
            let mut y = x.clone();
            c.note(|| format!("{} and its like", mk::short(&a)));
            match c.below(4) {
                0 => y.negotiate_flags.0 = near::number(c, x.negotiate_flags.0.into(), 32) as u32,
                1 => drop(y.set_target_name(near::opt_text(c, &a.target))),
                2 => near::byte(c, &mut y.server_challenge),
                _ => y.version = x.version.as_ref().map_or_else(|| Some(Default::default()), |v| Some(near_version(c, v))),
            }
            differ("CHALLENGE", &x, &y, false)
        }
        _ => {
            let mut a = mk::auth(c);
            if c.chance(1, 3) {
                // to start from present parts more often
                a.lm.get_or_insert(Lm::V1([7; 24]));
                a.key.get_or_insert([7; 16]);
            }
            let mut x = cv::authenticate(&a);
            x.exported_session_key = c.flip().then(|| g::array::<16>(c).into());
            if a.version.is_some() {
                x.version = Some(version(c));
            }
            let mut y = x.clone();
            c.note(|| format!("{} and its like", mk::short(&a)));
            let text = |c: &mut Case, t: &Option<String>| near::opt_text(c, t).map(Into::into);
            match c.below(10) {
                0 => y.negotiate_flags.0 = near::number(c, x.negotiate_flags.0.into(), 32) as u32,
                1 => y.lm_challenge_response = a.lm.as_ref().map_or_else(|| Some(Default::default()), |l| Some(cv::lm(&near::lm(c, l)))),
                2 => y.nt_challenge_response = a.nt.as_ref().map_or_else(|| Some(Default::default()), |n| Some(cv::nt(&near::nt(c, n)))),
                3 => y.domain = text(c, &a.domain),
                4 => y.user = text(c, &a.user),
                5 => y.workstation = text(c, &a.workstation),
                6 => {
                    let mut k = a.key.unwrap_or([0; 16]);
                    if a.key.is_some() {
                        near::byte(c, &mut k);
                    }
                    y.set_encrypted_random_session_key(Some(k.into()));
                }
                7 => y.version = x.version.as_ref().map_or_else(|| Some(Default::default()), |v| Some(near_version(c, v))),
                8 => near::byte(c, &mut y.mic),
                _ => match &mut y.exported_session_key {
                    Some(k) => near::byte(c, k),
                    none => *none = Some(Default::default()),
                },
            }
            differ("AUTHENTICATE", &x, &y, false)
        }
    }
}

fn c28(c: &mut Case) -> Outcome {
    c.nontrivial = true;
    if c.chance(1, 3) {
        c.label("differing in one part");
        return twins(c);
    }
    match c.weighted(&[5, 3, 3, 3, 4, 4]) {
        0 => {
            c.label("byte value");
            match c.below(11) {
                0 => buffer::<st::ServerChallenge, 8>(c, "ServerChallenge"),
                1 => buffer::<st::ClientChallenge, 8>(c, "ClientChallenge"),
                2 => buffer::<st::SessionBaseKey, 16>(c, "SessionBaseKey"),
                3 => buffer::<st::KeyExchangeKey, 16>(c, "KeyExchangeKey"),
                4 => buffer::<st::ExportedSessionKey, 16>(c, "ExportedSessionKey"),
                5 => buffer::<st::EncryptedRandomSessionKey, 16>(c, "EncryptedRandomSessionKey"),
                6 => buffer::<st::NtProofStr, 16>(c, "NtProofStr"),
                7 => buffer::<st::Response16, 16>(c, "Response16"),
                8 => buffer::<st::Response24, 24>(c, "Response24"),
                9 => buffer::<st::Mic, 16>(c, "Mic"),
                _ => buffer::<st::RandomPad, 4>(c, "RandomPad"),
            }
        }
        1 => {
            c.label("text value");
            if c.flip() {
                string::<UnicodeString>(c, "UnicodeString")
            } else {
                string::<OEMString>(c, "OEMString")
            }
        }
        2 => {
            c.label("NEGOTIATE");
            let a = mk::neg(c);
            let mut b = a.clone();
            match c.below(5) {
                0 => b.flags = another(c, &b.flags, g::flag_word),
                1 => b.domain = another(c, &b.domain, |c| g::opt_text(c, 20)),
                2 => b.workstation = another(c, &b.workstation, |c| g::opt_text(c, 20)),
                3 => b.version = another(c, &b.version, mk::opt_ver),
                _ => {}
            }
            c.note(|| format!("{} and {}", mk::short(&a), mk::short(&b)));
            differ("NEGOTIATE", &cv::negotiate(&a), &cv::negotiate(&b), a == b)
        }
        3 => {
            c.label("CHALLENGE");
            let a = mk::chal(c);
            let mut b = a.clone();
            match c.below(6) {
                0 => b.flags = another(c, &b.flags, g::flag_word),
                1 => b.target = another(c, &b.target, |c| g::opt_text(c, 20)),
                2 => b.sc = another(c, &b.sc, g::array),
                3 => b.version = another(c, &b.version, mk::opt_ver),
                4 => b.av = another(c, &b.av, |c| mk::av_list(c, 2000)),
                _ => {}
            }
            let (Ok(x), Ok(y)) = (cv::challenge(&a), cv::challenge(&b)) else {
                c.nontrivial = false;
                return Ok(());
            };
            c.note(|| format!("{} and {}", mk::short(&a), mk::short(&b)));
            let same = cv::chal_of(&x)? == cv::chal_of(&y)?;
            differ("CHALLENGE", &x, &y, same)
        }
        4 => {
            c.label("AUTHENTICATE");
            let a = mk::auth(c);
            let mut b = a.clone();
            let (mut ka, mut kb): (Option<[u8; 16]>, Option<[u8; 16]>) = (None, None);
            if c.chance(1, 3) {
                ka = Some(g::array(c));
                kb = ka;
            }
            match c.below(11) {
                0 => b.flags = another(c, &b.flags, g::flag_word),
                1 => b.lm = another(c, &b.lm, |c| {
                    let v1 = c.flip();
                    c.flip().then(|| mk::lm_kind(c, v1))
                }),
                2 => b.nt = another(c, &b.nt, |c| c.flip().then(|| mk::nt(c))),
                3 => b.domain = another(c, &b.domain, |c| g::opt_text(c, 20)),
                4 => b.user = another(c, &b.user, |c| g::opt_text(c, 20)),
                5 => b.workstation = another(c, &b.workstation, |c| g::opt_text(c, 20)),
                6 => b.key = another(c, &b.key, |c| c.flip().then(|| g::array(c))),
                7 => b.version = another(c, &b.version, mk::opt_ver),
                8 => b.mic = another(c, &b.mic, g::array),
                9 => kb = another(c, &kb, |c| c.flip().then(|| g::array(c))),
                _ => {}
            }
            c.note(|| format!("{} and {}", mk::short(&a), mk::short(&b)));
            let (mut x, mut y) = (cv::authenticate(&a), cv::authenticate(&b));
            x.exported_session_key = ka.map(Into::into);
            y.exported_session_key = kb.map(Into::into);
            differ("AUTHENTICATE", &x, &y, a == b && ka == kb)
        }
        _ => {
            c.label("structures");
            let (p, q) = (mk::av_pair(c, 20), mk::av_pair(c, 20));
            c.note(|| format!("{} and {}", mk::short(&p), mk::short(&q)));
            let (x, y) = (cv::av(&p), cv::av(&q));
            differ("AV pair", &x, &y, p == q)?;
            let id = catch(|| x.get_id() as u16)?;
            ensure!(id == p.id(), "AV pair {p:?} has kind {id} instead of {}", p.id());
            ensure!((x.get_id() == y.get_id()) == (p.id() == q.id()), "kinds of {p:?} and {q:?} compare wrongly");
            let (a, b) = (g::filetime(c), g::filetime(c));
            let (x, y) = (cv::filetime(a), cv::filetime(b));
            differ("FILETIME", &x, &y, a == b)?;
            ensure!(x.as_u64() == a, "FILETIME of {a} counts {}", x.as_u64());
            let (a, b) = (mk::ver(c), mk::ver(c));
            differ("version", &cv::version(a), &cv::version(b), a == b)?;
            let (a, b) = (c.draw(7) as u32, c.draw(7) as u32);
            differ("AV flags", &cv::msv_flags(a), &cv::msv_flags(b), a == b)?;
            let (a, b) = (mk::nt(c), mk::nt(c));
            differ("NT response", &cv::nt(&a), &cv::nt(&b), a == b)?;
            let v1 = c.flip();
            let (a, b) = (mk::lm_kind(c, v1), mk::lm_kind(c, !v1));
            differ("LM response", &cv::lm(&a), &cv::lm(&b), a == b)
        }
    }
}

// ---------- C29 ----------

/// One new value of kind `k`, as bytes
fn random_value(k: usize) -> Vec<u8> {
    match k {
        0 => st::ServerChallenge::random().to_vec(),
        1 => st::ClientChallenge::random().to_vec(),
        2 => st::SessionBaseKey::random().to_vec(),
        3 => st::KeyExchangeKey::random().to_vec(),
        4 => st::ExportedSessionKey::random().to_vec(),
        5 => st::EncryptedRandomSessionKey::random().to_vec(),
        6 => st::NtProofStr::random().to_vec(),
        7 => st::Response16::random().to_vec(),
        8 => st::Response24::random().to_vec(),
        9 => st::Mic::random().to_vec(),
        _ => st::RandomPad::random().to_vec(),
    }
}
const KINDS: [(&str, usize); 11] = [
    ("ServerChallenge", 8),
    ("ClientChallenge", 8),
    ("SessionBaseKey", 16),
    ("KeyExchangeKey", 16),
    ("ExportedSessionKey", 16),
    ("EncryptedRandomSessionKey", 16),
    ("NtProofStr", 16),
    ("Response16", 16),
    ("Response24", 24),
    ("Mic", 16),
    ("RandomPad", 4),
];
const C29_VALUES: usize = 64;

#[derive(Default)]
struct Drawn {
    seen: HashMap<u64, ()>,
    ones: Vec<Vec<u64>>,
    n: Vec<u64>,
    bytes: Vec<u64>,
    repeat: Option<String>,
}
static DRAWN: Mutex<Option<Drawn>> = Mutex::new(None);

fn c29(c: &mut Case) -> Outcome {
    c.nontrivial = true;
    c.evals = C29_VALUES as u64;
    let _clock = c.flip().then(Clock::stop);
    c.label_if(_clock.is_some(), "clock stopped");
    // one kind again and again, or a changing order of kinds
    let mixed = c.flip();
    let first = c.below(11);
    c.label(if mixed { "kinds mixed" } else { "one kind" });
    c.note(|| format!("{} mixed {mixed}", KINDS[first].0));
    let mut vals: Vec<(usize, Vec<u8>)> = Vec::new();
    for _ in 0..C29_VALUES {
        let k = if mixed { c.below(11) } else { first };
        let v = catch(|| random_value(k))?;
        ensure!(v.len() == KINDS[k].1, "{} of {} bytes", KINDS[k].0, v.len());
        vals.push((k, v));
    }
    let mut local: HashMap<u64, usize> = HashMap::new();
    for (i, (k, v)) in vals.iter().enumerate() {
        for w in v.chunks_exact(8) {
            let x = u64::from_le_bytes(w.try_into().unwrap());
            if let Some(j) = local.insert(x, i) {
                return Err(format!("{} number {i} repeats bytes {} of number {j}", KINDS[*k].0, plain_hex(w)));
            }
        }
    }
    if !mixed {
        let (name, size) = KINDS[first];
        for i in 0..size {
            let (mut or, mut and) = (0u8, 0xffu8);
            for (_, v) in &vals {
                or |= v[i];
                and &= v[i];
            }
            ensure!(or == 0xff && and == 0, "byte {i} of {C29_VALUES} new {name}: bits {:02x} never change", !or | and);
        }
        for a in 0..size {
            for b in 0..a {
                let d = vals[0].1[a] ^ vals[0].1[b];
                ensure!(vals.iter().any(|(_, v)| v[a] ^ v[b] != d), "bytes {b} and {a} of every new {name} are related");
            }
        }
    }
    let all: Vec<&[u8]> = vals.iter().map(|(_, v)| &v[..]).collect();
    not_predictable(&all)?;
    for k in 0..if mixed { 11 } else { 0 } {
        let some: Vec<&[u8]> = vals.iter().filter(|(x, _)| *x == k).map(|(_, v)| &v[..]).collect();
        not_predictable(&some)?;
    }
    let mut lock = DRAWN.lock().unwrap_or_else(|e| e.into_inner());
    let d = lock.get_or_insert_with(|| Drawn {
        ones: KINDS.iter().map(|k| vec![0; k.1 * 8]).collect(),
        n: vec![0; 11],
        bytes: vec![0; 256],
        ..Default::default()
    });
    for (k, v) in &vals {
        d.n[*k] += 1;
        for (i, o) in d.ones[*k].iter_mut().enumerate() {
            *o += u64::from(v[i / 8] >> (i % 8) & 1);
        }
        for b in v {
            d.bytes[*b as usize] += 1;
        }
        for w in v.chunks_exact(8) {
            let x = u64::from_le_bytes(w.try_into().unwrap());
            if d.seen.insert(x, ()).is_some() && d.repeat.is_none() {
                d.repeat = Some(format!("8 bytes {} of a new {} occurred before", plain_hex(w), KINDS[*k].0));
            }
        }
    }
    Ok(())
}

/// Successive values differ by nothing that shows up again and again: no counter, no linear sequence
pub fn not_predictable(vals: &[&[u8]]) -> Outcome {
    let words = vals.iter().map(|v| v.len() / 4).min().unwrap_or(0);
    for k in 0..words {
        let mut known: HashMap<(u8, u64), usize> = HashMap::new();
        let mut count = |what: u8, x: u64| -> Outcome {
            let n = known.entry((what, x)).or_insert(0);
            *n += 1;
            ensure!(
                *n < 4,
                "successive random values follow a rule: {} {x:x} between 4-byte words {k} occurs again and again",
                ["difference", "difference (big-endian)", "exclusive or", "factor"][usize::from(what)]
            );
            Ok(())
        };
        let le = |v: &[u8]| u32::from_le_bytes(v[4 * k..4 * k + 4].try_into().unwrap());
        for w in vals.windows(2) {
            let (a, b) = (le(w[0]), le(w[1]));
            count(0, b.wrapping_sub(a).into())?;
            count(1, b.swap_bytes().wrapping_sub(a.swap_bytes()).into())?;
            count(2, (a ^ b).into())?;
        }
        for w in vals.windows(3) {
            let d = le(w[1]).wrapping_sub(le(w[0]));
            if d % 2 == 1 {
                // the inverse modulo 2^32
                let mut i = d;
                for _ in 0..5 {
                    i = i.wrapping_mul(2u32.wrapping_sub(d.wrapping_mul(i)));
                }
                count(3, le(w[2]).wrapping_sub(le(w[1])).wrapping_mul(i).into())?;
            }
        }
    }
    Ok(())
}

fn c29_finish() -> Outcome {
    let lock = DRAWN.lock().unwrap_or_else(|e| e.into_inner());
    let Some(d) = lock.as_ref() else { return Ok(()) };
    if let Some(r) = &d.repeat {
        return Err(r.clone());
    }
    for k in 0..11 {
        let n = d.n[k] as f64;
        if n < 2000.0 {
            continue;
        }
        for (i, o) in d.ones[k].iter().enumerate() {
            let z = (*o as f64 - n / 2.0).abs() / (n.sqrt() / 2.0);
            ensure!(z < 9.0, "bit {i} of new {} is set in {o} of {n}", KINDS[k].0);
        }
    }
    let total: u64 = d.bytes.iter().sum();
    if total > 100_000 {
        let (m, sd) = (total as f64 / 256.0, (total as f64 / 256.0 * 255.0 / 256.0).sqrt());
        for (v, k) in d.bytes.iter().enumerate() {
            let z = (*k as f64 - m).abs() / sd;
            ensure!(z < 9.0, "byte value {v:02x} occurs {k} times in {total} random bytes");
        }
    }
    unlike_other_processes("values", |w| d.seen.contains_key(&w))
}

/// Eight other processes draw values unlike this process's and each other's
pub fn unlike_other_processes(what: &str, seen: impl Fn(u64) -> bool) -> Outcome {
    let mut old: HashMap<u64, String> = HashMap::new();
    for (who, line) in other_processes(what)? {
        for w in unhex(&line).chunks_exact(8) {
            let x = u64::from_le_bytes(w.try_into().unwrap());
            ensure!(!seen(x), "{who} draws bytes {} that this process drew too", plain_hex(w));
            if let Some(o) = old.insert(x, who.clone()) {
                return Err(format!("{who} and {o} draw the same bytes {}", plain_hex(w)));
            }
        }
    }
    ensure!(old.len() >= 8 * 3 * 12, "harness: only {} values from other processes", old.len());
    Ok(())
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

/// What `vp fresh WHAT` prints in eight processes started together: (process, line)
pub fn other_processes(what: &str) -> Result<Vec<(String, String)>, String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {e}"))?;
    let kids: Vec<_> = (0..8)
        .map(|i| {
            let mut k = std::process::Command::new(&exe);
            k.args(["fresh", what])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null());
            if i < 4 {
                // same clock, process number and addresses
                k.env("VP_FROZEN", "1");
                unsafe {
                    k.pre_exec(|| {
                        libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
                        Ok(())
                    })
                };
            }
            k.spawn()
        })
        .collect();
    let mut out = Vec::new();
    for (i, k) in kids.into_iter().enumerate() {
        let o = k.and_then(|k| k.wait_with_output()).map_err(|e| panic!("vp_harness: {e}")).unwrap();
        if !o.status.success() {
            return Err(format!("process {i} failed to draw: {}", String::from_utf8_lossy(&o.stdout)));
        }
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let (branch, hex) = l.rsplit_once(' ').unwrap_or(("?", l));
            if hex.len() % 2 != 0 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
                panic!("vp_harness: process {i} printed {l:?}");
            }
            out.push((format!("process {i} {branch}"), hex.to_string()));
        }
    }
    Ok(out)
}

/// The part of `other_processes` that runs in the new process: before a fork and on both sides of it
pub fn fresh(what: &str) -> i32 {
    if std::env::var_os("VP_FROZEN").is_some() {
        crate::vp_env::freeze();
    }
    let draw = |branch: &str| -> Outcome {
        match what {
            "values" => {
                for k in 0..11 {
                    for _ in 0..2 {
                        let mut v = catch(|| random_value(k))?;
                        if v.len() < 8 {
                            v.extend(catch(|| random_value(k))?);
                        }
                        crate::say!("{branch} {}", plain_hex(&v));
                    }
                }
            }
            _ => {
                for level in 0..6u32 {
                    let s = vc::Spelling::Split { user: "User".into(), domain: "Domain".into() };
                    let mut cl = catch(|| vc::client(level, &s, "Password", ""))?;
                    let flags = 0xe28a_8235 & !fl::VERSION | if level <= 2 { fl::ESS } else { 0 };
                    let ch = Chal { flags, target: None, sc: [level as u8; 8], av: vec![Av::Time(0), Av::Eol], version: None };
                    let acc = sp::Account { user: "User".into(), domain: "Domain".into(), password: "Password".into() };
                    let mut x = vc::exchange(&mut *cl, &ch.bytes())?;
                    for again in 0..2 {
                        if again > 0 {
                            x = vc::answer(&mut *cl, &x.neg.clone(), &ch.bytes())?;
                        }
                        let a = acc.accept(level, ch.flags, &ch.sc, &sp::av_bytes(&ch.av), &x.raw)?;
                        let mut b = a.client_challenge.ok_or("no client challenge")?.to_vec();
                        if a.key_sent.is_some() {
                            b.extend_from_slice(&a.session_key.ok_or("no session key")?);
                        }
                        crate::say!("{branch} {}", plain_hex(&b));
                    }
                }
            }
        }
        Ok(())
    };
    if let Err(m) = draw("before a fork") {
        crate::say!("{m}");
        return 1;
    }
    let pid = unsafe { libc::fork() };
    let r = draw(if pid == 0 { "the child" } else { "the parent" });
    let code = i32::from(r.is_err());
    if pid == 0 {
        unsafe { libc::_exit(code) };
    }
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    i32::from(code != 0 || status != 0)
}

// ---------- C30 ----------

/// Long inputs in which little text stands for much work
pub fn bulky(c: &mut Case) -> Vec<u8> {
    let n = match c.below(3) {
        0 => c.below(2000),
        1 => c.below(20000),
        _ => 65535 - c.below(64),
    };
    let rep = |pat: &[u8]| -> Vec<u8> { pat.iter().cycle().take(n).copied().collect() };
    let list = match c.below(8) {
        0 => rep(&[0, 0, 0, 0]),
        1 => rep(&[1, 0, 0, 0]),
        2 => rep(&[1, 0, 2, 0, 0x41, 0]),
        3 => rep(&[2, 0, 4, 0, 0x3d, 0xd8, 0x00, 0xde]),
        4 => rep(&[0x3d, 0xd8, 0x00, 0xde]),
        5 => rep(&[0x41, 0]),
        6 => {
            let mut b = vec![1, 0];
            b.extend_from_slice(&((n as u16 & !1).saturating_sub(8)).to_le_bytes());
            b.extend(rep(&[0x3d, 0xd8, 0x00, 0xde]));
            b.truncate(n.max(4));
            b
        }
        _ => rep(&[6, 0, 4, 0, 0, 0, 0, 0]),
    };
    let mut list = list;
    let k = list.len();
    if k >= 4 && c.flip() {
        list[k - 4..].copy_from_slice(&[0; 4]);
    }
    let place = |start: usize| sp::Place { len: list.len().min(65535) as u16, max: list.len().min(65535) as u16, offset: start as u32 };
    let mut out = match c.below(4) {
        0 => return list,
        1 => Neg { flags: 0x3001, domain: None, workstation: None, version: None }.header(&[place(40), place(40)]),
        2 => {
            let ch = Chal { flags: 0xe28a_8235 & !fl::VERSION, target: None, sc: [1; 8], av: vec![], version: None };
            // both fields may designate the same bytes
            let t = if c.flip() { place(56) } else { sp::Place::default() };
            ch.header(&[t, place(56)], 0)
        }
        _ => {
            let a = Auth {
                flags: 0xe28a_8235 & !fl::VERSION,
                lm: None,
                nt: None,
                domain: None,
                user: None,
                workstation: None,
                key: None,
                version: None,
                mic: [0; 16],
            };
            if c.flip() {
                let mut b = vec![1, 1, 0, 0, 0, 0, 0, 0];
                b.extend_from_slice(&[0; 20]);
                b.extend_from_slice(&list);
                b.truncate(65535);
                list = b;
            }
            let p = sp::Place { len: list.len() as u16, max: list.len() as u16, offset: 88 };
            a.header(&[p; 6])
        }
    };
    out.extend_from_slice(&list);
    out
}

// What ordinary code needs is a small fraction of these (see DESIGN.md)
const DECODE_PER_BYTE: u64 = 600;
const DECODE_PEAK_PER_BYTE: u64 = 250;
const ENCODE_PER_BYTE: u64 = 40;
const FLOOR: u64 = 16384;
const SLOW_MS: f64 = 4000.0;

/// Runs `f`; its processor time is judged by the fastest of three runs
fn prompt<T>(mut f: impl FnMut() -> T) -> (T, f64) {
    let mut best = f64::MAX;
    for _ in 0..3 {
        let t = vp_alloc::cpu_ms();
        let v = f();
        best = best.min(vp_alloc::cpu_ms() - t);
        if best < SLOW_MS {
            return (v, best);
        }
    }
    (f(), best)
}

fn c30_decode(c: &mut Case, b: &[u8]) -> Outcome {
    let n = b.len() as u64;
    let mut worst = 0;
    macro_rules! go {
        ($t:ty) => {{
            let ((r, u), ms) = prompt(|| vp_alloc::measure(|| catch(|| <$t>::vp_decode(b).map(drop))));
            r?.unwrap_or(());
            ensure!(
                u.total <= DECODE_PER_BYTE * n + FLOOR,
                "decoding {} bytes as {} allocates {} bytes",
                n,
                stringify!($t),
                u.total
            );
            ensure!(
                u.peak <= DECODE_PEAK_PER_BYTE * n + FLOOR,
                "decoding {} bytes as {} needs {} bytes of memory at once",
                n,
                stringify!($t),
                u.peak
            );
            ensure!(ms < SLOW_MS, "decoding {} bytes as {} takes {ms:.0} ms of processor time", n, stringify!($t));
            worst = worst.max(if n > 64 { u.total / n } else { 0 });
            CALIBRATE.lock().unwrap().note(stringify!($t), u, n, ms);
        }};
    }
    go!(Negotiate);
    go!(Challenge);
    go!(Authenticate);
    go!(Vec<st::AvPair>);
    go!(st::AvPair);
    go!(st::NtChallenge);
    go!(UnicodeString);
    go!(OEMString);
    c.label(match worst {
        0..=10 => "up to 10 bytes per byte",
        11..=100 => "up to 100 bytes per byte",
        _ => "more than 100 bytes per byte",
    });
    Ok(())
}

struct Calibration(std::collections::BTreeMap<&'static str, (f64, f64, u64, f64)>);
impl Calibration {
    fn note(&mut self, k: &'static str, u: vp_alloc::Use, n: u64, ms: f64) {
        let e = self.0.entry(k).or_insert((0.0, 0.0, 0, 0.0));
        let over = |x: u64| x.saturating_sub(FLOOR / 4) as f64 / n.max(1) as f64;
        e.0 = e.0.max(over(u.total));
        e.1 = e.1.max(over(u.peak));
        if n < 64 {
            e.2 = e.2.max(u.total);
        }
        e.3 = e.3.max(ms);
    }
}
static CALIBRATE: Mutex<Calibration> = Mutex::new(Calibration(std::collections::BTreeMap::new()));

fn c30_encode(what: &'static str, f: &dyn Fn() -> Vec<u8>) -> Outcome {
    let ((r, u), ms) = prompt(|| vp_alloc::measure(|| catch(f)));
    let n = r?.len() as u64;
    ensure!(u.total <= ENCODE_PER_BYTE * n + FLOOR, "encoding a {what} of {n} bytes allocates {} bytes", u.total);
    ensure!(ms < SLOW_MS, "encoding a {what} of {n} bytes takes {ms:.0} ms of processor time");
    CALIBRATE.lock().unwrap().note(what, u, n, ms);
    Ok(())
}

fn c30(c: &mut Case) -> Outcome {
    log::set_max_level(log::LevelFilter::Off);
    match c.weighted(&[10, 6, 5, 3]) {
        0 => {
            let b = super::codec::hostile(c);
            c.label("hostile bytes");
            c.nontrivial = b.len() >= 4;
            c.note(|| format!("bytes {}", mk::hex(&b)));
            c30_decode(c, &b)
        }
        1 => {
            let b = bulky(c);
            c.label("bulky bytes");
            c.nontrivial = b.len() >= 64;
            c.note(|| format!("bytes {}", mk::hex(&b)));
            c30_decode(c, &b)
        }
        2 => {
            c.label("encoding");
            c.nontrivial = true;
            let v = cv::authenticate(&mk::auth(c));
            c30_encode("AUTHENTICATE", &|| v.vp_encode())?;
            let v = cv::negotiate(&mk::neg(c));
            c30_encode("NEGOTIATE", &|| v.vp_encode())?;
            if let Ok(v) = cv::challenge(&mk::chal(c)) {
                c30_encode("CHALLENGE", &|| v.vp_encode())?;
            }
            Ok(())
        }
        _ => c30_client(c),
    }
}

/// A client that goes through the same calls again and again keeps its size
fn c30_client(c: &mut Case) -> Outcome {
    c.label("long-lived client");
    c.nontrivial = true;
    let level = mk::level(c);
    let creds = mk::creds(c);
    let ch = mk::server_challenge(c);
    let ops: Vec<u8> = (0..1 + c.below(6)).map(|_| *c.pick(&[0u8, 1, 2, 0, 1])).collect();
    let whole = c.flip();
    c.note(|| format!("level {level} {creds:?} calls {ops:?} whole {whole} flags {:08x}", ch.flags));
    let s = vc::Spelling::Split { user: creds.user.clone(), domain: creds.domain.clone() };
    let mut cl = catch(|| vc::client(level, &s, &creds.password, "")).map_err(|m| format!("creating the client: {m}"))?;
    cl.set_version(mk::opt_ver(c));
    let m = vc::decode_challenge(&ch.bytes())?;
    let base = vp_alloc::live();
    let mut held = Vec::with_capacity(ROUNDS);
    let mut cost = Vec::with_capacity(ROUNDS);
    for _ in 0..ROUNDS {
        let (r, u) = vp_alloc::measure(|| -> Outcome {
            let mut challenged = false;
            for o in &ops {
                match o {
                    0 => {
                        catch(|| drop(cl.negotiate())).map_err(|m| format!("NEGOTIATE: {m}"))?;
                        challenged = false;
                    }
                    1 => {
                        let m = m.clone();
                        catch(|| cl.challenge(m))?;
                    }
                    _ if challenged => catch(|| drop(cl.authenticate())).map_err(|m| format!("AUTHENTICATE: {m}"))?,
                    _ => {}
                }
            }
            if whole {
                catch(|| drop(cl.negotiate())).map_err(|m| format!("NEGOTIATE: {m}"))?;
                let m = m.clone();
                catch(|| cl.challenge(m))?;
                challenged = true;
                catch(|| drop(cl.authenticate())).map_err(|m| format!("AUTHENTICATE: {m}"))?;
            }
            let _ = challenged;
            Ok(())
        });
        r?;
        held.push(vp_alloc::live() - base);
        cost.push(u.total);
    }
    let grown = held[ROUNDS - 1] - held[WARM];
    ensure!(
        grown <= 600,
        "level {level}: the client holds {} bytes after {WARM} rounds of the same calls and {} after {ROUNDS}",
        held[WARM],
        held[ROUNDS - 1]
    );
    ensure!(
        cost[ROUNDS - 1] <= cost[WARM] + cost[WARM] / 2 + 2048,
        "level {level}: round {WARM} allocates {} bytes, round {ROUNDS} of the same calls {}",
        cost[WARM],
        cost[ROUNDS - 1]
    );
    c.evals = ROUNDS as u64;
    Ok(())
}
const ROUNDS: usize = 140;
const WARM: usize = 12;

fn c30_finish() -> Outcome {
    if std::env::var("VP_CALIBRATE").is_ok() {
        for (k, v) in &CALIBRATE.lock().unwrap().0 {
            crate::say!("{k}: total/byte {:.1} peak/byte {:.1} small {} ms {:.1}", v.0, v.1, v.2, v.3);
        }
    }
    Ok(())
}

// ---------- C31 ----------

/// A conforming client of any make answers a server built on this crate's types
fn c31(c: &mut Case) -> Outcome {
    c.nontrivial = true;
    let creds = mk::creds(c);
    let mut neg = mk::neg(c);
    let mut ch = mk::server_challenge(c);
    ch.av.retain(|a| !matches!(a, Av::Eol));
    if !ch.av.is_empty() {
        ch.av.push(Av::Eol);
    }
    neg.flags |= fl::UNICODE;
    if cfg!(feature = "strict") {
        neg.flags &= !(fl::RESERVED | fl::LM_KEY | fl::TYPE_DOMAIN);
    }
    let canonical = c.flip();
    // the server decodes a NEGOTIATE and builds its CHALLENGE with the setters
    let neg_raw = if canonical { neg.bytes() } else { mk::arrange_neg(c, &neg) };
    let neg_seen = catch(|| Negotiate::vp_decode(&neg_raw))?.map_err(|_| "NEGOTIATE does not decode")?.0;
    let Ok(server) = catch(|| cv::challenge(&ch))? else { return Err("harness: inner end marker".into()) };
    let chal_raw = catch(|| server.vp_encode())?;
    let r = sp::parse(&chal_raw)?;
    ensure!(r.kind == 2 && r.sc == ch.sc && r.flags == ch.flags, "CHALLENGE {} is not what was built", mk::hex(&chal_raw));
    let server_av = r.fields[1].clone();
    ensure!(server_av == sp::av_bytes(&ch.av), "target information {} is not what was built", mk::hex(&server_av));

    // the client's side
    let nth = sp::nt_hash(&creds.password);
    let v2_key = sp::ntlmv2_hash(&creds.user, &creds.domain, &creds.password);
    let cc: [u8; 8] = g::array(c);
    let v2 = c.chance(2, 3);
    let ess = c.flip();
    let (lm, nt, sbk, bytes) = if v2 {
        c.label("NTLMv2 client");
        let mut av: Vec<Av> = ch.av.iter().filter(|a| !matches!(a, Av::Eol)).cloned().collect();
        let room = 64000usize.saturating_sub(server_av.len());
        for a in [Av::Flags(2), Av::Bindings(g::array(c)), Av::Text(9, g::text(c, 30)), Av::Single { size: 48, custom: g::array(c), machine: g::array(c) }] {
            if c.flip() && room > 1000 {
                c.label("client adds AV pairs");
                let i = c.below(av.len() + 1);
                av.insert(i, a);
            }
        }
        av.push(Av::Eol);
        if c.flip() {
            av.push(Av::Eol);
        }
        let blob = Blob { time: g::filetime(c), cc, av };
        let b = blob.bytes();
        let mut proof = sp::hmac(&v2_key, &[&ch.sc, &b]);
        if proof[..8] == [1, 1, 0, 0, 0, 0, 0, 0] {
            proof = [0; 16];
        }
        // with a time stamp from the server, a client sends 24 zero bytes
        let lm = if c.chance(1, 4) {
            c.label("all-zero LM response");
            Lm::V2([0; 16], [0; 8])
        } else {
            Lm::V2(sp::hmac(&v2_key, &[&ch.sc, &cc]), cc)
        };
        (lm, Nt::Resp(proof, blob), sp::hmac(&v2_key, &[&proof]), b)
    } else if ess {
        c.label("NTLM client with extended session security");
        let mut x = ch.sc.to_vec();
        x.extend_from_slice(&cc);
        let h: [u8; 8] = sp::md5(&x)[..8].try_into().unwrap();
        let mut l = [0; 24];
        l[..8].copy_from_slice(&cc);
        let nt = sp::desl(&nth, &h);
        if nt[..8] == [1, 1, 0, 0, 0, 0, 0, 0] {
            return Ok(());
        }
        (Lm::V1(l), Nt::V1(nt), sp::hmac(&sp::md4(&nth), &[&ch.sc, &cc]), vec![])
    } else {
        c.label("NTLM client");
        let nt = sp::desl(&nth, &ch.sc);
        let l = sp::lm_hash(&creds.password).map(|h| sp::desl(&h, &ch.sc)).unwrap_or(nt);
        (Lm::V1(l), Nt::V1(nt), sp::md4(&nth), vec![])
    };
    let key: [u8; 16] = g::array(c);
    let exch = c.flip();
    let version = mk::opt_ver(c);
    let mut flags = ch.flags | fl::UNICODE;
    flags = mk::agree(flags, fl::VERSION, version.is_some());
    flags = mk::agree(flags, fl::KEY_EXCH, exch);
    let mut auth = Auth {
        flags,
        lm: Some(lm.clone()),
        nt: Some(nt.clone()),
        domain: Some(creds.domain.clone()).filter(|s| !s.is_empty()),
        user: Some(creds.user.clone()).filter(|s| !s.is_empty()),
        workstation: g::opt_text(c, 20).filter(|s| !s.is_empty()),
        key: exch.then(|| sp::rc4(&sbk, &key)[..].try_into().unwrap()),
        version,
        mic: [0; 16],
    };
    let exported = if exch { key } else { sbk };
    if cfg!(feature = "strict") && fl::forbidden(auth.flags) {
        return Ok(());
    }
    if auth.parts().iter().flatten().any(|p| p.len() > 65535) {
        return Ok(());
    }
    c.note(|| format!("{creds:?} canonical {canonical} v2 {v2} exchange {exch} {}", mk::short(&auth)));
    auth.mic = sp::mic(&exported, &neg_raw, &chal_raw, &auth.bytes());
    let auth_raw = if canonical { auth.bytes() } else { mk::arrange_auth(c, &auth) };

    // the server verifies what it decoded
    let seen = catch(|| Authenticate::vp_decode(&auth_raw))?.map_err(|_| format!("AUTHENTICATE {} does not decode", mk::hex(&auth_raw)))?.0;
    let text = |s: &Option<UnicodeString>| s.as_ref().map(|s| s.to_string()).unwrap_or_default();
    ensure!(text(&seen.user) == creds.user && text(&seen.domain) == creds.domain, "identity {:?} {:?} instead of {creds:?}", seen.user, seen.domain);
    let key_of_seen = sp::ntlmv2_hash(&text(&seen.user), &text(&seen.domain), &creds.password);
    match (&seen.nt_challenge_response, v2) {
        (Some(st::NtChallenge::V2Response(p, b)), true) => {
            let again = catch(|| b.vp_encode())?;
            ensure!(
                p[..] == sp::hmac(&key_of_seen, &[&server.server_challenge, &again]),
                "the NTLMv2 response of a conforming client does not verify: its blob {} is read as {}",
                mk::hex(&bytes),
                mk::hex(&again)
            );
            let l = catch(|| st::Lmv2Challenge::from_server_challenge(&server.server_challenge, &key_of_seen, &b.challenge_from_client))?;
            ensure!(
                seen.lm_challenge_response.as_ref().map(cv::lm_of) == Some(lm.clone()) && (lm == Lm::V2([0; 16], [0; 8]) || seen.lm_challenge_response == Some(l.into())),
                "the LMv2 response of a conforming client does not verify: {:?}",
                seen.lm_challenge_response
            );
        }
        (Some(st::NtChallenge::V1(r)), false) => {
            let Nt::V1(want) = nt else { return Err("harness: response kind".into()) };
            ensure!(r.response[..] == want, "NT response is read as {:?}", r.response);
            ensure!(
                seen.lm_challenge_response.as_ref().map(cv::lm_of) == Some(lm.clone()),
                "LM response is read as {:?}",
                seen.lm_challenge_response
            );
            if ess {
                let l = catch(|| st::Lmv1Challenge::from_client_challenge(&cc.into()))?;
                ensure!(seen.lm_challenge_response == Some(l.into()), "LM response of a client challenge is read as {:?}", seen.lm_challenge_response);
            }
        }
        (other, _) => return Err(format!("the NT response is read as {}", mk::short(other))),
    }
    match (seen.get_encrypted_random_session_key(), exch) {
        (Some(k), true) => ensure!(sp::rc4(&sbk, k)[..] == exported, "session key {k:?} does not decrypt to the client's"),
        (None, false) => {}
        (k, _) => return Err(format!("encrypted session key is read as {k:?}")),
    }
    ensure!(seen.mic[..] == auth.mic, "MIC is read as {:?}", seen.mic);
    if canonical {
        c.label("MIC verified");
        let mut m = seen.clone();
        m.exported_session_key = Some(exported.into());
        catch(|| m.compute_mic(&neg_seen, &server))?;
        let again = catch(|| neg_seen.vp_encode())?;
        ensure!(again == neg_raw, "a NEGOTIATE {} is read as {}", mk::hex(&neg_raw), mk::hex(&again));
        let mut zero = seen.clone();
        zero.mic = Default::default();
        let (again, sent) = (catch(|| zero.vp_encode())?, Auth { mic: [0; 16], ..auth.clone() }.bytes());
        ensure!(again == sent, "an AUTHENTICATE {} is read as {}", mk::hex(&sent), mk::hex(&again));
        ensure!(
            m.mic == seen.mic,
            "the MIC {} of a conforming client does not verify: {:?} over what the server decoded",
            mk::hex(&auth.mic),
            m.mic
        );
        let mut wrong = exported;
        let i = c.below(16);
        wrong[i] ^= 1 << c.draw(7);
        m.exported_session_key = Some(wrong.into());
        catch(|| m.compute_mic(&neg_seen, &server))?;
        ensure!(m.mic != seen.mic, "the MIC verifies under another key");
        // a challenge other than the one sent
        let mut other = server.clone();
        let i = c.below(8);
        other.server_challenge[i] ^= 1 << c.draw(7);
        m.exported_session_key = Some(exported.into());
        catch(|| m.compute_mic(&neg_seen, &other))?;
        ensure!(m.mic != seen.mic, "the MIC verifies for another challenge");
    }
    let _: &Challenge = &server;
    Ok(())
}

pub fn all() -> Vec<Property> {
    let base = Property {
        id: "",
        rule: "",
        run: c28,
        cases: 0,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &[],
        exhaustive_note: "",
    };
    vec![
        Property {
            id: "C28",
            rule: "byte values of all eleven kinds, both text kinds, and pairs of messages and structures that differ in at most one part; every case is non-trivial except challenges the setters cannot express",
            run: c28,
            cases: 2_000_000,
            assumptions: &["flag words print as lists of names, one word per list"],
            ..base
        },
        Property {
            id: "C29",
            rule: "64 new random values of one kind or of mixed kinds per case; statistics over the run; eight processes, each before and on both sides of a fork; every case is non-trivial",
            run: c29,
            cases: 80_000,
            finish: c29_finish,
            assumptions: &["randomness is judged statistically, as for C14"],
            ..base
        },
        Property {
            id: "C30",
            rule: "hostile bytes as for C01, bulky inputs of up to 64 KiB with aliased fields, encodings, and clients driven through 140 rounds of the same calls; non-trivial: 4 bytes (64 for bulky inputs), every encoding and client",
            run: c30,
            cases: 100_000,
            finish: c30_finish,
            assumptions: &[
                "limits are several times what the code uses: 600 bytes requested and 250 held per input byte, 40 per output byte, 16 KiB besides, 4 s of processor time per call",
                "memory requested through the global allocator",
            ],
            ..base
        },
        Property {
            id: "C31",
            rule: "a reference client answers a challenge built with the crate's setters: NTLMv2 with added AV pairs, NTLM with and without extended session security, any layout; every case is non-trivial",
            run: c31,
            cases: 1_000_000,
            assumptions: &["a MIC is verified when the client lays messages out as this crate does (finding K2)", "texts without NUL"],
            ..base
        },
    ]
}
