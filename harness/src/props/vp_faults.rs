//! C36: an operating system that refuses, interrupts and delivers in pieces

use super::auth::{identity, setup, Setup};
use super::codec::hostile;
use super::clients::{expected_workstation, host_bytes, ERRNO};
use crate::vp_client as vc;
use crate::vp_conv::Codec;
use crate::vp_engine::{catch, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_env::{self, HostFile};
use crate::vp_gen as g;
use crate::vp_make as mk;
use crate::vp_spec as sp;
use crate::vp_watch::{Fault, Faults, Told, Watch, NO_FAULTS};
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{Authenticate, Challenge, Negotiate};

const REFUSALS: &[i32] = &[
    libc::EIO, libc::EPERM, libc::ENOSYS, libc::EAGAIN, libc::EFAULT, libc::EINVAL, libc::ENOMEM, libc::EBADF, libc::EPIPE,
    libc::ENOSPC, libc::EDQUOT, libc::ENXIO,
];

fn fault(c: &mut Case, calls: usize) -> Fault {
    match c.below(4) {
        0 => Fault::None,
        1 => Fault::Pieces(1 + c.below(7)),
        2 => Fault::Cut(c.below(calls + 3), 1 + c.below(8), *c.pick(REFUSALS)),
        _ => Fault::Fail(c.below(calls + 1), *c.pick(REFUSALS)),
    }
}

/// More zeros in a row than chance gives
fn unfilled(b: &[u8]) -> bool {
    b.windows(4).any(|w| w == [0; 4])
}

/// What a server that knows the account makes of an AUTHENTICATE
fn check(s: &mut Setup, x: &vc::Exchange, told: &Told) -> Outcome {
    let a = s.accept(x)?;
    s.workstation = Some(place(x));
    identity(s, x)?;
    if let (Some(k), Some(m)) = (a.session_key, x.key) {
        ensure!(k == m, "the server derives another session key");
    }
    let mut needed = 0;
    for v in [a.client_challenge.map(|v| v.to_vec()), a.key_sent.map(|v| v.to_vec())].into_iter().flatten() {
        ensure!(!unfilled(&v), "a random value is {}", mk::hex(&v));
        needed += v.len();
    }
    ensure!(
        told.refused == 0 || told.given >= needed,
        "random bytes were refused after {}, and yet {needed} were found somewhere",
        told.given
    );
    Ok(())
}

fn c36(c: &mut Case) -> Outcome {
    let mut s = setup(c, 0, 5, true);
    let var = match c.weighted(&[5, 1]) {
        0 => None,
        _ => Some(g::text(c, 16).into_bytes().into_iter().filter(|b| *b != 0).collect::<Vec<u8>>()),
    };
    let host = match c.weighted(&[8, 1, 1]) {
        // decoding takes terminators off
        0 => HostFile::Content(host_bytes(c).into_iter().filter(|b| *b != 0).collect()),
        1 => HostFile::OpenError(*c.pick(ERRNO)),
        _ => HostFile::Unreadable,
    };
    let at_birth = Faults { random: Fault::None, read: fault(c, 3), error: fault(c, 2) };
    let later = Faults { random: fault(c, 4), read: fault(c, 2), error: fault(c, 3) };
    let values = Faults { random: fault(c, 3), ..NO_FAULTS };
    c.note(|| format!("COMPUTERNAME {var:?} host name file {host:?}"));
    c.note(|| format!("creating: {at_birth:?}; exchange: {later:?}; random values: {values:?}"));
    for (f, refused, pieces) in [
        (at_birth.read, "host name file refused", "host name file in pieces"),
        (later.random, "random bytes refused", "random bytes in pieces"),
        (later.error, "standard error refused", "standard error in pieces"),
    ] {
        match f {
            Fault::None => {}
            Fault::Pieces(_) => c.label(pieces),
            Fault::Fail(..) | Fault::Cut(..) => c.label(refused),
        }
    }

    let odd = hostile(c);
    let run = || -> Result<(Outcome, u64, bool), String> {
        let _guard = vp_env::with(&[("COMPUTERNAME", var.clone())], host.clone());
        let watch = Watch::begin()?;
        let mut calls = 0;
        let mut refused = false;
        let mut go = || -> Outcome {
            let spell = vc::Spelling::Split { user: s.creds.user.clone(), domain: s.creds.domain.clone() };
            let (r, t) = watch.faulty(at_birth, || catch(|| vc::client(s.level, &spell, &s.creds.password, "")));
            let mut cl = r.map_err(|m| format!("creating the client: {m}"))?;
            cl.set_version(s.version);
            let mut named = vec![expected_workstation(&var, &host).ok()];
            if matches!(at_birth.read, Fault::Fail(..) | Fault::Cut(..)) {
                // the failure may come after all that is needed; part of a name is no name
                named.push(expected_workstation(&var, &HostFile::Unreadable).ok());
            }
            calls += t.calls;

            let mut answered = None;
            let ((), t) = watch.faulty(later, || {
                answered = Some((|| {
                    let neg = vc::send_negotiate(&mut *cl)?;
                    let m = vc::decode_challenge(&s.chal)?;
                    catch(|| cl.challenge(m))?;
                    Ok::<_, String>((neg.clone(), vc::answer(&mut *cl, &neg, &s.chal)))
                })());
            });
            calls += t.calls;
            refused |= t.refused > 0;
            let mut came = None;
            let (neg, x) = answered.expect("vp_ run")?;
            match x {
                // what a panic leaves of the exchange is not told
                Err(_) if t.refused > 0 => {}
                Err(m) => return Err(m),
                Ok(x) => {
                    check(&mut s, &x, &t)?;
                    if !named.contains(&None) {
                        let got = place(&x);
                        ensure!(
                            named.iter().flatten().any(|w| got == w.clone().unwrap_or_default()),
                            "the workstation is {got:?} instead of {named:?}"
                        );
                    }
                    came = Some(shape(&x));
                    let (x, t) = watch.during(|| vc::answer(&mut *cl, &neg, &s.chal));
                    check(&mut s, &x.map_err(|m| format!("afterwards: {m}"))?, &t).map_err(|m| format!("afterwards: {m}"))?;
                }
            }
            // nothing of it stays
            let (x, t) = watch.during(|| vc::exchange(&mut *cl, &s.chal));
            let x = x.map_err(|m| format!("the next exchange: {m}"))?;
            check(&mut s, &x, &t).map_err(|m| format!("the next exchange: {m}"))?;
            let now = shape(&x);
            ensure!(
                came.as_ref().is_none_or(|w| *w == now),
                "flags and field sizes {came:x?} with faults, {now:x?} without"
            );

            // what is diagnosed by the way
            let said = Faults { error: later.error, ..NO_FAULTS };
            macro_rules! read {
                ($($t:ty),*) => {$(
                    let go = || catch(|| <$t>::vp_decode(&odd).map(|(m, rest)| (format!("{m:?}"), rest)).ok());
                    let (plain, _) = watch.during(go);
                    let (r, _) = watch.faulty(said, go);
                    ensure!(
                        r == plain,
                        "decoding {} gives {r:?} where standard error is faulty, {plain:?} otherwise",
                        mk::hex(&odd)
                    );
                )*};
            }
            read!(Challenge, Negotiate, Authenticate, Vec<st::AvPair>);

            macro_rules! draw {
                ($($t:ty),*) => {$(
                    let (r, t) = watch.faulty(values, || catch(<$t>::random));
                    refused |= t.refused > 0;
                    match r {
                        Ok(v) => {
                            ensure!(!unfilled(&v[..]), "{}::random() gives {}", stringify!($t), mk::hex(&v[..]));
                            ensure!(
                                t.refused == 0 || t.given >= v.len(),
                                "{}::random() gives {} where random bytes are refused",
                                stringify!($t),
                                mk::hex(&v[..])
                            );
                        }
                        Err(_) if t.refused > 0 => {}
                        Err(m) => return Err(format!("{}::random(): {m}", stringify!($t))),
                    }
                )*};
            }
            draw!(st::ServerChallenge, st::ClientChallenge, st::ExportedSessionKey, st::EncryptedRandomSessionKey);
            Ok(())
        };
        let r = go();
        crate::vp_engine::logged();
        Ok((r, calls as u64, refused))
    };
    let r = std::thread::scope(|t| t.spawn(run).join()).expect("vp_ thread");
    let (r, calls, refused) = r.unwrap_or_else(|m| panic!("vp_ watching system calls: {m}"));
    c.evals = calls + 4;
    c.nontrivial = refused || [at_birth.read, later.random, values.random].iter().any(|f| *f != Fault::None);
    r
}

/// What does not depend on random values
fn shape(x: &vc::Exchange) -> (u32, Vec<usize>) {
    (x.raw.flags, x.raw.fields.iter().map(|f| f.len()).collect())
}

/// The workstation that an AUTHENTICATE names
fn place(x: &vc::Exchange) -> String {
    let b = &x.raw.fields[4];
    match sp::fl::has(x.raw.flags, sp::fl::UNICODE) {
        true => String::from_utf16_lossy(&b.chunks(2).map(|p| u16::from_le_bytes([p[0], p[p.len() - 1]])).collect::<Vec<_>>()),
        false => String::from_utf8_lossy(b).into_owned(),
    }
}

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C36",
        rule: "a client made, an exchange, another one, and random values, while the host name file, the random source and standard error are refused (with some error, at some call), interrupted, or deliver and accept only pieces of one to seven bytes; non-trivial: some fault was set on reading or randomness",
        run: c36,
        cases: 30_000,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &["seccomp filters tell every system call but those listed as harmless in vp_watch.rs"],
        exhaustive_note: "",
    }]
}
