//! C34: what decoding says when it refuses

use super::codec::hostile;
use crate::vp_conv::Codec;
use crate::vp_engine::{catch, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_make as mk;
use crate::vp_spec as sp;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::vp_hooks::{Field, OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use nom::error::{ContextError, Error, ErrorKind, FromExternalError, ParseError, VerboseError};
use std::fmt::Debug;

/// An application's own error: every place and context it has been told of
#[derive(Debug, Clone)]
struct Places<'a>(Vec<(&'a [u8], &'static str)>);
impl<'a> ParseError<&'a [u8]> for Places<'a> {
    fn from_error_kind(i: &'a [u8], _: ErrorKind) -> Self {
        Places(vec![(i, "kind")])
    }
    fn append(i: &'a [u8], _: ErrorKind, mut other: Self) -> Self {
        other.0.push((i, "kind"));
        other
    }
    fn or(mut self, mut other: Self) -> Self {
        self.0.append(&mut other.0);
        self
    }
}
impl<'a> ContextError<&'a [u8]> for Places<'a> {
    fn add_context(i: &'a [u8], c: &'static str, mut other: Self) -> Self {
        other.0.push((i, c));
        other
    }
}
impl<'a, X> FromExternalError<&'a [u8], X> for Places<'a> {
    fn from_external_error(i: &'a [u8], k: ErrorKind, _: X) -> Self {
        Self::from_error_kind(i, k)
    }
}

/// Another one: the last thing it was told replaces what came before
#[derive(Debug, Clone)]
struct Newest<'a>(&'a [u8]);
impl<'a> ParseError<&'a [u8]> for Newest<'a> {
    fn from_error_kind(i: &'a [u8], _: ErrorKind) -> Self {
        Newest(i)
    }
    fn append(i: &'a [u8], _: ErrorKind, _: Self) -> Self {
        Newest(i)
    }
}
impl<'a> ContextError<&'a [u8]> for Newest<'a> {
    fn add_context(i: &'a [u8], _: &'static str, _: Self) -> Self {
        Newest(i)
    }
}

#[derive(Debug, PartialEq)]
enum Verdict<T> {
    Value(T, usize),
    Error,
    Failure,
}

/// The verdict, and the places that the error names
fn told<'a, T, E: Debug>(
    r: nom::IResult<&'a [u8], T, E>,
    places: fn(&E) -> Vec<&'a [u8]>,
) -> Result<(Verdict<T>, Vec<&'a [u8]>), String> {
    match r {
        Ok((rest, v)) => Ok((Verdict::Value(v, rest.len()), vec![])),
        Err(nom::Err::Incomplete(n)) => Err(format!("a complete input is said to be incomplete ({n:?})")),
        Err(nom::Err::Error(e)) => {
            catch(|| format!("{e:?}"))?;
            Ok((Verdict::Error, places(&e)))
        }
        Err(nom::Err::Failure(e)) => {
            catch(|| format!("{e:?}"))?;
            Ok((Verdict::Failure, places(&e)))
        }
    }
}

fn within(part: &[u8], all: &[u8]) -> bool {
    let (p, a) = (part.as_ptr_range(), all.as_ptr_range());
    a.start <= p.start && p.end <= a.end
}

/// Whether the input was refused
fn one<T: Codec + PartialEq + Debug>(b: &[u8], level: log::LevelFilter) -> Result<bool, String> {
    let before = log::max_level();
    let plain = catch(|| told(T::vp_decode_as::<()>(b), |_| vec![]))??;
    let check = |what: &str, r: Result<(Verdict<T>, Vec<&[u8]>), String>| -> Outcome {
        let (v, places) = r.map_err(|m| format!("{what}: {m}"))?;
        ensure!(v == plain.0, "{what}: {v:?}, with errors of type (): {:?}", plain.0);
        for p in places {
            ensure!(
                within(p, b),
                "{what}: an error names {} bytes {} that are no part of the input",
                p.len(),
                mk::hex(&p[..p.len().min(40)])
            );
        }
        Ok(())
    };
    check("errors of type nom::error::Error", catch(|| told(T::vp_decode_as::<Error<&[u8]>>(b), |e| vec![e.input]))?)?;
    check("errors as pairs", catch(|| told(T::vp_decode_as::<(&[u8], ErrorKind)>(b), |e| vec![e.0]))?)?;
    check(
        "errors of type VerboseError",
        catch(|| told(T::vp_decode_as::<VerboseError<&[u8]>>(b), |e| e.errors.iter().map(|x| x.0).collect()))?,
    )?;
    check("an error type that keeps everything", catch(|| told(T::vp_decode_as::<Places>(b), |e| e.0.iter().map(|x| x.0).collect()))?)?;
    check("an error type that keeps the newest", catch(|| told(T::vp_decode_as::<Newest>(b), |e| vec![e.0]))?)?;
    // other cases do the same at this moment, so that the level is any
    log::set_max_level(level);
    let r = catch(|| told(T::vp_decode_as::<()>(b), |_| vec![]));
    log::set_max_level(before);
    check(&format!("with messages up to {level} logged"), r?)?;
    Ok(!matches!(plain.0, Verdict::Value(..)))
}

fn c34(c: &mut Case) -> Outcome {
    let mut b = hostile(c);
    if c.chance(1, 3) {
        c.label("cut");
        let k = c.below(b.len() + 1);
        b.truncate(k);
    }
    b.truncate(6000);
    let level = *c.pick(&[
        log::LevelFilter::Off,
        log::LevelFilter::Error,
        log::LevelFilter::Warn,
        log::LevelFilter::Info,
        log::LevelFilter::Trace,
    ]);
    c.note(|| format!("bytes {} log level {level}", mk::hex(&b)));
    let (mut refused, mut n) = (0, 0);
    macro_rules! go {
        ($($t:ty),* $(,)?) => {$(
            n += 1;
            match one::<$t>(&b, level) {
                Ok(r) => refused += u64::from(r),
                Err(m) => return Err(format!("decoding {}: {m}", stringify!($t))),
            }
        )*};
    }
    go!(
        Negotiate, Challenge, Authenticate, Flags, Field, UnicodeString, OEMString, st::Version, st::AvPair,
        Vec<st::AvPair>, st::MsvAvFlags, st::FileTime, st::SingleHostData, st::MessageSignature, st::LmChallenge,
        st::Lmv1Challenge, st::Lmv2Challenge, st::NtChallenge, st::Ntv1Challenge, st::Ntv2Challenge,
        st::ServerChallenge, st::ClientChallenge, st::EncryptedRandomSessionKey, st::NtProofStr, st::Mic,
        st::RandomPad, st::Response16, st::Response24,
    );
    c.evals = n * 7;
    c.nontrivial = refused > 0 && b.len() >= 4;
    c.label(if b.starts_with(sp::SIGNATURE) { "message" } else { "other bytes" });
    c.label_if(refused == 0, "nothing refused");
    Ok(())
}

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C34",
        rule: "well-formed, altered and cut messages, AV pair lists, responses and random bytes, each decoded as each of 28 types with six error types and at some log level; non-trivial: at least four bytes of which some type refuses",
        run: c34,
        cases: 100_000,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &[],
        exhaustive_note: "",
    }]
}
