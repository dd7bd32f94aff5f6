//! C01 to C07, C23, C24: the wire codec

use crate::vp_conv::{self as cv, Codec};
use crate::vp_engine::{catch, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_gen as g;
use crate::vp_make as mk;
use crate::vp_spec::{self as sp, fl, Auth, Av, Blob, Chal, Lm, Neg, Nt};
use crate::vp_dict;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::vp_hooks::{Field, OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::io::{self, Write};

// ---------- hostile bytes ----------

fn put(b: &mut [u8], at: usize, v: &[u8]) {
    for (i, x) in v.iter().enumerate() {
        if let Some(p) = b.get_mut(at + i) {
            *p = *x;
        }
    }
}

pub fn mutate(c: &mut Case, b: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        let len = b.len();
        match c.below(9) {
            0 if len > 0 => {
                let i = c.below(len);
                b[i] = c.draw(255) as u8;
            }
            1 if len > 0 => {
                let i = c.below(len);
                b[i] ^= 1 << c.draw(7);
            }
            2 if len > 0 => {
                let i = c.below(len);
                let v = g::int(c, 16) as u16;
                put(b, i, &v.to_le_bytes());
            }
            3 if len > 0 => {
                let i = c.below(len.min(64));
                let v = g::int(c, 32) as u32;
                put(b, i, &v.to_le_bytes());
            }
            4 => {
                let i = c.below(len + 1);
                b.truncate(i);
            }
            5 => {
                let i = c.below(len + 1);
                let n = 1 + c.below(6);
                let ins = g::bytes(c, n);
                b.splice(i..i, ins);
            }
            6 if len > 0 => {
                let i = c.below(len);
                let n = (1 + c.below(8)).min(len - i);
                b.drain(i..i + n);
            }
            7 if len > 0 => {
                let i = c.below(len);
                let n = (1 + c.below(16)).min(len - i);
                let x = b[i..i + n].to_vec();
                let j = c.below(len);
                b.splice(j..j, x);
            }
            _ => {
                // length/offset words of the fixed header, small and huge
                let at = *c.pick(&[12usize, 14, 16, 20, 24, 28, 32, 36, 40, 42, 44, 48, 52, 54, 56]);
                let v = match c.below(4) {
                    0 => g::int(c, 32) as u32,
                    1 => b.len() as u32 + c.draw(4) as u32,
                    2 => (b.len() as u32).saturating_sub(c.draw(40) as u32),
                    _ => c.draw(128) as u32,
                };
                if c.flip() {
                    put(b, at, &v.to_le_bytes());
                } else {
                    put(b, at, &(v as u16).to_le_bytes());
                }
            }
        }
    }
}

/// AV pairs with odd ids, wrong sizes and broken text
pub fn hostile_av(c: &mut Case) -> Vec<u8> {
    let n = c.below(7);
    let mut o = Vec::new();
    for _ in 0..n {
        let id = match c.weighted(&[10, 3, 1]) {
            0 => c.draw(10) as u16,
            1 => c.draw(14) as u16,
            _ => g::int(c, 16) as u16,
        };
        let value = match c.weighted(&[5, 3, 3, 4]) {
            0 => {
                let want = match id {
                    0 => 0,
                    6 => 4,
                    7 => 8,
                    8 => 48,
                    10 => 16,
                    _ => 2 * c.below(8),
                };
                let k = (want + c.below(3)).saturating_sub(c.below(3));
                g::bytes(c, k)
            }
            1 => {
                let k = g::len(c, 80);
                g::bytes(c, k)
            }
            2 => utf16_units(c),
            _ => sp::utf16(&g::text(c, 12)),
        };
        let declared = match c.weighted(&[12, 2, 1]) {
            0 => value.len() as u16,
            1 => (value.len() as u16).wrapping_add(c.draw(4) as u16).wrapping_sub(2),
            _ => g::int(c, 16) as u16,
        };
        o.extend_from_slice(&id.to_le_bytes());
        o.extend_from_slice(&declared.to_le_bytes());
        o.extend_from_slice(&value);
    }
    if c.chance(2, 3) {
        o.extend_from_slice(&[0; 4]);
    }
    if c.chance(1, 5) {
        let k = c.below(6);
        let t = g::bytes(c, k);
        o.extend_from_slice(&t);
    }
    o
}

/// UTF-16 units, surrogates included, possibly an odd number of bytes
fn utf16_units(c: &mut Case) -> Vec<u8> {
    let n = c.below(10);
    let mut o = Vec::new();
    for _ in 0..n {
        let u = match c.below(6) {
            0 => 0xd800 + c.draw(0x3ff) as u16,
            1 => 0xdc00 + c.draw(0x3ff) as u16,
            2 => *c.pick(&[0u16, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff]),
            3 => g::int(c, 16) as u16,
            _ => 0x41 + c.draw(25) as u16,
        };
        o.extend_from_slice(&u.to_le_bytes());
    }
    if c.chance(1, 5) {
        o.push(c.draw(255) as u8);
    }
    o
}

fn hostile_blob(c: &mut Case) -> Vec<u8> {
    let mut o = vec![1, 1, 0, 0, 0, 0, 0, 0];
    o.extend_from_slice(&g::filetime(c).to_le_bytes());
    o.extend_from_slice(&g::array::<8>(c));
    o.extend_from_slice(&[0; 4]);
    o.extend_from_slice(&hostile_av(c));
    if c.chance(1, 3) {
        let n = 1 + c.below(2);
        mutate(c, &mut o, n);
    }
    if c.flip() {
        let mut p = g::array::<16>(c).to_vec();
        p.extend_from_slice(&o);
        o = p;
    }
    if c.chance(1, 6) {
        let k = c.below(o.len() + 1);
        o.truncate(k);
    }
    o
}

/// Any message, well-formed or with hostile contents, in any arrangement
pub fn some_message(c: &mut Case) -> Vec<u8> {
    match c.below(7) {
        0 => {
            let n = mk::neg(c);
            mk::arrange_neg(c, &n)
        }
        1 => {
            let ch = mk::chal(c);
            let r = if c.chance(1, 4) { g::int(c, 64) } else { 0 };
            mk::arrange_chal(c, &ch, r)
        }
        2 => {
            let a = mk::auth(c);
            mk::arrange_auth(c, &a)
        }
        3 => {
            // challenge with hostile fields
            let ch = mk::chal(c);
            let parts = vec![Some(utf16_units(c)), Some(hostile_av(c))];
            mk::arrange(c, &|p| ch.header(p, 0), 56, 56, &parts).0
        }
        4 => {
            let a = mk::auth(c);
            let mut parts = Vec::new();
            for i in 0..6 {
                parts.push(match i {
                    0 => {
                        let k = (24 + c.below(3)).saturating_sub(c.below(30));
                        Some(g::bytes(c, k))
                    }
                    1 => Some(hostile_blob(c)),
                    5 => {
                        let k = (16 + c.below(3)).saturating_sub(c.below(18));
                        Some(g::bytes(c, k))
                    }
                    _ => Some(utf16_units(c)),
                });
            }
            mk::arrange(c, &|p| a.header(p), 88, 88, &parts).0
        }
        5 => {
            let n = mk::neg(c);
            let k = c.below(20);
            let parts = vec![Some(g::bytes(c, k)), Some(utf16_units(c))];
            mk::arrange(c, &|p| n.header(p), 40, 40, &parts).0
        }
        _ => {
            // header with arbitrary descriptors over a random payload
            let kind = 1 + c.below(3);
            let k = g::len(c, 400);
            let pay = g::bytes(c, k);
            let nf = [2, 2, 6][kind - 1];
            let hl = [40, 56, 88][kind - 1];
            let pl: Vec<sp::Place> = (0..nf)
                .map(|_| {
                    let offset = match c.below(4) {
                        0 => g::int(c, 32) as u32,
                        1 => c.draw((hl + pay.len()) as u64 + 4) as u32,
                        2 => u32::MAX - c.draw(70000) as u32,
                        _ => hl as u32,
                    };
                    let len = match c.below(3) {
                        0 => g::int(c, 16) as u16,
                        1 => c.draw(pay.len() as u64 + 4) as u16,
                        _ => (hl + pay.len()).saturating_sub(offset as usize).min(65535) as u16,
                    };
                    sp::Place { offset, len, max: g::int(c, 16) as u16 }
                })
                .collect();
            let mut o = match kind {
                1 => mk::neg(c).header(&pl),
                2 => mk::chal(c).header(&pl, 0),
                _ => mk::auth(c).header(&pl),
            };
            o.extend_from_slice(&pay);
            o
        }
    }
}

pub fn hostile(c: &mut Case) -> Vec<u8> {
    match c.weighted(&[14, 3, 3, 2, 3, 2]) {
        0 => {
            let mut b = some_message(c);
            let n = c.weighted(&[4, 4, 2, 1]);
            mutate(c, &mut b, n);
            b
        }
        1 => hostile_av(c),
        2 => hostile_blob(c),
        3 => {
            let n = g::len(c, 70000);
            g::bytes(c, n)
        }
        4 => {
            let mut b = c.pick(&vp_dict::dict().blobs).clone();
            let n = c.below(4);
            mutate(c, &mut b, n);
            b
        }
        _ => utf16_units(c),
    }
}

macro_rules! each_type {
    ($m:ident) => {
        $m!(Negotiate);
        $m!(Challenge);
        $m!(Authenticate);
        $m!(Flags);
        $m!(Field);
        $m!(UnicodeString);
        $m!(OEMString);
        $m!(st::Version);
        $m!(st::AvPair);
        $m!(Vec<st::AvPair>);
        $m!(st::MsvAvFlags);
        $m!(st::FileTime);
        $m!(st::SingleHostData);
        $m!(st::MessageSignature);
        $m!(st::LmChallenge);
        $m!(st::Lmv1Challenge);
        $m!(st::Lmv2Challenge);
        $m!(st::NtChallenge);
        $m!(st::Ntv1Challenge);
        $m!(st::Ntv2Challenge);
        $m!(st::ServerChallenge);
        $m!(st::ClientChallenge);
        $m!(st::EncryptedRandomSessionKey);
        $m!(st::NtProofStr);
        $m!(st::Mic);
        $m!(st::RandomPad);
        $m!(st::Response16);
        $m!(st::Response24);
    };
}

fn decode_all(b: &[u8]) -> (u32, Outcome) {
    let mut ok = 0;
    let mut err = Ok(());
    macro_rules! go {
        ($t:ty) => {
            match catch(|| <$t>::vp_decode(b)) {
                Ok(Ok(_)) => ok += 1,
                Ok(Err(())) => {}
                Err(m) if err.is_ok() => {
                    err = Err(format!("decoding {} panics: {m}", stringify!($t)));
                }
                Err(_) => {}
            }
        };
    }
    each_type!(go);
    (ok, err)
}

fn c01(c: &mut Case) -> Outcome {
    let b = if c.chance(1, 400) {
        c.label("up to 64 KiB");
        super::extra::bulky(c)
    } else {
        hostile(c)
    };
    c.note(|| format!("bytes {}", mk::hex(&b)));
    let (ok, r) = decode_all(&b);
    c.evals = 28;
    c.nontrivial = b.len() >= 4;
    let msg = b.starts_with(sp::SIGNATURE);
    c.label(if msg { "message" } else { "other bytes" });
    if msg {
        let accepted = match b.get(8) {
            Some(1) => Negotiate::vp_decode(&b).is_ok(),
            Some(2) => Challenge::vp_decode(&b).is_ok(),
            _ => Authenticate::vp_decode(&b).is_ok(),
        };
        c.label(if accepted { "message accepted" } else { "message rejected" });
    }
    c.label_if(ok == 0, "nothing decodes");
    r
}

/// Fixed messages for the enumerated part
fn bases() -> Vec<Vec<u8>> {
    let av = vec![
        Av::Text(2, "Domain".into()),
        Av::Text(1, "Sé😀".into()),
        Av::Flags(2),
        Av::Time(133_000_000_000_000_000),
        Av::Single { size: 48, custom: [3; 8], machine: [4; 32] },
        Av::Bindings([5; 16]),
        Av::Eol,
    ];
    let chal = Chal {
        flags: 0xe28a_8237,
        target: Some("Server😀".into()),
        sc: [1, 2, 3, 4, 5, 6, 7, 8],
        av: av.clone(),
        version: Some((6, 1, 7600)),
    };
    let auth = Auth {
        flags: 0xe28a_8235,
        lm: Some(Lm::V2([7; 16], [8; 8])),
        nt: Some(Nt::Resp([9; 16], Blob { time: 1, cc: [8; 8], av })),
        domain: Some("Domain".into()),
        user: Some("Usér".into()),
        workstation: Some("WS".into()),
        key: Some([1; 16]),
        version: Some((6, 1, 7600)),
        mic: [2; 16],
    };
    let auth1 = Auth {
        flags: 0xe208_8235,
        lm: Some(Lm::V1([7; 24])),
        nt: Some(Nt::V1([9; 24])),
        ..auth.clone()
    };
    let neg = Neg {
        flags: 0xe208_b237,
        domain: Some("DOMAIN".into()),
        workstation: Some("WS".into()),
        version: Some((6, 1, 7600)),
    };
    let mut v = vec![neg.bytes(), chal.bytes(), auth.bytes(), auth1.bytes()];
    v.push(Neg { version: None, flags: 0x3237, ..neg }.bytes());
    v
}

const C01_STEPS: u64 = 480;

fn c01_enum(i: u64, c: &mut Case) -> Outcome {
    let bs = bases();
    let b = &bs[(i % 5) as usize];
    let pos = (i / 5 % C01_STEPS) as usize;
    let what = i / 5 / C01_STEPS;
    if pos >= b.len() {
        return Ok(());
    }
    let mut m = b.clone();
    match what {
        0 => m.truncate(pos),
        1 => m[pos] = 0,
        2 => m[pos] = 0xff,
        3 => m[pos] = 0x7f,
        4 => m[pos] = m[pos].wrapping_add(1),
        5 => m[pos] = m[pos].wrapping_sub(1),
        6 => put(&mut m, pos, &[0xff; 2]),
        7 => put(&mut m, pos, &[0xff; 4]),
        8 => put(&mut m, pos, &[0, 0xd8]),
        _ => put(&mut m, pos, &[0, 0xdc]),
    }
    c.evals = 28;
    c.nontrivial = true;
    c.note(|| format!("base {} change {what} at {pos}", i % 5));
    decode_all(&m).1
}

// ---------- C02, C04: values ----------

fn classify_auth(c: &mut Case, a: &Auth) {
    c.label(match a.nt {
        None => "no NT response",
        Some(Nt::V1(_)) => "NTLMv1 response",
        Some(Nt::V2(_)) => "bare v2 challenge",
        Some(Nt::Resp(..)) => "NTLMv2 response",
    });
    c.label_if(a.lm.is_none(), "no LM response");
    c.label_if(a.key.is_some(), "session key");
    c.label_if(a.version.is_none(), "no version");
}

fn encode<T: Codec>(v: &T) -> Result<Vec<u8>, String> {
    catch(|| v.vp_encode()).map_err(|m| format!("encoding panics: {m}"))
}
fn decode<T: Codec>(b: &[u8]) -> Result<(T, usize), String> {
    catch(|| T::vp_decode(b))
        .map_err(|m| format!("decoding panics: {m}"))?
        .map_err(|_| format!("{} bytes do not decode", b.len()))
}

fn strict_ok(f: u32) -> u32 {
    if cfg!(feature = "strict") && fl::forbidden(f) {
        (f | fl::UNICODE) & !fl::RESERVED & !fl::TYPE_DOMAIN & !fl::LM_KEY
    } else {
        f
    }
}

fn normal_auth(mut a: Auth) -> Auth {
    a.domain = mk::norm(a.domain);
    a.user = mk::norm(a.user);
    a.workstation = mk::norm(a.workstation);
    a
}
fn normal_chal(mut a: Chal) -> Chal {
    a.target = mk::norm(a.target);
    a
}
fn normal_neg(mut a: Neg) -> Neg {
    a.domain = mk::norm(a.domain);
    a.workstation = mk::norm(a.workstation);
    a
}

fn round<T: Codec + PartialEq>(v: &T, what: &str) -> Result<Vec<u8>, String> {
    let b = encode(v).map_err(|m| format!("{what}: {m}"))?;
    let (w, rest) = decode::<T>(&b).map_err(|m| format!("{what}: {m}: {}", mk::hex(&b)))?;
    ensure!(rest == 0, "{what}: {rest} bytes left over after decoding its own encoding");
    ensure!(w == *v, "{what}: decoded value differs from the encoded one: {}", mk::hex(&b));
    Ok(b)
}

fn c02(c: &mut Case) -> Outcome {
    match c.weighted(&[4, 6, 8, 5]) {
        0 => {
            let mut n = mk::neg(c);
            n.flags = strict_ok(n.flags);
            c.note(|| mk::short(&n));
            c.label("NEGOTIATE");
            c.nontrivial = n.domain.is_some() || n.workstation.is_some() || n.version.is_some();
            let v = cv::negotiate(&n);
            let b = encode(&v)?;
            let (w, _) = decode::<Negotiate>(&b)?;
            ensure!(cv::neg_of(&w)? == n, "NEGOTIATE reads back as {} instead of {}", mk::short(&w), mk::short(&n));
            ensure!(w == v, "NEGOTIATE decodes to an unequal value");
        }
        1 => {
            let mut ch = mk::chal(c);
            ch.flags = strict_ok(ch.flags);
            c.note(|| mk::short(&ch));
            c.label("CHALLENGE");
            c.label_if(ch.av.len() > 8, "long AV list");
            c.nontrivial = !ch.av.is_empty() || ch.target.is_some();
            let v = if c.flip() {
                // built by its setters
                if ch.av.len() == 1 {
                    return Ok(()); // an end marker alone cannot be set
                }
                cv::challenge(&ch)?
            } else {
                decode::<Challenge>(&ch.bytes())?.0
            };
            let b = encode(&v)?;
            let (w, _) = decode::<Challenge>(&b)?;
            ensure!(cv::chal_of(&w)? == ch, "CHALLENGE reads back as {} instead of {}", mk::short(&w), mk::short(&ch));
            ensure!(w == v, "CHALLENGE decodes to an unequal value");
        }
        2 => {
            let mut a = mk::auth(c);
            a.flags = strict_ok(a.flags);
            c.note(|| mk::short(&a));
            c.label("AUTHENTICATE");
            classify_auth(c, &a);
            c.nontrivial = a.nt.is_some() || a.user.is_some();
            let v = cv::authenticate(&a);
            let b = encode(&v)?;
            let (w, _) = decode::<Authenticate>(&b)?;
            ensure!(cv::auth_of(&w)? == a, "AUTHENTICATE reads back as {} instead of {}", mk::short(&w), mk::short(&a));
            ensure!(w == v, "AUTHENTICATE decodes to an unequal value");
        }
        _ => {
            c.label("structures");
            c.nontrivial = true;
            c.evals = 22;
            let l = mk::av_list(c, 60000);
            c.note(|| format!("structures, AV list {}", mk::short(&l)));
            let v = cv::av_list(&l);
            round(&v, "AV pair list")?;
            for p in &v {
                round(p, "AV pair")?;
            }
            let b = mk::blob(c);
            round(&cv::blob(&b), "NTLMv2 client challenge")?;
            let n = mk::nt(c);
            round(&cv::nt(&n), "NT response")?;
            if let Nt::V1(r) = n {
                round(&st::Ntv1Challenge { response: r.into() }, "NTLMv1 response")?;
            }
            let l = mk::lm_kind(c, true);
            if let st::LmChallenge::V1(x) = cv::lm(&l) {
                round(&x, "LMv1 response")?;
            }
            let l = mk::lm_kind(c, false);
            if let st::LmChallenge::V2(x) = cv::lm(&l) {
                round(&x, "LMv2 response")?;
            }
            // on its own, an LM response is taken for an LMv2 one
            round(&cv::lm(&l), "LM response")?;
            round(&cv::version(mk::ver(c)), "version")?;
            round(&cv::filetime(g::filetime(c)), "FILETIME")?;
            round(&cv::msv_flags(c.draw(7) as u32), "AV flags")?;
            round(&cv::single(g::int(c, 32) as u32, g::array(c), g::array(c)), "single host data")?;
            round(
                &st::MessageSignature {
                    random_pad: g::array::<4>(c).into(),
                    checksum: g::int(c, 32) as u32,
                    seq_num: g::int(c, 32) as u32,
                },
                "message signature",
            )?;
            round(&Flags(strict_ok(g::flag_word(c))), "flags")?;
            round(
                &Field { len: g::int(c, 16) as u16, max_len: g::int(c, 16) as u16, offset: g::int(c, 32) as u32 },
                "field",
            )?;
            round(&UnicodeString::from(g::text(c, 400)), "Unicode text")?;
            round(&OEMString::from(g::text(c, 400)), "OEM text")?;
            round(&st::ServerChallenge::from(g::array::<8>(c)), "server challenge")?;
            round(&st::ClientChallenge::from(g::array::<8>(c)), "client challenge")?;
            round(&st::EncryptedRandomSessionKey::from(g::array::<16>(c)), "session key")?;
            round(&st::NtProofStr::from(g::array::<16>(c)), "proof")?;
            round(&st::Mic::from(g::array::<16>(c)), "MIC")?;
            round(&st::RandomPad::from(g::array::<4>(c)), "pad")?;
            round(&st::Response16::from(g::array::<16>(c)), "response")?;
            round(&st::Response24::from(g::array::<24>(c)), "response")?;
        }
    }
    Ok(())
}

// ---------- C03: accepted bytes ----------

fn faithful<T: Codec>(b: &[u8], what: &str, hits: &mut u32) -> Outcome {
    if let Ok(Ok((v, rest))) = catch(|| T::vp_decode(b)) {
        let used = &b[..b.len() - rest];
        let out = encode(&v).map_err(|m| format!("{what}: {m}"))?;
        ensure!(
            out == used,
            "{what}: accepted {} but re-encodes as {}",
            mk::hex(used),
            mk::hex(&out)
        );
        *hits += 1;
    }
    Ok(())
}

fn c03(c: &mut Case) -> Outcome {
    let b = match c.below(4) {
        0 => hostile(c),
        1 => hostile_av(c),
        2 => {
            // AV list, lightly damaged
            let mut b = sp::av_bytes(&mk::av_list(c, 3000));
            let n = c.below(3);
            mutate(c, &mut b, n);
            b
        }
        _ => {
            let mut b = some_message(c);
            let n = c.weighted(&[3, 3, 1]);
            mutate(c, &mut b, n);
            b
        }
    };
    c.note(|| format!("bytes {}", mk::hex(&b)));
    let mut hits = 0;
    let mut n = 0;
    macro_rules! one {
        ($t:ty) => {
            faithful::<$t>(&b, stringify!($t), &mut hits)?;
            n += 1;
        };
    }
    one!(Flags);
    one!(Field);
    one!(UnicodeString);
    one!(OEMString);
    one!(st::Version);
    one!(st::AvPair);
    one!(Vec<st::AvPair>);
    one!(st::MsvAvFlags);
    one!(st::FileTime);
    one!(st::SingleHostData);
    one!(st::MessageSignature);
    one!(st::LmChallenge);
    one!(st::Lmv1Challenge);
    one!(st::Lmv2Challenge);
    one!(st::NtChallenge);
    one!(st::Ntv1Challenge);
    one!(st::Ntv2Challenge);
    one!(st::ServerChallenge);
    one!(st::ClientChallenge);
    one!(st::EncryptedRandomSessionKey);
    one!(st::NtProofStr);
    one!(st::Mic);
    one!(st::RandomPad);
    one!(st::Response16);
    one!(st::Response24);
    c.evals = n + 4;
    // nothing inside an accepted pair is reinterpreted
    if let Ok(Ok((v, rest))) = catch(|| Vec::<st::AvPair>::vp_decode(&b)) {
        let used = &b[..b.len() - rest];
        match sp::av_decode(used) {
            Some(w) => ensure!(
                cv::av_list_of(&v) == w,
                "AV pairs {} are read as {}",
                mk::hex(used),
                mk::short(&v)
            ),
            None => return Err(format!("bytes {} are not AV pairs but were read as {}", mk::hex(used), mk::short(&v))),
        }
        c.label_if(v.len() > 1, "AV pairs accepted");
        c.nontrivial |= !v.is_empty();
    }
    // messages
    if let Ok(Ok((v, _))) = catch(|| Negotiate::vp_decode(&b)) {
        c.label("NEGOTIATE accepted");
        c.nontrivial = true;
        let out = encode(&v)?;
        let (w, _) = decode::<Negotiate>(&out).map_err(|m| format!("re-encoded NEGOTIATE: {m}"))?;
        ensure!(
            normal_neg(cv::neg_of(&v)?) == normal_neg(cv::neg_of(&w)?),
            "NEGOTIATE changes when re-encoded: {} becomes {}",
            mk::short(&v),
            mk::short(&w)
        );
    }
    if let Ok(Ok((v, _))) = catch(|| Challenge::vp_decode(&b)) {
        c.label("CHALLENGE accepted");
        c.nontrivial = true;
        let out = encode(&v)?;
        let (w, _) = decode::<Challenge>(&out).map_err(|m| format!("re-encoded CHALLENGE: {m}"))?;
        ensure!(
            normal_chal(cv::chal_of(&v)?) == normal_chal(cv::chal_of(&w)?),
            "CHALLENGE changes when re-encoded: {} becomes {}",
            mk::short(&v),
            mk::short(&w)
        );
        // the AV pairs it echoes are the server's bytes
        if b.len() >= 48 {
            let at = u32::from_le_bytes(b[44..48].try_into().unwrap()) as usize;
            let n = u16::from_le_bytes([b[40], b[41]]) as usize;
            if n > 0 {
                let field = b.get(at..at + n).ok_or("field outside the message was accepted")?;
                let again = sp::av_bytes(&cv::av_list_of(v.get_target_infos()));
                ensure!(
                    field.starts_with(&again),
                    "target information {} is kept as {}",
                    mk::hex(field),
                    mk::hex(&again)
                );
                let echoed = encode(&v.get_target_infos().to_vec())?;
                ensure!(field.starts_with(&echoed), "target information re-encodes differently");
            }
        }
    }
    if let Ok(Ok((v, _))) = catch(|| Authenticate::vp_decode(&b)) {
        c.label("AUTHENTICATE accepted");
        c.nontrivial = true;
        let out = encode(&v)?;
        let (w, _) = decode::<Authenticate>(&out).map_err(|m| format!("re-encoded AUTHENTICATE: {m}"))?;
        ensure!(
            normal_auth(cv::auth_of(&v)?) == normal_auth(cv::auth_of(&w)?),
            "AUTHENTICATE changes when re-encoded: {} becomes {}",
            mk::short(&v),
            mk::short(&w)
        );
    }
    let _ = hits;
    Ok(())
}

// ---------- C04: layout ----------

fn check_layout(b: &[u8], kind: u32, parts: &[Option<Vec<u8>>], flags: u32, ver: Option<sp::Ver>) -> Result<sp::Raw, String> {
    let r = sp::parse(b).map_err(|m| format!("not a conforming message: {m}: {}", mk::hex(b)))?;
    ensure!(r.kind == kind, "message type {} instead of {kind}", r.kind);
    ensure!(r.flags == flags, "flags {:08x} instead of {flags:08x}", r.flags);
    let want = ver.map(sp::ver_bytes).unwrap_or([0; 8]);
    ensure!(r.version == want, "Version slot {} instead of {}", mk::hex(&r.version), mk::hex(&want));
    ensure!(sp::disjoint(&r), "payload fields overlap: {:?}", r.places);
    for (i, p) in parts.iter().enumerate() {
        let want = p.clone().unwrap_or_default();
        ensure!(
            r.fields[i] == want,
            "field {i} holds {} instead of {}",
            mk::hex(&r.fields[i]),
            mk::hex(&want)
        );
        ensure!(r.places[i].max == r.places[i].len, "field {i} has maximum length {} for length {}", r.places[i].max, r.places[i].len);
    }
    Ok(r)
}

fn c04(c: &mut Case) -> Outcome {
    match c.weighted(&[4, 6, 8, 3]) {
        0 => {
            let n = mk::neg(c);
            c.note(|| mk::short(&n));
            c.label("NEGOTIATE");
            c.nontrivial = n.domain.is_some() || n.workstation.is_some();
            check_layout(&encode(&cv::negotiate(&n))?, 1, &n.parts(), n.flags, n.version)?;
        }
        1 => {
            let ch = mk::chal(c);
            if ch.av.len() == 1 {
                return Ok(());
            }
            c.note(|| mk::short(&ch));
            c.label("CHALLENGE");
            c.nontrivial = !ch.av.is_empty();
            let b = encode(&cv::challenge(&ch)?)?;
            let r = check_layout(&b, 2, &ch.parts(), ch.flags, ch.version)?;
            ensure!(r.sc == ch.sc, "server challenge {} instead of {}", mk::hex(&r.sc), mk::hex(&ch.sc));
            ensure!(r.reserved == 0, "reserved field is {:x}", r.reserved);
        }
        2 => {
            let a = mk::auth(c);
            c.note(|| mk::short(&a));
            c.label("AUTHENTICATE");
            classify_auth(c, &a);
            c.nontrivial = a.nt.is_some();
            let mut m = cv::authenticate(&a);
            if c.chance(1, 3) {
                // never part of the wire form
                m.exported_session_key = Some(st::ExportedSessionKey::from(g::array::<16>(c)));
            }
            let b = encode(&m)?;
            let r = check_layout(&b, 3, &a.parts(), a.flags, a.version)?;
            ensure!(r.mic == a.mic, "MIC {} instead of {}", mk::hex(&r.mic), mk::hex(&a.mic));
        }
        _ => {
            c.label("structures");
            c.nontrivial = true;
            c.evals = 9;
            let l = mk::av_list(c, 60000);
            c.note(|| format!("structures, AV list {}", mk::short(&l)));
            let same = |what: &str, got: Vec<u8>, want: Vec<u8>| -> Outcome {
                ensure!(got == want, "{what} is {} instead of {}", mk::hex(&got), mk::hex(&want));
                Ok(())
            };
            same("AV pair list", encode(&cv::av_list(&l))?, sp::av_bytes(&l))?;
            let b = mk::blob(c);
            same("NTLMv2 client challenge", encode(&cv::blob(&b))?, b.bytes())?;
            let n = mk::nt(c);
            same("NT response", encode(&cv::nt(&n))?, n.bytes())?;
            let v1 = c.flip();
            let m = mk::lm_kind(c, v1);
            same("LM response", encode(&cv::lm(&m))?, m.bytes().to_vec())?;
            let v = mk::ver(c);
            same("version", encode(&cv::version(v))?, sp::ver_bytes(v).to_vec())?;
            let t = g::filetime(c);
            same("FILETIME", encode(&cv::filetime(t))?, t.to_le_bytes().to_vec())?;
            let f = g::flag_word(c);
            same("flags", encode(&Flags(f))?, f.to_le_bytes().to_vec())?;
            let s = g::text(c, 300);
            same("Unicode text", encode(&UnicodeString::from(s.clone()))?, sp::utf16(&s))?;
            let p = sp::Place { len: g::int(c, 16) as u16, max: g::int(c, 16) as u16, offset: g::int(c, 32) as u32 };
            same("field", encode(&Field { len: p.len, max_len: p.max, offset: p.offset })?, sp::field(&p).to_vec())?;
        }
    }
    Ok(())
}

// ---------- C05: any legal arrangement ----------

fn c05(c: &mut Case) -> Outcome {
    match c.below(3) {
        0 => {
            let mut n = mk::neg(c);
            n.flags = strict_ok(n.flags);
            c.label("NEGOTIATE");
            let b = mk::arrange_neg(c, &n);
            c.note(|| format!("{} as {}", mk::short(&n), mk::hex(&b)));
            c.nontrivial = n.domain.is_some() || n.workstation.is_some();
            let (w, _) = decode::<Negotiate>(&b).map_err(|m| format!("legal NEGOTIATE: {m}"))?;
            ensure!(cv::neg_of(&w)? == n, "NEGOTIATE reads as {} instead of {}", mk::short(&w), mk::short(&n));
        }
        1 => {
            let mut ch = mk::chal(c);
            ch.flags = strict_ok(ch.flags);
            c.label("CHALLENGE");
            let b = mk::arrange_chal(c, &ch, 0);
            c.note(|| format!("{} as {}", mk::short(&ch), mk::hex(&b)));
            c.nontrivial = !ch.av.is_empty() || ch.target.is_some();
            let (w, _) = decode::<Challenge>(&b).map_err(|m| format!("legal CHALLENGE: {m}"))?;
            ensure!(cv::chal_of(&w)? == ch, "CHALLENGE reads as {} instead of {}", mk::short(&w), mk::short(&ch));
        }
        _ => {
            let mut a = mk::auth(c);
            let f = strict_ok(a.flags);
            if f != a.flags {
                a.flags = f;
            }
            c.label("AUTHENTICATE");
            classify_auth(c, &a);
            let b = mk::arrange_auth(c, &a);
            c.note(|| format!("{} as {}", mk::short(&a), mk::hex(&b)));
            c.nontrivial = a.nt.is_some() || a.user.is_some();
            let (w, _) = decode::<Authenticate>(&b).map_err(|m| format!("legal AUTHENTICATE: {m}"))?;
            ensure!(cv::auth_of(&w)? == a, "AUTHENTICATE reads as {} instead of {}", mk::short(&w), mk::short(&a));
        }
    }
    Ok(())
}

// ---------- C06: malformed ----------

fn rejected<T: Codec + std::fmt::Debug>(b: &[u8], why: &str) -> Outcome {
    match catch(|| T::vp_decode(b)).map_err(|m| format!("{why}: decoding panics: {m}"))? {
        Ok((v, _)) => Err(format!("{why} was accepted as {}: {}", mk::short(&v), mk::hex(b))),
        Err(()) => Ok(()),
    }
}

/// One malformed AV pair with the reason
fn bad_pair(c: &mut Case) -> (Vec<u8>, &'static str) {
    let pair = |id: u16, v: &[u8]| {
        let mut o = id.to_le_bytes().to_vec();
        o.extend_from_slice(&(v.len() as u16).to_le_bytes());
        o.extend_from_slice(v);
        o
    };
    match c.below(9) {
        0 => {
            let span = if c.flip() { 3 } else { 65524 };
            let id = 11 + c.draw(span) as u16;
            let k = c.below(12);
            (pair(id, &g::bytes(c, k)), "AV pair of unknown kind")
        }
        1 => {
            let mut k = c.below(12);
            if k == 4 {
                k = 5;
            }
            let mut v = vec![0; k];
            if k > 0 {
                v[0] = c.draw(7) as u8;
            }
            (pair(6, &v), "AV flags of the wrong size")
        }
        2 => {
            let mut k = c.below(20);
            if k == 8 {
                k = 9;
            }
            (pair(7, &g::bytes(c, k)), "timestamp of the wrong size")
        }
        3 => {
            let mut k = match c.below(2) {
                0 => 40 + c.below(16),
                _ => c.below(100),
            };
            if k == 48 {
                k = 49;
            }
            let mut v = g::bytes(c, k);
            put(&mut v, 4, &[0; 4]);
            (pair(8, &v), "single host data of the wrong size")
        }
        4 => {
            let mut k = c.below(34);
            if k == 16 {
                k = 17;
            }
            (pair(10, &g::bytes(c, k)), "channel bindings of the wrong size")
        }
        5 => {
            let k = 1 + c.below(8);
            (pair(0, &g::bytes(c, k)), "end marker with a value")
        }
        6 => {
            let bit = 3 + c.draw(28) as u32;
            let f = (1u32 << bit) | c.draw(7) as u32;
            (pair(6, &f.to_le_bytes()), "unknown AV flag bits")
        }
        7 => {
            let mut v = g::bytes(c, 48);
            let z = 1u32 << c.draw(31);
            put(&mut v, 4, &z.to_le_bytes());
            (pair(8, &v), "single host data with a non-zero reserved word")
        }
        _ => {
            // text with an unpaired surrogate or half a unit
            let id = *c.pick(&[1u16, 2, 3, 4, 5, 9]);
            let mut v = sp::utf16(&g::text(c, 6));
            match c.below(3) {
                0 => v.push(c.draw(255) as u8),
                1 => {
                    // a low surrogate after a character that is not a high one
                    let u = 0xdc00 + c.draw(0x3ff) as u16;
                    v.extend_from_slice(&u.to_le_bytes());
                    v.extend_from_slice(&sp::utf16(&g::text(c, 4)));
                }
                _ => {
                    let u = 0xd800 + c.draw(0x3ff) as u16;
                    v.extend_from_slice(&u.to_le_bytes());
                    if c.flip() {
                        v.extend_from_slice(&sp::utf16("A"));
                    }
                }
            }
            (pair(id, &v), "undecodable AV text")
        }
    }
}

fn c06(c: &mut Case) -> Outcome {
    c.nontrivial = true;
    let which = c.below(8);
    if which == 7 {
        let (b, why) = bad_pair(c);
        c.label("AV pair");
        c.label(why);
        c.note(|| format!("{why}: {}", mk::hex(&b)));
        // on its own
        rejected::<st::AvPair>(&b, why)?;
        if why.starts_with("AV flags") {
            // the value alone, when too short
            if b.len() < 8 {
                rejected::<st::MsvAvFlags>(&b[4..], why)?;
            }
        }
        if why == "unknown AV flag bits" {
            rejected::<st::MsvAvFlags>(&b[4..], why)?;
        }
        if why == "single host data with a non-zero reserved word" {
            rejected::<st::SingleHostData>(&b[4..], why)?;
        }
        // a truncated pair of any kind
        let good = mk::av_pair(c, 12).bytes();
        let k = c.below(good.len());
        rejected::<st::AvPair>(&good[..k], "truncated AV pair")?;
        c.evals = 2;
        return Ok(());
    }
    // a legal message, then one invalidating change
    let kind = c.below(3);
    let (mut flags_at, ver_at, hl, fields): (usize, usize, usize, Vec<usize>);
    let mut b;
    let reason;
    match kind {
        0 => {
            let mut n = mk::neg(c);
            if which == 4 && n.version.is_none() {
                n.version = Some(mk::ver(c));
                n.flags |= fl::VERSION;
            }
            n.flags = strict_ok(n.flags);
            b = mk::arrange_neg(c, &n);
            (flags_at, ver_at, hl) = (12, 32, if n.version.is_some() { 40 } else { 32 });
            fields = vec![16, 24];
        }
        1 => {
            let mut ch = mk::chal(c);
            if which == 4 && ch.version.is_none() {
                ch.version = Some(mk::ver(c));
                ch.flags |= fl::VERSION;
            }
            ch.flags = strict_ok(ch.flags);
            if which >= 5 {
                // target information that is no well-formed list
                let (field, why) = bad_list(c);
                let parts = vec![ch.parts()[0].clone(), Some(field)];
                b = mk::arrange(c, &|p| ch.header(p, 0), 56, 56, &parts).0;
                c.label("bad target information");
                c.label(why);
                c.note(|| format!("{why}: {}", mk::hex(&b)));
                return rejected::<Challenge>(&b, why);
            }
            b = mk::arrange_chal(c, &ch, 0);
            (flags_at, ver_at, hl) = (20, 48, if ch.version.is_some() { 56 } else { 48 });
            fields = vec![12, 40];
        }
        _ => {
            let mut a = mk::auth(c);
            if which == 4 && a.version.is_none() {
                a.version = Some(mk::ver(c));
                a.flags |= fl::VERSION;
            }
            a.flags = strict_ok(a.flags);
            b = mk::arrange_auth(c, &a);
            (flags_at, ver_at, hl) = (60, 64, 88);
            // without key exchange the session key field is not looked at
            fields = if fl::has(a.flags, fl::KEY_EXCH) { vec![12, 20, 28, 36, 44, 52] } else { vec![12, 20, 28, 36, 44] };
        }
    }
    let _ = &mut flags_at;
    match which {
        0 => {
            let i = c.below(8);
            b[i] ^= 1 + c.draw(254) as u8;
            reason = "wrong signature";
        }
        1 => {
            let t = match c.below(3) {
                0 => 1 + ((kind as u32 + 1 + c.draw(1) as u32) % 3),
                1 => 0,
                _ => (kind as u32 + 1) ^ (1 << c.draw(31)),
            };
            put(&mut b, 8, &t.to_le_bytes());
            reason = "wrong message type";
        }
        2 => {
            let k = c.below(hl);
            b.truncate(k);
            reason = "truncated header";
        }
        4 => {
            match c.below(2) {
                0 => {
                    let i = 4 + c.below(3);
                    b[ver_at + i] = 1 + c.draw(254) as u8;
                    reason = "version with non-zero reserved bytes";
                }
                _ => {
                    let r = (16 + c.draw(254)) as u8; // wraps around, never 15
                    b[ver_at + 7] = r;
                    reason = "version of unknown revision";
                }
            }
            let slot: [u8; 8] = b[ver_at..ver_at + 8].try_into().unwrap();
            rejected::<st::Version>(&slot, reason)?;
            ensure!(st::Version::try_from(slot).is_err(), "{reason} was converted");
        }
        _ => {
            // a field that does not lie inside the message
            let at = *c.pick(&fields);
            let total = b.len() as u64;
            let len = match c.below(3) {
                0 => 1 + c.draw(40),
                1 => 1 + c.draw(65534),
                _ => 2 * (1 + c.draw(20)),
            };
            // first offset that is out of range
            let min = (total + 1).saturating_sub(len);
            let off = match c.below(4) {
                0 => min,
                1 => min + c.draw(64),
                2 => u32::MAX as u64 - c.draw(70000),
                _ => min.max(c.draw(u32::MAX as u64)),
            };
            put(&mut b, at, &(len as u16).to_le_bytes());
            put(&mut b, at + 4, &(off as u32).to_le_bytes());
            reason = "field outside the message";
        }
    }
    c.label(reason);
    c.label(["NEGOTIATE", "CHALLENGE", "AUTHENTICATE"][kind]);
    c.note(|| format!("{reason}: {}", mk::hex(&b)));
    match kind {
        0 => rejected::<Negotiate>(&b, reason),
        1 => rejected::<Challenge>(&b, reason),
        _ => rejected::<Authenticate>(&b, reason),
    }
}

fn bad_list(c: &mut Case) -> (Vec<u8>, &'static str) {
    let items = mk::av_items(c, 2000);
    match c.below(5) {
        0 => {
            // no end marker
            let mut l = items;
            if l.is_empty() {
                l.push(mk::av_pair(c, 8));
            }
            if c.chance(1, 4) {
                l.insert(0, Av::Eol);
            }
            (sp::av_bytes(&l), "list without end marker")
        }
        1 => {
            // truncated inside its last pairs: the end marker is cut
            let mut b = sp::av_bytes(&items);
            b.extend_from_slice(&[0; 4]);
            let cut = 1 + c.below(3.min(b.len() - 1));
            b.truncate(b.len() - cut);
            // what is left must not end with a shorter end marker
            (b, "list with a truncated end marker")
        }
        2 => {
            let i = c.below(items.len() + 1);
            let (p, _) = bad_pair(c);
            let mut b = sp::av_bytes(&items[..i]);
            b.extend_from_slice(&p);
            b.extend_from_slice(&sp::av_bytes(&items[i..]));
            b.extend_from_slice(&[0; 4]);
            (b, "list with a malformed pair")
        }
        3 => {
            // a pair that claims more than the list holds
            let mut b = sp::av_bytes(&items);
            let id = *c.pick(&[1u16, 2, 3, 4, 5, 9]);
            let v = sp::utf16(&g::text(c, 8));
            b.extend_from_slice(&id.to_le_bytes());
            b.extend_from_slice(&((v.len() + 6) as u16 + 2 * c.draw(30) as u16).to_le_bytes());
            b.extend_from_slice(&v);
            b.extend_from_slice(&[0; 4]);
            (b, "list whose pair runs past its end")
        }
        _ => {
            // real pairs behind the end marker
            let mut b = sp::av_bytes(&items);
            b.extend_from_slice(&[0; 4]);
            let mut p = mk::av_pair(c, 8);
            if p == Av::Eol {
                p = Av::Flags(0);
            }
            b.extend_from_slice(&p.bytes());
            (b, "list that does not end with its end marker")
        }
    }
}

// ---------- C07: text ----------

fn text_everywhere(s: &str, c: &mut Case) -> Outcome {
    let b = encode(&UnicodeString::from(s))?;
    ensure!(b == sp::utf16(s), "{:?} is encoded as {}", s, mk::hex(&b));
    let (v, rest) = decode::<UnicodeString>(&b)?;
    ensure!(rest == 0 && v.as_str() == s, "{:?} reads back as {:?}", mk::short(&s), mk::short(&v));
    let o = encode(&OEMString::from(s))?;
    let (v, rest) = decode::<OEMString>(&o)?;
    ensure!(rest == 0 && v.as_str() == s, "OEM text {:?} reads back as {:?}", mk::short(&s), mk::short(&v));
    let mut n = 2;
    if b.len() <= 65535 {
        for id in [1u16, 2, 3, 4, 5, 9] {
            let a = Av::Text(id, s.to_string());
            let e = encode(&cv::av(&a))?;
            ensure!(e == a.bytes(), "AV pair {id} with text {:?} is encoded as {}", mk::short(&s), mk::hex(&e));
            let (v, rest) = decode::<st::AvPair>(&e)?;
            ensure!(rest == 0 && cv::av_of(&v) == a, "AV pair {id} with text {:?} reads back as {}", mk::short(&s), mk::short(&v));
            n += 1;
        }
    }
    c.evals = n;
    Ok(())
}

fn c07(c: &mut Case) -> Outcome {
    let m = mk::size_class(c);
    let s = g::text(c, m);
    c.note(|| format!("text {}", mk::short(&s)));
    c.nontrivial = !s.is_empty();
    c.label_if(s.chars().any(|x| x as u32 > 0xffff), "outside the BMP");
    c.label_if(s.len() > 1000, "long");
    text_everywhere(&s, c)?;
    if s.is_empty() {
        return Ok(());
    }
    // in every field of the messages
    let which = c.below(7);
    let t = || Some(s.clone());
    match which {
        0 | 1 if s.len() <= 65535 => {
            let mut n = mk::neg(c);
            if which == 0 {
                n.domain = t();
                n.flags |= fl::OEM_DOMAIN;
            } else {
                n.workstation = t();
                n.flags |= fl::OEM_WORKSTATION;
            }
            n.flags = strict_ok(n.flags);
            let b = encode(&cv::negotiate(&n))?;
            let r = sp::parse(&b)?;
            if s.is_ascii() {
                ensure!(r.fields[which] == s.as_bytes(), "ASCII OEM text is carried as {}", mk::hex(&r.fields[which]));
            }
            let (w, _) = decode::<Negotiate>(&b)?;
            ensure!(cv::neg_of(&w)? == n, "NEGOTIATE text changed: {}", mk::short(&w));
        }
        2 => {
            let mut ch = mk::chal(c);
            ch.target = t();
            ch.flags |= fl::REQUEST_TARGET;
            ch.flags = strict_ok(ch.flags);
            if ch.av.len() == 1 {
                ch.av.clear();
            }
            let b = encode(&cv::challenge(&ch)?)?;
            let r = sp::parse(&b)?;
            ensure!(r.fields[0] == sp::utf16(&s), "target name is carried as {}", mk::hex(&r.fields[0]));
            let (w, _) = decode::<Challenge>(&b)?;
            ensure!(cv::chal_of(&w)? == ch, "CHALLENGE text changed: {}", mk::short(&w));
        }
        3 => {
            let mut ch = mk::chal(c);
            let id = *c.pick(&[1u16, 2, 3, 4, 5, 9]);
            let s: String = s.chars().take(15000).collect();
            ch.av = vec![Av::Text(id, s), Av::Eol];
            ch.flags = strict_ok(ch.flags | fl::TARGET_INFO);
            let b = encode(&cv::challenge(&ch)?)?;
            let (w, _) = decode::<Challenge>(&b)?;
            ensure!(cv::chal_of(&w)? == ch, "target information text changed: {}", mk::short(&w));
        }
        _ => {
            let mut a = mk::auth(c);
            let i = match which {
                4 => {
                    a.domain = t();
                    2
                }
                5 => {
                    a.user = t();
                    3
                }
                _ => {
                    a.workstation = t();
                    4
                }
            };
            a.flags = strict_ok(a.flags);
            let b = encode(&cv::authenticate(&a))?;
            let r = sp::parse(&b)?;
            ensure!(r.fields[i] == sp::utf16(&s), "AUTHENTICATE text {i} is carried as {}", mk::hex(&r.fields[i]));
            let (w, _) = decode::<Authenticate>(&b)?;
            ensure!(cv::auth_of(&w)? == a, "AUTHENTICATE text changed: {}", mk::short(&w));
        }
    }
    c.evals += 1;
    Ok(())
}

/// Every scalar value but NUL: alone, and in a run with its neighbours
fn c07_enum(i: u64, c: &mut Case) -> Outcome {
    let lo = i as u32 * 256;
    let run: String = (lo..lo + 256).filter(|v| *v != 0).filter_map(char::from_u32).collect();
    c.nontrivial = !run.is_empty();
    if run.is_empty() {
        return Ok(());
    }
    text_everywhere(&run, c)?;
    let mut n = c.evals;
    for ch in run.chars() {
        text_everywhere(&ch.to_string(), c)?;
        n += c.evals;
        let around: String = ['a', ch, '\u{10ffff}'].iter().collect();
        text_everywhere(&around, c)?;
        n += c.evals;
    }
    c.evals = n;
    Ok(())
}

// ---------- C23: strict mode ----------

fn verdict<T: Codec + PartialEq + std::fmt::Debug>(b: &[u8], what: &str, reject: bool) -> Result<Option<T>, String> {
    match catch(|| T::vp_decode(b)).map_err(|m| format!("{what}: decoding panics: {m}"))? {
        Ok((v, _)) => {
            ensure!(!reject, "{what} was accepted in strict mode: {}", mk::hex(b));
            Ok(Some(v))
        }
        Err(()) => {
            ensure!(reject, "{what} was rejected: {}", mk::hex(b));
            Ok(None)
        }
    }
}

fn c23(c: &mut Case) -> Outcome {
    let strict = cfg!(feature = "strict");
    // flags: half of the time clean, then up to two forbidden features
    let mut f = g::flag_word(c);
    if c.chance(2, 3) {
        f = (f & !fl::RESERVED | fl::UNICODE) & !fl::TYPE_DOMAIN & !fl::LM_KEY;
        if c.flip() {
            f = f & !fl::UNICODE | fl::OEM;
        }
        for _ in 0..c.below(3) {
            match c.below(4) {
                0 => {
                    let r: Vec<u32> = (0..32).filter(|b| fl::RESERVED >> b & 1 == 1).collect();
                    f |= 1 << c.pick(&r);
                }
                1 => f |= fl::TYPE_DOMAIN | fl::TYPE_SERVER,
                2 => f &= !(fl::UNICODE | fl::OEM),
                _ => f |= fl::ESS | fl::LM_KEY,
            }
        }
    }
    let mut ver = mk::opt_ver(c);
    let mut reserved = 0u64;
    match c.below(4) {
        0 => {
            c.label("flags alone");
            let bad = fl::forbidden(f);
            c.note(|| format!("flags {f:08x}"));
            if let Some(v) = verdict::<Flags>(&f.to_le_bytes(), &format!("flag word {f:08x}"), strict && bad)? {
                ensure!(v.0 == f, "flag word {f:08x} was read as {:08x}", v.0);
            }
        }
        1 => {
            let mut n = mk::neg(c);
            n.version = ver.take();
            n.flags = mk::agree(f, fl::VERSION, n.version.is_some());
            f = n.flags;
            c.label("NEGOTIATE");
            let b = mk::arrange_neg(c, &n);
            c.note(|| format!("{} {}", mk::short(&n), mk::hex(&b)));
            if let Some(v) = verdict::<Negotiate>(&b, &format!("NEGOTIATE with flags {f:08x}"), strict && fl::forbidden(f))? {
                ensure!(cv::neg_of(&v)? == n, "NEGOTIATE reads as {} instead of {}", mk::short(&v), mk::short(&n));
            }
        }
        2 => {
            let mut ch = mk::chal(c);
            ch.version = ver.take();
            ch.flags = mk::agree(f, fl::VERSION, ch.version.is_some());
            f = ch.flags;
            if c.chance(1, 3) {
                reserved = match c.below(3) {
                    0 => 1 << c.draw(63),
                    1 => g::int(c, 64),
                    _ => g::int(c, 32) << 32,
                };
            }
            c.label("CHALLENGE");
            c.label_if(reserved != 0, "reserved field not zero");
            let b = mk::arrange_chal(c, &ch, reserved);
            c.note(|| format!("{} reserved {reserved:x} {}", mk::short(&ch), mk::hex(&b)));
            let reject = strict && (fl::forbidden(f) || reserved != 0);
            if let Some(v) = verdict::<Challenge>(&b, &format!("CHALLENGE with flags {f:08x} and reserved {reserved:x}"), reject)? {
                ensure!(cv::chal_of(&v)? == ch, "CHALLENGE reads as {} instead of {}", mk::short(&v), mk::short(&ch));
            }
        }
        _ => {
            let mut a = mk::auth(c);
            a.version = ver.take();
            f = mk::agree(f, fl::VERSION, a.version.is_some());
            f = mk::agree(f, fl::KEY_EXCH, a.key.is_some());
            if a.nt.is_none() {
                f = mk::agree(f, fl::NTLM, fl::has(a.flags, fl::NTLM));
            }
            a.flags = f;
            c.label("AUTHENTICATE");
            let b = mk::arrange_auth(c, &a);
            c.note(|| format!("{} {}", mk::short(&a), mk::hex(&b)));
            if let Some(v) = verdict::<Authenticate>(&b, &format!("AUTHENTICATE with flags {f:08x}"), strict && fl::forbidden(f))? {
                ensure!(cv::auth_of(&v)? == a, "AUTHENTICATE reads as {} instead of {}", mk::short(&v), mk::short(&a));
            }
        }
    }
    c.label(if fl::forbidden(f) || reserved != 0 { "forbidden" } else { "clean" });
    c.nontrivial = true;
    Ok(())
}

/// Every subset of the bits strict mode looks at
fn c23_enum(i: u64, c: &mut Case) -> Outcome {
    let bits: Vec<u32> = (0..32)
        .filter(|b| (fl::RESERVED | fl::TYPE_DOMAIN | fl::TYPE_SERVER | fl::UNICODE | fl::OEM | fl::ESS | fl::LM_KEY) >> b & 1 == 1)
        .collect();
    let mut f = 0u32;
    for (k, b) in bits.iter().enumerate() {
        if i >> k & 1 == 1 {
            f |= 1 << b;
        }
    }
    c.nontrivial = true;
    let reject = cfg!(feature = "strict") && fl::forbidden(f);
    if let Some(v) = verdict::<Flags>(&f.to_le_bytes(), &format!("flag word {f:08x}"), reject)? {
        ensure!(v.0 == f, "flag word {f:08x} was read as {:08x}", v.0);
    }
    Ok(())
}

// ---------- C24: writers ----------

struct Fussy {
    out: Vec<u8>,
    plan: Vec<(u8, usize)>,
    at: usize,
    fail_after: Option<(usize, io::ErrorKind)>,
    faults: u32,
}

impl Write for Fussy {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((n, k)) = self.fail_after {
            if self.out.len() >= n {
                if k == io::ErrorKind::WriteZero {
                    return Ok(0);
                }
                return Err(io::Error::new(k, "injected"));
            }
        }
        let (what, n) = if self.plan.is_empty() { (0, 1) } else { self.plan[self.at % self.plan.len()] };
        self.at += 1;
        // an interruption is never repeated for ever
        if what == 1 && self.at % 3 != 0 {
            self.faults += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
        }
        let mut k = n.max(1).min(buf.len());
        if let Some((lim, _)) = self.fail_after {
            k = k.min(lim - self.out.len());
        }
        if k < buf.len() {
            self.faults += 1;
        }
        self.out.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn writer_case<T: Codec>(c: &mut Case, v: &T, what: &str) -> Outcome {
    let mem = encode(v)?;
    let n = c.below(6);
    let plan: Vec<(u8, usize)> = (0..n)
        .map(|_| {
            let k = match c.below(3) {
                0 => 1,
                1 => 1 + c.below(9),
                _ => 1 + g::len(c, 4000),
            };
            (c.chance(1, 4) as u8, k)
        })
        .collect();
    let fail = c.chance(1, 2);
    let fail_after = fail.then(|| {
        let n = if mem.is_empty() { 0 } else { c.below(mem.len() + 2) };
        let k = *c.pick(&[
            io::ErrorKind::BrokenPipe,
            io::ErrorKind::Other,
            io::ErrorKind::WriteZero,
            io::ErrorKind::WouldBlock,
            io::ErrorKind::TimedOut,
        ]);
        (n, k)
    });
    c.note(|| format!("{what} of {} bytes, writes {plan:?}, failure {fail_after:?}", mem.len()));
    let mut w = Fussy { out: Vec::new(), plan, at: 0, fail_after, faults: 0 };
    let r = catch(|| v.vp_encode_into(&mut w)).map_err(|m| format!("{what}: encoding panics: {m}"))?;
    c.label_if(w.faults > 0, "short or interrupted writes");
    ensure!(mem.starts_with(&w.out), "{what}: the writer received {} which is no prefix of {}", mk::hex(&w.out), mk::hex(&mem));
    match (r, fail_after) {
        (Ok(n), f) => {
            ensure!(
                w.out == mem,
                "{what}: success reported after delivering {} of {} bytes",
                w.out.len(),
                mem.len()
            );
            ensure!(n == mem.len(), "{what}: {n} bytes reported, {} delivered", mem.len());
            if let Some((k, _)) = f {
                ensure!(k >= mem.len(), "{what}: the writer's failure after {k} bytes was not reported");
            }
        }
        (Err(e), Some((k, kind))) => {
            ensure!(k < mem.len(), "{what}: error {e} although the writer failed only after the end");
            ensure!(w.out.len() == k, "{what}: error after {} bytes, the writer failed after {k}", w.out.len());
            ensure!(e.kind() == kind, "{what}: the writer's error {kind:?} is reported as {:?}", e.kind());
            c.label("failure reported");
        }
        (Err(e), None) => return Err(format!("{what}: error {e} from a writer that never fails")),
    }
    c.nontrivial = w.faults > 0 || fail;
    Ok(())
}

fn c24(c: &mut Case) -> Outcome {
    match c.below(12) {
        0 => {
            let v = cv::negotiate(&mk::neg(c));
            writer_case(c, &v, "NEGOTIATE")
        }
        1 => {
            let mut ch = mk::chal(c);
            if ch.av.len() == 1 {
                ch.av.clear();
            }
            let v = cv::challenge(&ch)?;
            writer_case(c, &v, "CHALLENGE")
        }
        2 => {
            let v = cv::authenticate(&mk::auth(c));
            writer_case(c, &v, "AUTHENTICATE")
        }
        3 => {
            let v = cv::av_list(&mk::av_list(c, 20000));
            writer_case(c, &v, "AV pair list")
        }
        4 => {
            let v = cv::av(&mk::av_pair(c, 400));
            writer_case(c, &v, "AV pair")
        }
        5 => {
            let v = cv::blob(&mk::blob(c));
            writer_case(c, &v, "NTLMv2 client challenge")
        }
        6 => {
            let v = cv::nt(&mk::nt(c));
            writer_case(c, &v, "NT response")
        }
        7 => {
            let k = c.flip();
            let v = cv::lm(&mk::lm_kind(c, k));
            writer_case(c, &v, "LM response")
        }
        8 => {
            let v = UnicodeString::from(g::text(c, 400));
            writer_case(c, &v, "Unicode text")
        }
        9 => {
            let v = OEMString::from(g::text(c, 400));
            writer_case(c, &v, "OEM text")
        }
        10 => {
            let v = cv::single(g::int(c, 32) as u32, g::array(c), g::array(c));
            writer_case(c, &v, "single host data")
        }
        _ => match c.below(7) {
            0 => {
                let v = cv::version(mk::ver(c));
                writer_case(c, &v, "version")
            }
            1 => {
                let v = cv::filetime(g::filetime(c));
                writer_case(c, &v, "FILETIME")
            }
            2 => {
                let v = Flags(g::flag_word(c));
                writer_case(c, &v, "flags")
            }
            3 => {
                let v = Field { len: g::int(c, 16) as u16, max_len: 1, offset: g::int(c, 32) as u32 };
                writer_case(c, &v, "field")
            }
            4 => {
                let v = cv::msv_flags(c.draw(7) as u32);
                writer_case(c, &v, "AV flags")
            }
            5 => {
                let v = st::MessageSignature {
                    random_pad: g::array::<4>(c).into(),
                    checksum: g::int(c, 32) as u32,
                    seq_num: g::int(c, 32) as u32,
                };
                writer_case(c, &v, "message signature")
            }
            _ => {
                let v = st::Response24::from(g::array::<24>(c));
                writer_case(c, &v, "response")
            }
        },
    }
}

pub fn all() -> Vec<Property> {
    let base = Property {
        id: "",
        rule: "",
        run: c01,
        cases: 0,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &[],
        exhaustive_note: "",
    };
    vec![
        Property {
            id: "C01",
            rule: "messages in arbitrary legal arrangements with hostile fields, mutated (bytes, words, lengths, offsets, truncation, insertion, duplication), hostile AV lists and blobs, literals of the code, random bytes; every input goes to all 28 decoders. Non-trivial: at least 4 bytes",
            run: c01,
            cases: 6_000_000,
            enum_count: 5 * C01_STEPS * 10,
            enum_run: c01_enum,
            exhaustive_note: "every truncation and nine single-position changes at every position of five fixed messages",
            assumptions: &["panics are observed with debug assertions and overflow checks on", "a hang is a case that uses 40 s of processor time"],
            ..base
        },
        Property {
            id: "C02",
            rule: "values of every message and structure with independently chosen optional parts, texts, AV lists and sizes up to the 16-bit limits; non-trivial: a message with at least one optional part, or a set of 22 structures",
            run: c02,
            cases: 2_800_000,
            assumptions: &[
                "texts without NUL (the decoder ends text at a NUL)",
                "presence flags agree with the parts; the LM response is of the same kind as the NT response, or as the NTLM flag says when there is none",
                "an NTLMv2 proof does not begin with the fixed 8 bytes of a bare client challenge",
            ],
            ..base
        },
        Property {
            id: "C03",
            rule: "as C01, weighted towards lightly damaged AV lists and messages; non-trivial: at least one AV pair or message is accepted",
            run: c03,
            cases: 4_800_000,
            ..base
        },
        Property {
            id: "C04",
            rule: "as C02, compared with an independent MS-NLMP decoder; non-trivial: a message with payload, or a set of 9 structures",
            run: c04,
            cases: 3_500_000,
            assumptions: &["MaxLen equals Len, as MS-NLMP recommends"],
            ..base
        },
        Property {
            id: "C05",
            rule: "values as in C02 laid out by an independent encoder: permuted fields, gaps, shared storage, odd maximum lengths, odd offsets of empty fields, trailing bytes, NEGOTIATE/CHALLENGE without Version slot; non-trivial: at least one non-empty field",
            run: c05,
            cases: 3_600_000,
            assumptions: &["AUTHENTICATE has the full 88-byte fixed part", "texts are Unicode without NUL"],
            ..base
        },
        Property {
            id: "C06",
            rule: "a legal message or AV pair plus one invalidating change of a named class; every case is non-trivial",
            run: c06,
            cases: 6_000_000,
            assumptions: &["bytes after the end marker that form no AV pair are tolerated by design", "an LM response of a size other than 24 bytes is treated as absent by design, and the session key field is ignored without key exchange"],
            ..base
        },
        Property {
            id: "C07",
            rule: "texts of all kinds (ASCII, BMP, astral, case-mapping oddities, boundaries, literals of the code) in every text field and AV pair; non-trivial: non-empty text",
            run: c07,
            cases: 1_400_000,
            enum_count: 0x1100,
            enum_run: c07_enum,
            exhaustive_note: "all 1112063 Unicode scalar values except NUL, alone, in runs and between other characters, in all text codecs",
            ..base
        },
        Property {
            id: "C23",
            rule: "flag words with zero to two forbidden features in flags alone and in all three messages; run in both builds; every case is non-trivial",
            run: c23,
            cases: 2_400_000,
            enum_count: 1 << 16,
            enum_run: c23_enum,
            exhaustive_note: "all 65536 combinations of the 16 bits that strict mode looks at",
            ..base
        },
        Property {
            id: "C24",
            rule: "every message and structure kind encoded to a writer that accepts 1..n bytes, interrupts, or fails with one of five kinds after n bytes; non-trivial: a short, interrupted or failing write happened or was armed",
            run: c24,
            cases: 4_500_000,
            ..base
        },
    ]
}
