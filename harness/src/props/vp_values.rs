//! C19 to C22, C26: message setters, target information, flags, times, small constructors

use crate::vp_client as vc;
use crate::vp_conv::{self as cv, Codec};
use crate::vp_engine::{catch, no_enum, no_finish, Case, Outcome, Property};
use crate::vp_env::{self, HostFile};
use crate::vp_env::Clock;
use crate::vp_gen as g;
use crate::vp_make as mk;
use crate::vp_spec::{self as sp, fl, Av, Lm};
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::time::{Duration, SystemTime};

// ---------- C19 ----------

/// A change of an unrelated flag between setter calls
fn touch(c: &mut Case, f: &mut Flags, model: &mut u32, owned: u32) {
    let bit = c.draw(31) as u32;
    if owned & (1 << bit) != 0 {
        return;
    }
    if c.flip() {
        f.set_flag(bit);
        *model |= 1 << bit;
    } else {
        f.clear_flag(bit);
        *model &= !(1 << bit);
    }
}

fn c19(c: &mut Case) -> Outcome {
    let steps = 1 + c.below(12);
    let (mut sets, mut clears) = (0, 0);
    match c.below(3) {
        0 => {
            let owned = fl::OEM_DOMAIN | fl::OEM_WORKSTATION;
            let start = if c.flip() { Some(mk::neg(c)) } else { None };
            let (mut m, mut flags, mut d, mut w) = match &start {
                None => (Negotiate::default(), fl::UNICODE, None, None),
                Some(n) => {
                    let mut n = n.clone();
                    if cfg!(feature = "strict") {
                        n.flags = n.flags & !(fl::RESERVED | fl::LM_KEY | fl::TYPE_DOMAIN) | fl::UNICODE;
                    }
                    let b = n.bytes();
                    let m = Negotiate::vp_decode(&b).map_err(|_| "NEGOTIATE does not decode")?.0;
                    (m, n.flags, mk::norm(n.domain.clone()), mk::norm(n.workstation.clone()))
                }
            };
            c.label("NEGOTIATE");
            c.label_if(start.is_some(), "decoded message");
            for _ in 0..steps {
                match c.below(3) {
                    0 => {
                        d = c.chance(2, 3).then(|| g::text(c, 20));
                        c.note(|| format!("domain {d:?}"));
                        m.set_domain_name(d.clone());
                        flags = mk::agree(flags, fl::OEM_DOMAIN, d.is_some());
                        if d.is_some() { sets += 1 } else { clears += 1 }
                    }
                    1 => {
                        w = c.chance(2, 3).then(|| g::text(c, 20));
                        c.note(|| format!("workstation {w:?}"));
                        m.set_workstation(w.clone());
                        flags = mk::agree(flags, fl::OEM_WORKSTATION, w.is_some());
                        if w.is_some() { sets += 1 } else { clears += 1 }
                    }
                    _ => touch(c, &mut m.negotiate_flags, &mut flags, owned),
                }
                ensure!(m.get_domain_name() == d.as_ref(), "domain is {:?}, not {d:?}", m.get_domain_name());
                ensure!(m.get_workstation() == w.as_ref(), "workstation is {:?}, not {w:?}", m.get_workstation());
                ensure!(m.negotiate_flags.0 == flags, "NEGOTIATE flags {:08x} instead of {flags:08x} with domain {d:?} workstation {w:?}", m.negotiate_flags.0);
                let r = sp::parse(&catch(|| m.vp_encode())?)?;
                ensure!(r.flags == flags, "encoded flags {:08x}", r.flags);
                ensure!(r.fields[0] == d.clone().unwrap_or_default().into_bytes(), "encoded domain {}", mk::hex(&r.fields[0]));
                ensure!(r.fields[1] == w.clone().unwrap_or_default().into_bytes(), "encoded workstation {}", mk::hex(&r.fields[1]));
            }
        }
        1 => {
            let start = if c.flip() { Some(mk::server_challenge(c)) } else { None };
            let (mut m, mut flags, mut t) = match &start {
                None => (Challenge::default(), fl::UNICODE, None),
                Some(n) => (vc::decode_challenge(&n.bytes())?, n.flags, mk::norm(n.target.clone())),
            };
            let mut av: Vec<Av> = cv::av_list_of(m.get_target_infos());
            c.label("CHALLENGE");
            c.label_if(start.is_some(), "decoded message");
            for _ in 0..steps {
                match c.below(4) {
                    0 | 1 => {
                        t = c.chance(2, 3).then(|| g::text(c, 20));
                        c.note(|| format!("target {t:?}"));
                        m.set_target_name(t.clone());
                        flags = mk::agree(flags, fl::REQUEST_TARGET, t.is_some());
                        if t.is_some() { sets += 1 } else { clears += 1 }
                    }
                    2 => {
                        let name = g::text(c, 10);
                        m.target_infos_add_domainname(name.clone());
                        let at = av.len().saturating_sub(1);
                        if av.is_empty() {
                            av.push(Av::Eol);
                        }
                        av.insert(at, Av::Text(2, name));
                        flags |= fl::TARGET_INFO;
                    }
                    _ => touch(c, &mut m.negotiate_flags, &mut flags, fl::REQUEST_TARGET | fl::TARGET_INFO),
                }
                ensure!(m.get_target_name().map(|s| s.to_string()) == t, "target name is {:?}, not {t:?}", m.get_target_name());
                ensure!(m.negotiate_flags.0 == flags, "CHALLENGE flags {:08x} instead of {flags:08x} with target {t:?}", m.negotiate_flags.0);
                ensure!(cv::av_list_of(m.get_target_infos()) == av, "target information is {}", mk::short(&m.get_target_infos()));
                let r = sp::parse(&catch(|| m.vp_encode())?)?;
                ensure!(r.flags == flags, "encoded flags {:08x}", r.flags);
                ensure!(r.fields[0] == sp::utf16(&t.clone().unwrap_or_default()), "encoded target name {}", mk::hex(&r.fields[0]));
            }
        }
        _ => {
            let start = if c.flip() { Some(mk::auth(c)) } else { None };
            let (mut m, mut flags, mut k): (Authenticate, u32, Option<[u8; 16]>) = match &start {
                None => (Authenticate::default(), fl::UNICODE, None),
                Some(n) => {
                    let mut n = n.clone();
                    if cfg!(feature = "strict") {
                        n.flags = n.flags & !(fl::RESERVED | fl::LM_KEY | fl::TYPE_DOMAIN) | fl::UNICODE;
                    }
                    let m = Authenticate::vp_decode(&n.bytes()).map_err(|_| "AUTHENTICATE does not decode")?.0;
                    (m, n.flags, n.key)
                }
            };
            c.label("AUTHENTICATE");
            c.label_if(start.is_some(), "decoded message");
            for _ in 0..steps {
                if c.chance(2, 3) {
                    k = c.chance(2, 3).then(|| g::array(c));
                    c.note(|| format!("session key {k:?}"));
                    m.set_encrypted_random_session_key(k.map(Into::into));
                    flags = mk::agree(flags, fl::KEY_EXCH, k.is_some());
                    if k.is_some() { sets += 1 } else { clears += 1 }
                } else {
                    touch(c, &mut m.negotiate_flags, &mut flags, fl::KEY_EXCH);
                }
                ensure!(m.get_encrypted_random_session_key().map(|x| x.to_vec()) == k.map(|x| x.to_vec()), "session key is {:?}, not {k:?}", m.get_encrypted_random_session_key());
                ensure!(m.negotiate_flags.0 == flags, "AUTHENTICATE flags {:08x} instead of {flags:08x} with session key {k:?}", m.negotiate_flags.0);
                let r = sp::parse(&catch(|| m.vp_encode())?)?;
                ensure!(r.flags == flags, "encoded flags {:08x}", r.flags);
                ensure!(r.fields[5] == k.map(|x| x.to_vec()).unwrap_or_default(), "encoded session key {}", mk::hex(&r.fields[5]));
            }
        }
    }
    c.label_if(sets > 0 && clears > 0, "set and cleared");
    c.nontrivial = sets > 0;
    Ok(())
}

// ---------- C20 ----------

fn add(m: &mut Challenge, a: &Av) {
    match a {
        Av::Eol => (),
        Av::Text(1, s) => { m.target_infos_add_computername(s.clone()); },
        Av::Text(2, s) => { m.target_infos_add_domainname(s.clone()); },
        Av::Text(3, s) => { m.target_infos_add_dnscomputername(s.clone()); },
        Av::Text(4, s) => { m.target_infos_add_dnsdomainname(s.clone()); },
        Av::Text(5, s) => { m.target_infos_add_dnstreename(s.clone()); },
        Av::Text(_, s) => { m.target_infos_add_targetname(s.clone()); },
        Av::Flags(f) => { m.target_infos_add_flags(cv::msv_flags(*f)); },
        Av::Time(t) => { m.target_infos_add_timestamp(cv::filetime(*t)); },
        Av::Single { size, custom, machine } => {
            { m.target_infos_add_singlehost(cv::single(*size, *custom, *machine)); }
        }
        Av::Bindings(b) => { m.target_infos_add_channelbindings(*b); },
    }
}

fn env_value(c: &mut Case) -> Option<Vec<u8>> {
    match c.weighted(&[4, 8, 1, 1]) {
        0 => None,
        1 => Some(g::text(c, 24).into_bytes().into_iter().filter(|b| *b != 0).collect()),
        2 => Some(vec![]),
        _ => {
            let mut v = b"name".to_vec();
            v.push(*c.pick(&[0xffu8, 0xc3, 0x80]));
            Some(v)
        }
    }
}

fn c20(c: &mut Case) -> Outcome {
    let decoded = c.chance(1, 3);
    let (mut m, mut model) = if decoded {
        c.label("decoded challenge");
        let mut ch = mk::server_challenge(c);
        // one end marker, at the end
        let had = !ch.av.is_empty();
        ch.av.retain(|a| *a != Av::Eol);
        let model = ch.av.clone();
        if had {
            ch.av.push(Av::Eol);
        }
        c.label_if(model.is_empty() && had, "only an end marker");
        c.label_if(!had, "no target information");
        (vc::decode_challenge(&ch.bytes())?, model)
    } else {
        (Challenge::default(), vec![])
    };
    let before = model.len();
    let f0 = m.negotiate_flags.0;
    let steps = 1 + c.below(10);
    let mut added = 0;
    for _ in 0..steps {
        if c.chance(1, 6) {
            c.label("from the environment");
            let vals: Vec<Option<Vec<u8>>> = (0..4).map(|_| env_value(c)).collect();
            let vars: Vec<(&str, Option<Vec<u8>>)> =
                vp_env::VARS.iter().copied().zip(vals.iter().cloned()).collect();
            c.note(|| format!("environment {vals:?}"));
            {
                let _g = vp_env::with(&vars, HostFile::OpenError(libc::ENOENT));
                catch(|| m.fill_from_env())?;
            }
            let mut want = Vec::new();
            for (i, v) in vals.iter().enumerate() {
                if let Some(s) = v.as_ref().and_then(|v| String::from_utf8(v.clone()).ok()) {
                    // COMPUTERNAME, COMPUTERDNSNAME, USERDOMAIN, USERDNSDOMAIN
                    want.push(match i {
                        0 => Av::Text(1, s.to_uppercase()),
                        1 => Av::Text(3, s),
                        2 => Av::Text(2, s.to_uppercase()),
                        _ => Av::Text(4, s),
                    });
                }
            }
            // the order among the names taken at once is free
            let got = cv::av_list_of(m.get_target_infos());
            let new: Vec<Av> = got.iter().skip(model.len()).take(want.len()).cloned().collect();
            for w in &want {
                ensure!(new.contains(w), "environment {vals:?}: {w:?} missing, added {new:?}");
            }
            added += want.len();
            model.extend(new);
        } else {
            let a = mk::av_pair(c, 20);
            c.note(|| format!("add {}", mk::short(&a)));
            catch(|| add(&mut m, &a))?;
            model.push(a);
            added += 1;
        }
        let mut want = model.clone();
        if !(model.len() == before && added == 0) {
            want.push(Av::Eol);
        } else {
            continue;
        }
        let got = cv::av_list_of(m.get_target_infos());
        ensure!(got == want, "target information {} instead of {}", mk::short(&got), mk::short(&want));
        ensure!(
            m.negotiate_flags.0 == f0 | fl::TARGET_INFO,
            "flags {:08x} after adding to a challenge with {f0:08x}",
            m.negotiate_flags.0
        );
    }
    if added == 0 {
        return Ok(());
    }
    c.nontrivial = true;
    let mut want = model;
    want.push(Av::Eol);
    if sp::av_bytes(&want).len() > 65535 {
        return Ok(());
    }
    let b = catch(|| m.vp_encode())?;
    let r = sp::parse(&b)?;
    ensure!(r.flags & fl::TARGET_INFO != 0, "encoded flags {:08x} lack target information", r.flags);
    ensure!(r.fields[1] == sp::av_bytes(&want), "encoded target information {}", mk::hex(&r.fields[1]));
    let d = Challenge::vp_decode(&b).map_err(|_| "the encoded challenge does not decode")?.0;
    ensure!(cv::av_list_of(d.get_target_infos()) == want, "decoded target information {}", mk::short(&d.get_target_infos()));
    Ok(())
}

// ---------- C21 ----------

fn flags_word(w: u32, detail: bool) -> Outcome {
    let want: Vec<&str> = (0..32).filter(|i| w & (1u32 << (31 - i)) != 0).map(|i| fl::NAMES[i as usize]).collect();
    let text = format!("{:?}", Flags(w));
    ensure!(text == want.join("|"), "{w:08x} prints as {text:?}");
    if detail {
        let alt = format!("{:#?}", Flags(w));
        ensure!(alt == want.join("|"), "{w:08x} prints as {alt:?} in a pretty-printed structure");
    }
    for bit in 0..32u32 {
        ensure!(Flags(w).has_flag(bit) == (w >> bit & 1 == 1), "{w:08x}: bit {bit} tests as {}", Flags(w).has_flag(bit));
        let mut f = Flags(w);
        f.set_flag(bit);
        ensure!(f.0 == w | 1 << bit, "{w:08x}: setting bit {bit} gives {:08x}", f.0);
        let mut f = Flags(w);
        f.clear_flag(bit);
        ensure!(f.0 == w & !(1 << bit), "{w:08x}: clearing bit {bit} gives {:08x}", f.0);
    }
    let b = catch(|| Flags(w).vp_encode())?;
    ensure!(b == w.to_le_bytes(), "{w:08x} is encoded as {}", mk::hex(&b));
    if cfg!(feature = "strict") && fl::forbidden(w) {
        return Ok(());
    }
    match Flags::vp_decode(&b) {
        Ok((f, 0)) if f.0 == w => Ok(()),
        r => Err(format!("{w:08x} decodes to {r:?}")),
    }
}

fn c21(c: &mut Case) -> Outcome {
    let w = g::flag_word(c);
    c.note(|| format!("{w:08x}"));
    c.nontrivial = w != 0;
    flags_word(w, true)?;
    // sequences of operations
    let mut f = Flags(w);
    let mut model = w;
    for _ in 0..c.below(20) {
        let bit = c.draw(31) as u32;
        match c.below(3) {
            0 => {
                f.set_flag(bit);
                model |= 1 << bit;
            }
            1 => {
                f.clear_flag(bit);
                model &= !(1 << bit);
            }
            _ => ensure!(f.has_flag(bit) == (model >> bit & 1 == 1), "bit {bit} of {model:08x}"),
        }
        ensure!(f.0 == model, "{:08x} instead of {model:08x}", f.0);
    }
    ensure!(f == Flags(model) && (f == Flags(w)) == (model == w), "comparison of {model:08x}");
    Ok(())
}

/// every pattern of each half word, over an empty and a full other half
fn c21_enum(i: u64, c: &mut Case) -> Outcome {
    let lo = (i & 0xffff) as u32;
    c.evals = 4;
    c.nontrivial = true;
    for w in [lo, lo << 16, lo | 0xffff_0000, lo << 16 | 0xffff] {
        flags_word(w, false)?;
    }
    Ok(())
}

// ---------- C22 ----------

const TICKS_1970: i128 = 116_444_736_000_000_000;

fn ticks_of(t: SystemTime) -> (i128, i128) {
    // nanoseconds since 1970, and whole 100 ns intervals since 1601
    let ns: i128 = match t.duration_since(SystemTime::UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    };
    (ns, ns.div_euclid(100) + TICKS_1970)
}

fn instant(c: &mut Case) -> Option<SystemTime> {
    let secs = match c.weighted(&[4, 4, 3, 2, 2]) {
        0 => c.draw(4_000_000_000),
        1 => c.draw(1_833_029_933_770),
        2 => g::int(c, 40),
        3 => 1_833_029_933_760 + c.draw(40),
        _ => c.draw(4),
    };
    let nanos = match c.weighted(&[3, 4, 2, 2]) {
        0 => 0,
        1 => c.draw(999_999_999),
        2 => 999_999_999 - c.draw(200),
        _ => c.draw(300),
    };
    let d = Duration::new(secs, nanos as u32);
    if c.chance(1, 10) {
        SystemTime::UNIX_EPOCH.checked_sub(d)
    } else {
        SystemTime::UNIX_EPOCH.checked_add(d)
    }
}

/// Converts and checks one instant
fn convert(t: SystemTime) -> Result<Option<u64>, String> {
    let (ns, want) = ticks_of(t);
    let r = catch(|| st::FileTime::try_from(t))?;
    match r {
        Ok(f) => {
            ensure!(f.as_u64() as i128 == want, "{ns} ns since 1970 become {} instead of {want}", f.as_u64());
            ensure!(f.as_u64() == cv::time_of(&f), "as_u64 of {f:?} is {}", f.as_u64());
            let back = f.to_system_time().ok_or_else(|| format!("{f:?} has no system time"))?;
            let (b, _) = ticks_of(back);
            ensure!(b <= ns && ns - b < 100, "{ns} ns come back as {b} ns");
            Ok(Some(f.as_u64()))
        }
        Err(_) => {
            ensure!(
                want > u64::MAX as i128 || ns < 0,
                "{ns} ns since 1970 are refused"
            );
            Ok(None)
        }
    }
}

fn c22(c: &mut Case) -> Outcome {
    c.nontrivial = true;
    match c.below(4) {
        0 => {
            let (Some(a), Some(b)) = (instant(c), instant(c)) else { return Ok(()) };
            c.note(|| format!("{a:?} {b:?}"));
            let near = a.checked_add(Duration::from_nanos(c.draw(2000))).unwrap_or(a);
            let (x, y, z) = (convert(a)?, convert(b)?, convert(near)?);
            if let (Some(x), Some(y)) = (x, y) {
                ensure!((a <= b && x <= y) || (a >= b && x >= y), "{a:?} and {b:?} become {x} and {y}");
            }
            if let (Some(x), Some(z)) = (x, z) {
                ensure!(x <= z, "the later instant {near:?} becomes {z}, {a:?} becomes {x}");
            }
        }
        1 | 2 => {
            let t = g::filetime(c);
            c.note(|| format!("FILETIME {t}"));
            let f = cv::filetime(t);
            ensure!(f.as_u64() == t, "as_u64 of {f:?} is {}", f.as_u64());
            let s = catch(|| f.to_system_time())?.ok_or_else(|| format!("FILETIME {t} has no system time"))?;
            let (ns, ticks) = ticks_of(s);
            ensure!(ticks == t as i128 && ns % 100 == 0, "FILETIME {t} denotes {ns} ns since 1970, that is {ticks}");
            if ns >= 0 {
                ensure!(convert(s)? == Some(t), "FILETIME {t} does not come back");
            }
            let b = catch(|| f.vp_encode())?;
            ensure!(b == t.to_le_bytes(), "FILETIME {t} is encoded as {}", mk::hex(&b));
            let d = st::FileTime::vp_decode(&b).map_err(|_| format!("FILETIME {t} does not decode"))?;
            ensure!(d.0 == f && d.1 == 0, "FILETIME {t} decodes to {:?}", d.0);
        }
        _ => {
            c.label("now");
            let _clock = c.chance(3, 4).then(|| Clock::at(g::clock(c)));
            c.label_if(_clock.is_some(), "any clock reading");
            let before = SystemTime::now();
            let f = catch(st::FileTime::now)?;
            let after = SystemTime::now();
            ensure!(
                vc::ticks(before) <= f.as_u64() && f.as_u64() <= vc::ticks(after),
                "now is {} between {} and {}",
                f.as_u64(),
                vc::ticks(before),
                vc::ticks(after)
            );
        }
    }
    Ok(())
}

// ---------- C26 ----------

fn c26(c: &mut Case) -> Outcome {
    c.nontrivial = true;
    let (sc, cc): ([u8; 8], [u8; 8]) = (g::array(c), g::array(c));
    let n = if c.chance(3, 4) { 16 } else { g::len(c, 100) };
    let hash = g::bytes(c, n);
    c.note(|| format!("sc {} cc {} hash {}", mk::hex(&sc), mk::hex(&cc), mk::hex(&hash)));
    let v1 = catch(|| st::Lmv1Challenge::from_client_challenge(&cc.into()))?;
    let mut want = [0u8; 24];
    want[..8].copy_from_slice(&cc);
    ensure!(v1.response[..] == want, "LM response from client challenge {} is {:?}", mk::hex(&cc), v1.response);
    ensure!(cv::lm_of(&v1.into()) == Lm::V1(want), "LM response changes when wrapped");
    let v2 = catch(|| st::Lmv2Challenge::from_server_challenge(&sc.into(), &hash, &cc.into()))?;
    let r = sp::hmac(&hash, &[&sc, &cc]);
    ensure!(
        v2.response[..] == r && v2.challenge_from_client[..] == cc,
        "LMv2 response is {:?} {:?} instead of {} {}",
        v2.response,
        v2.challenge_from_client,
        mk::hex(&r),
        mk::hex(&cc)
    );
    ensure!(catch(|| v2.vp_encode())? == Lm::V2(r, cc).bytes(), "encoded LMv2 response is wrong");
    ensure!(cv::lm_of(&v2.into()) == Lm::V2(r, cc), "LMv2 response changes when wrapped");

    let v = mk::ver(c);
    let made: st::Version = v.into();
    ensure!(made == cv::version(v), "version {v:?} becomes {made:?}");
    ensure!(catch(|| made.vp_encode())? == sp::ver_bytes(v), "version {v:?} is encoded wrongly");
    let mut raw = sp::ver_bytes(v);
    let damage = c.chance(1, 2);
    if damage {
        let i = 4 + c.below(4);
        raw[i] = g::int(c, 8) as u8;
    }
    let good = raw[4..] == [0, 0, 0, 15];
    c.label_if(!good, "invalid version");
    match (st::Version::try_from(raw), good) {
        (Ok(x), true) => ensure!(x == cv::version(v), "{} becomes {x:?}", mk::hex(&raw)),
        (Err(()), false) => {}
        (r, _) => return Err(format!("version {} becomes {r:?}", mk::hex(&raw))),
    }
    match (st::Version::vp_decode(&raw), good) {
        (Ok((x, 0)), true) => ensure!(x == cv::version(v), "{} decodes to {x:?}", mk::hex(&raw)),
        (Err(()), false) => {}
        (r, _) => return Err(format!("version {} decodes to {r:?}", mk::hex(&raw))),
    }

    let pad: [u8; 4] = g::array(c);
    let (sum, seq) = (g::int(c, 32) as u32, g::int(c, 32) as u32);
    let s = st::MessageSignature { random_pad: pad.into(), checksum: sum, seq_num: seq };
    let mut want = vec![1, 0, 0, 0];
    want.extend_from_slice(&pad);
    want.extend_from_slice(&sum.to_le_bytes());
    want.extend_from_slice(&seq.to_le_bytes());
    let b = catch(|| s.vp_encode())?;
    ensure!(b == want, "signature is encoded as {} instead of {}", mk::hex(&b), mk::hex(&want));
    let mut w = want.clone();
    if c.flip() {
        let v = g::int(c, 32) as u32;
        w[..4].copy_from_slice(&v.to_le_bytes());
    }
    if c.chance(1, 5) {
        let n = c.below(16);
        w.truncate(n);
    }
    let ok = w.len() == 16 && w[..4] == [1, 0, 0, 0];
    match (st::MessageSignature::vp_decode(&w), ok) {
        (Ok((x, 0)), true) => ensure!(x == s, "signature decodes to {x:?}"),
        (Err(()), false) => {}
        (r, _) => return Err(format!("signature {} decodes to {r:?}", mk::hex(&w))),
    }

    let k: [u8; 16] = g::array(c);
    let e: st::EncryptedRandomSessionKey = st::ExportedSessionKey::from(k).into();
    ensure!(e[..] == k, "session key {} becomes {e:?}", mk::hex(&k));
    let x: st::KeyExchangeKey = st::SessionBaseKey::from(k).into();
    ensure!(x[..] == k, "session base key {} becomes {x:?}", mk::hex(&k));
    Ok(())
}

pub fn all() -> Vec<Property> {
    let base = Property {
        id: "",
        rule: "",
        run: c19,
        cases: 0,
        enum_count: 0,
        enum_run: no_enum,
        finish: no_finish,
        assumptions: &[],
        exhaustive_note: "",
    };
    vec![
        Property {
            id: "C19",
            rule: "1 to 12 setter calls and changes of unrelated flags on new and decoded messages of all three types, checked after every step; non-trivial: at least one part was set",
            run: c19,
            cases: 3_500_000,
            ..base
        },
        Property {
            id: "C20",
            rule: "1 to 10 additions of all ten kinds or from a generated environment, to new and decoded challenges, checked after every step and after encoding; non-trivial: something was added",
            run: c20,
            cases: 1_000_000,
            assumptions: &["the order among names taken from the environment at once is not specified", "decoded challenges start with at most one end marker"],
            ..base
        },
        Property {
            id: "C21",
            rule: "flag words with all 32 bits tested, set and cleared, printed, encoded and decoded, and operation sequences; non-trivial: a non-zero word",
            run: c21,
            cases: 4_000_000,
            enum_count: 1 << 16,
            enum_run: c21_enum,
            exhaustive_note: "all 65536 patterns of each half word over an empty and a full other half, with every bit operation",
            ..base
        },
        Property {
            id: "C22",
            rule: "pairs of instants (boundaries of the epochs, sub-interval differences), 64-bit values, the clock; every case is non-trivial",
            run: c22,
            cases: 15_000_000,
            assumptions: &["instants before 1970 may be refused", "the wall clock does not step backwards during a call"],
            ..base
        },
        Property {
            id: "C26",
            rule: "arbitrary challenges, keys, versions (valid and damaged), signatures (valid, other versions, truncated); every case is non-trivial",
            run: c26,
            cases: 7_500_000,
            ..base
        },
    ]
}
