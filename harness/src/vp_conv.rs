//! Conversions between the plain values and the crate's types

use crate::vp_spec::*;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};

pub use http_ntlm::messages::vp_hooks::Codec;

pub fn version(v: Ver) -> st::Version {
    st::Version {
        major: v.0,
        minor: v.1,
        build: v.2,
        revision_count: 15,
    }
}
pub fn ver_of(v: &st::Version) -> Result<Ver, String> {
    if v.revision_count != 15 {
        return Err(format!("version revision {}", v.revision_count));
    }
    Ok((v.major, v.minor, v.build))
}

pub fn filetime(t: u64) -> st::FileTime {
    st::FileTime {
        low: t as u32,
        high: (t >> 32) as u32,
    }
}
pub fn time_of(t: &st::FileTime) -> u64 {
    (t.high as u64) << 32 | t.low as u64
}

pub fn msv_flags(f: u32) -> st::MsvAvFlags {
    st::MsvAvFlags {
        account_authentication_constrained: f & 1 != 0,
        mic_present: f & 2 != 0,
        generated_spn_from_untrusted_source: f & 4 != 0,
    }
}

pub fn single(size: u32, custom: [u8; 8], machine: [u8; 32]) -> st::SingleHostData {
    st::SingleHostData {
        size,
        z4: 0,
        custom_data: custom,
        machine_id: machine,
    }
}

pub fn av(a: &Av) -> st::AvPair {
    use st::AvPair as P;
    match a {
        Av::Eol => P::MsvAvEOL,
        Av::Text(1, s) => P::MsvAvNbComputerName(s.clone()),
        Av::Text(2, s) => P::MsvAvNbDomainName(s.clone()),
        Av::Text(3, s) => P::MsvAvDnsComputerName(s.clone()),
        Av::Text(4, s) => P::MsvAvDnsDomainName(s.clone()),
        Av::Text(5, s) => P::MsvAvDnsTreeName(s.clone()),
        Av::Text(_, s) => P::MsvAvTargetName(s.clone()),
        Av::Flags(f) => P::MsvAvFlags(msv_flags(*f)),
        Av::Time(t) => P::MsvAvTimestamp(filetime(*t)),
        Av::Single { size, custom, machine } => P::MsvAvSingleHost(single(*size, *custom, *machine)),
        Av::Bindings(b) => P::MsvAvChannelBindings(*b),
    }
}

pub fn av_of(p: &st::AvPair) -> Av {
    use st::AvPair as P;
    match p {
        P::MsvAvEOL => Av::Eol,
        P::MsvAvNbComputerName(s) => Av::Text(1, s.clone()),
        P::MsvAvNbDomainName(s) => Av::Text(2, s.clone()),
        P::MsvAvDnsComputerName(s) => Av::Text(3, s.clone()),
        P::MsvAvDnsDomainName(s) => Av::Text(4, s.clone()),
        P::MsvAvDnsTreeName(s) => Av::Text(5, s.clone()),
        P::MsvAvTargetName(s) => Av::Text(9, s.clone()),
        P::MsvAvFlags(f) => Av::Flags(
            f.account_authentication_constrained as u32
                | (f.mic_present as u32) << 1
                | (f.generated_spn_from_untrusted_source as u32) << 2,
        ),
        P::MsvAvTimestamp(t) => Av::Time(time_of(t)),
        P::MsvAvSingleHost(s) => Av::Single {
            size: s.size,
            custom: s.custom_data,
            machine: s.machine_id,
        },
        P::MsvAvChannelBindings(b) => Av::Bindings(*b),
    }
}

pub fn av_list(l: &[Av]) -> Vec<st::AvPair> {
    l.iter().map(av).collect()
}
pub fn av_list_of(l: &[st::AvPair]) -> Vec<Av> {
    l.iter().map(av_of).collect()
}

pub fn negotiate(n: &Neg) -> Negotiate {
    let mut m = Negotiate::default();
    m.set_domain_name(n.domain.clone());
    m.set_workstation(n.workstation.clone());
    m.version = n.version.map(version);
    m.negotiate_flags = Flags(n.flags);
    m
}
pub fn neg_of(m: &Negotiate) -> Result<Neg, String> {
    Ok(Neg {
        flags: m.negotiate_flags.0,
        domain: m.get_domain_name().cloned(),
        workstation: m.get_workstation().cloned(),
        version: m.version.as_ref().map(ver_of).transpose()?,
    })
}

/// The part of a challenge its public setters can express; flags are set last
pub fn challenge(ch: &Chal) -> Result<Challenge, String> {
    let mut m = Challenge::default();
    m.set_target_name(ch.target.clone());
    m.server_challenge = ch.sc.into();
    m.version = ch.version.map(version);
    let n = ch.av.len();
    for (i, a) in ch.av.iter().enumerate() {
        match a {
            Av::Eol if i + 1 == n && n > 1 => {}
            Av::Eol => return Err("end marker inside the list".into()),
            Av::Text(1, s) => {
                m.target_infos_add_computername(s.clone());
            }
            Av::Text(2, s) => {
                m.target_infos_add_domainname(s.clone());
            }
            Av::Text(3, s) => {
                m.target_infos_add_dnscomputername(s.clone());
            }
            Av::Text(4, s) => {
                m.target_infos_add_dnsdomainname(s.clone());
            }
            Av::Text(5, s) => {
                m.target_infos_add_dnstreename(s.clone());
            }
            Av::Text(_, s) => {
                m.target_infos_add_targetname(s.clone());
            }
            Av::Flags(f) => {
                m.target_infos_add_flags(msv_flags(*f));
            }
            Av::Time(t) => {
                m.target_infos_add_timestamp(filetime(*t));
            }
            Av::Single { size, custom, machine } => {
                m.target_infos_add_singlehost(single(*size, *custom, *machine));
            }
            Av::Bindings(b) => {
                m.target_infos_add_channelbindings(*b);
            }
        }
    }
    m.negotiate_flags = Flags(ch.flags);
    Ok(m)
}
pub fn chal_of(m: &Challenge) -> Result<Chal, String> {
    Ok(Chal {
        flags: m.negotiate_flags.0,
        target: m.get_target_name().map(|s| s.to_string()),
        sc: m.server_challenge[..].try_into().map_err(|_| "server challenge size".to_string())?,
        av: av_list_of(m.get_target_infos()),
        version: m.version.as_ref().map(ver_of).transpose()?,
    })
}

fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(b);
    a
}

pub fn blob(b: &Blob) -> st::Ntv2Challenge {
    st::Ntv2Challenge {
        timestamp: filetime(b.time),
        challenge_from_client: b.cc.into(),
        target_infos: av_list(&b.av),
    }
}
pub fn blob_of(b: &st::Ntv2Challenge) -> Blob {
    Blob {
        time: time_of(&b.timestamp),
        cc: arr(&b.challenge_from_client),
        av: av_list_of(&b.target_infos),
    }
}

pub fn nt(n: &Nt) -> st::NtChallenge {
    match n {
        Nt::V1(r) => st::NtChallenge::V1(st::Ntv1Challenge { response: (*r).into() }),
        Nt::V2(b) => st::NtChallenge::V2(blob(b)),
        Nt::Resp(p, b) => st::NtChallenge::V2Response((*p).into(), blob(b)),
    }
}
pub fn nt_of(n: &st::NtChallenge) -> Nt {
    match n {
        st::NtChallenge::V1(r) => Nt::V1(arr(&r.response)),
        st::NtChallenge::V2(b) => Nt::V2(blob_of(b)),
        st::NtChallenge::V2Response(p, b) => Nt::Resp(arr(p), blob_of(b)),
    }
}
pub fn lm(l: &Lm) -> st::LmChallenge {
    match l {
        Lm::V1(r) => st::LmChallenge::V1(st::Lmv1Challenge { response: (*r).into() }),
        Lm::V2(r, c) => st::LmChallenge::V2(st::Lmv2Challenge {
            response: (*r).into(),
            challenge_from_client: (*c).into(),
        }),
    }
}
pub fn lm_of(l: &st::LmChallenge) -> Lm {
    match l {
        st::LmChallenge::V1(r) => Lm::V1(arr(&r.response)),
        st::LmChallenge::V2(r) => Lm::V2(arr(&r.response), arr(&r.challenge_from_client)),
    }
}

pub fn authenticate(a: &Auth) -> Authenticate {
    let mut m = Authenticate::default();
    m.lm_challenge_response = a.lm.as_ref().map(lm);
    m.nt_challenge_response = a.nt.as_ref().map(nt);
    m.domain = a.domain.clone().map(Into::into);
    m.user = a.user.clone().map(Into::into);
    m.workstation = a.workstation.clone().map(Into::into);
    m.set_encrypted_random_session_key(a.key.map(Into::into));
    m.version = a.version.map(version);
    m.mic = a.mic.into();
    m.exported_session_key = None;
    m.negotiate_flags = Flags(a.flags);
    m
}
pub fn auth_of(m: &Authenticate) -> Result<Auth, String> {
    Ok(Auth {
        flags: m.negotiate_flags.0,
        lm: m.lm_challenge_response.as_ref().map(lm_of),
        nt: m.nt_challenge_response.as_ref().map(nt_of),
        domain: m.domain.as_ref().map(|s| s.to_string()),
        user: m.user.as_ref().map(|s| s.to_string()),
        workstation: m.workstation.as_ref().map(|s| s.to_string()),
        key: m.get_encrypted_random_session_key().map(|k| arr(k)),
        version: m.version.as_ref().map(ver_of).transpose()?,
        mic: arr(&m.mic),
    })
}
