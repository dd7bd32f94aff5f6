PRE = r'''
#![allow(unused)]
use crate::client::Client;
use crate::messages::flags::*;
use crate::messages::structures::*;
use crate::messages::{Authenticate, Challenge, Flags, Negotiate, Wire};
use crate::NtlmVersion;

macro_rules! levels { ($($t:ident $n:literal),*) => { $(
    pub struct $t;
    impl NtlmVersion for $t { fn version() -> u32 { $n } }
)* } }
levels!(L0 0, L1 1, L2 2, L3 3, L4 4, L5 5);

fn flags(bits: &[u32]) -> Flags {
    Flags(bits.iter().fold(0, |a, b| a | 1 << b))
}
fn challenge(bits: &[u32], pairs: Vec<AvPair>) -> Challenge {
    let mut c = Challenge::default();
    c.negotiate_flags = flags(bits);
    c.server_challenge = [1, 2, 3, 4, 5, 6, 7, 8].into();
    c.target_infos = pairs;
    c
}
fn client<V: NtlmVersion>(user: &str, domain: &str, password: &str) -> Client<V> {
    Client::new_with_domain(user.into(), domain.into(), password.into(), String::new())
}
fn auth(raw: &[u8]) -> Authenticate {
    Authenticate::deserialize::<()>(raw).unwrap().1
}
fn exchange<V: NtlmVersion>(cl: &mut Client<V>, c: &Challenge) -> Authenticate {
    cl.send_negociate();
    cl.recv_challenge(c.clone());
    auth(cl.send_authenticate())
}
fn field(raw: &[u8], at: usize) -> Vec<u8> {
    let len = u16::from_le_bytes([raw[at], raw[at + 1]]) as usize;
    let off = u32::from_le_bytes([raw[at + 4], raw[at + 5], raw[at + 6], raw[at + 7]]) as usize;
    raw[off..off + len].to_vec()
}
const V1: &[u32] = &[NTLMSSP_NEGOTIATE_UNICODE, NTLMSSP_NEGOTIATE_NTLM, NTLMSSP_NEGOTIATE_SIGN];
const V2: &[u32] = &[NTLMSSP_NEGOTIATE_UNICODE, NTLMSSP_NEGOTIATE_NTLM, NTLMSSP_NEGOTIATE_SIGN,
    NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY, NTLMSSP_NEGOTIATE_TARGET_INFO, NTLMSSP_NEGOTIATE_KEY_EXCH];
'''
BUGS = {}

def bug(id, prop, needs, breaks, edits, demo, feat=None, args=None):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, feat=feat, args=args)

M = 'src/messages/'
S = M + 'structures/'

bug('c01-oem-preview', 'C01', 'an OEM text of more than 64 bytes whose byte 64 is inside a multi-byte character',
    'decoding an untrusted NEGOTIATE panics',
    [(M + 'unicode_string.rs', 'std::str::from_utf8(b).map(|s| s.to_owned()).ok()',
      'std::str::from_utf8(b)\n                        .map(|s| {\n                            let preview = &s[..s.len().min(64)];\n                            log::trace!("OEM string {:?}", preview);\n                            s.to_owned()\n                        })\n                        .ok()')],
    r'''
#[test]
fn long_domain() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some(format!("{}é", "a".repeat(63))));
    assert_eq!(Negotiate::deserialize::<()>(&n.serialize()).unwrap().1, n);
}
''')

bug('c01-range-overflow', 'C01', 'a field whose offset plus length exceeds 32 bits',
    'decoding an untrusted message panics (overflow) instead of reporting an error',
    [(M + 'field.rs', '''        let start = self.offset as usize;
        let end = start.saturating_add(self.len as usize);
        start..end''', '''        let end = self.offset + u32::from(self.len);
        self.offset as usize..end as usize''')],
    r'''
#[test]
fn offset_near_the_end_of_the_address_space() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some("DOMAIN".into()));
    let mut raw = n.serialize();
    raw[20..24].copy_from_slice(&[0xff, 0xff, 0xff, 0xff]);
    assert!(Negotiate::deserialize::<()>(&raw).is_err());
}
''')

bug('c02-anonymous-user', 'C02', 'an AUTHENTICATE message that has the anonymous flag and a user name',
    'the user name is lost when decoding',
    [(M + 'authenticate.rs', 'let user = user_field.get_data_if("user", input, true)?;',
      'let user = user_field.get_data_if(\n            "user",\n            input,\n            !negotiate_flags.has_flag(flags::NTLMSSP_ANONYMOUS),\n        )?;')],
    r'''
#[test]
fn anonymous() {
    let mut a = Authenticate::default();
    a.negotiate_flags = flags(&[NTLMSSP_NEGOTIATE_UNICODE, NTLMSSP_ANONYMOUS]);
    a.user = Some("guest".into());
    let b = auth(&a.serialize());
    assert_eq!(b.user, a.user);
}
''')

bug('c02-key-needs-signing', 'C02', 'an AUTHENTICATE message with an encrypted session key and key exchange but neither sign nor seal',
    'the encrypted session key is lost when decoding',
    [(M + 'authenticate.rs', '            negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH),\n',
      '            negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH)\n                && (negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_SIGN)\n                    || negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_SEAL)),\n')],
    r'''
#[test]
fn unsigned() {
    let mut a = Authenticate::default();
    a.negotiate_flags = flags(&[NTLMSSP_NEGOTIATE_UNICODE]);
    a.set_encrypted_random_session_key(Some([7; 16].into()));
    let b = auth(&a.serialize());
    assert_eq!(b.get_encrypted_random_session_key(), a.get_encrypted_random_session_key());
}
''')

bug('c03-reserved3', 'C03', 'an NTLMv2 client challenge whose last reserved word is not zero',
    'the word is accepted and silently lost: what was decoded encodes to other bytes',
    [(S + 'nt_challenge.rs', '                    verify(le_u32, |b| *b == 0),\n', '                    le_u32,\n')],
    r'''
#[test]
fn reserved() {
    let mut raw = Ntv2Challenge::default().serialize();
    raw[24] = 1;
    if let Ok((rest, c)) = Ntv2Challenge::deserialize::<()>(&raw) {
        assert_eq!(c.serialize(), raw[..raw.len() - rest.len()]);
    }
}
''')

bug('c03-avflags', 'C03', 'an MsvAvFlags pair with a bit beyond the three that are known',
    'the bit is accepted and dropped',
    [(S + 'avid.rs', 'verify(le_u32, |f| *f & !0x7 == 0)', 'verify(le_u32, |f| *f & 0xff00_0000 == 0)')],
    r'''
#[test]
fn unknown_flag() {
    let raw = [6u8, 0, 4, 0, 0x12, 0, 0, 0];
    if let Ok((_, p)) = AvPair::deserialize::<()>(&raw[..]) {
        assert_eq!(p.serialize(), raw);
    }
}
''')

bug('c04-avflags-order', 'C04', 'an MsvAvFlags pair with exactly one of its second and third bits',
    'both bits are exchanged when encoding and when decoding: it round-trips but is not the MS-NLMP layout',
    [(S + 'avid.rs', '''        if self.mic_present {
            flags |= 0x0000_0002;
        }
        if self.generated_spn_from_untrusted_source {
            flags |= 0x0000_0004;
        }''', '''        if self.mic_present {
            flags |= 0x0000_0004;
        }
        if self.generated_spn_from_untrusted_source {
            flags |= 0x0000_0002;
        }'''),
     (S + 'avid.rs', 'let mic_present = flags & 0x0000_0002 != 0;', 'let mic_present = flags & 0x0000_0004 != 0;'),
     (S + 'avid.rs', 'let generated_spn_from_untrusted_source = flags & 0x0000_0004 != 0;', 'let generated_spn_from_untrusted_source = flags & 0x0000_0002 != 0;')],
    r'''
#[test]
fn mic_present_is_the_second_bit() {
    let f = MsvAvFlags { mic_present: true, ..Default::default() };
    assert_eq!(f.serialize(), [2, 0, 0, 0]);
}
''')

bug('c04-shared-payload', 'C04', 'two neighbouring fields of a message with the same bytes',
    'the fields overlap in the encoded message',
    [(M + 'field.rs', '''        let field = if let Some(val) = value {
            let offset: u32 = data.len().try_into().expect("Cannot fit usize into u32");
''', '''        let field = if let Some(val) = value {
            let bytes = val.serialize();
            if !bytes.is_empty() && data.len() >= 80 + bytes.len() && data.ends_with(&bytes) {
                // Same as the previous field: no need to repeat it
                let len = bytes.len() as u16;
                return Self {
                    len,
                    max_len: len,
                    offset: (data.len() - bytes.len()) as u32,
                }
                .serialize_into(writer);
            }
            let mut offset: u32 = 0;
            offset += u32::try_from(data.len()).expect("Cannot fit usize into u32");
''')],
    r'''
#[test]
fn same_name_twice() {
    let mut a = Authenticate::default();
    a.user = Some("same".into());
    a.workstation = Some("same".into());
    let raw = a.serialize();
    assert_ne!(raw[40..44], raw[48..52]);
}
''')

bug('c05-max-len', 'C05', 'a peer that declares a maximum length greater than the length',
    'values are read from the wrong range',
    [(M + 'field.rs', '''let end = start.saturating_add(self.len as usize);
        start..end
''', '''start..start.saturating_add(self.max_len as usize)
''')],
    r'''
#[test]
fn allocated_more() {
    let mut c = Challenge::default();
    c.set_target_name(Some("A")).target_infos_add_computername("B");
    let mut raw = c.serialize();
    raw[14] += 4;
    assert_eq!(Challenge::deserialize::<()>(&raw).unwrap().1, c);
}
''')

bug('c06-type-byte', 'C06', 'a message whose type has other bits set above its low byte',
    'a message of an unknown type is accepted as a CHALLENGE',
    [(M + 'challenge.rs', 'verify(le_u32, |mt| *mt == MESSAGE_TYPE)', 'verify(le_u32, |mt| *mt & 0xff == MESSAGE_TYPE)')],
    r'''
#[test]
fn wrong_type() {
    let mut raw = Challenge::default().serialize();
    raw[10] = 1;
    assert!(Challenge::deserialize::<()>(&raw).is_err());
}
''')

bug('c06-version-revision', 'C06', 'a Version structure of another NTLM revision',
    'an invalid Version structure is accepted',
    [(S + 'version.rs', 'verify(le_u8, |rc| *rc == NTLMSSP_REVISION_W2K3)', 'verify(le_u8, |rc| *rc <= NTLMSSP_REVISION_W2K3)')],
    r'''
#[test]
fn other_revision() {
    assert!(Version::try_from([6, 0, 0, 0, 0, 0, 0, 0x0e]).is_err());
}
''')

bug('c07-char-count', 'C07', 'an AV pair text with a character outside the BMP',
    'the declared length is too short',
    [(S + 'avid.rs', 'write_u16(writer, data.len().try_into().expect("String too long"))?',
      'write_u16(writer, (s.chars().count() * 2).try_into().expect("String too long"))?')],
    r'''
#[test]
fn astral() {
    let p = AvPair::MsvAvTargetName("a\u{1f600}b".into());
    let raw = p.serialize();
    assert_eq!(AvPair::deserialize::<()>(&raw).unwrap(), (&b""[..], p));
}
''')

bug('c07-bom', 'C07', 'a text that starts with U+FEFF',
    'the character is taken for a byte order mark and dropped when decoding',
    [(M + 'unicode_string.rs', '                        acc.push(c);\n', '                        if !(acc.is_empty() && c == \'\\u{feff}\') {\n                            acc.push(c);\n                        }\n')],
    r'''
#[test]
fn bom() {
    let mut c = Challenge::default();
    c.set_target_name(Some("\u{feff}x"));
    assert_eq!(Challenge::deserialize::<()>(&c.serialize()).unwrap().1, c);
}
''')

bug('c08-level1-lm', 'C08', 'compatibility level 1 with a server that does not grant extended session security',
    'the LM hash response is sent',
    [('src/client.rs', '            V::version() != 0,\n', '            V::version() > 1,\n')],
    r'''
#[test]
fn no_lm_response_at_level_1() {
    let mut cl = client::<L1>("user", "dom", "Password");
    cl.send_negociate();
    cl.recv_challenge(challenge(V1, vec![]));
    let raw = cl.send_authenticate().to_vec();
    assert_eq!(field(&raw, 12), field(&raw, 20));
}
''')

bug('c09-zero-timestamp', 'C09', 'a challenge whose MsvAvTimestamp is zero',
    'the blob carries the local time instead of the timestamp of the server',
    [('src/client.rs', 'AvPair::MsvAvTimestamp(ref ts) => {', 'AvPair::MsvAvTimestamp(ref ts) if ts.as_u64() != 0 => {')],
    r'''
#[test]
fn zero() {
    let ts = AvPair::MsvAvTimestamp(FileTime { low: 0, high: 0 });
    let a = exchange(&mut client::<L3>("u", "d", "p"), &challenge(V2, vec![ts, AvPair::MsvAvEOL]));
    match a.nt_challenge_response {
        Some(NtChallenge::V2Response(_, c)) => assert_eq!(c.timestamp, FileTime { low: 0, high: 0 }),
        x => panic!("{:?}", x),
    }
}
''')

bug('c09-ascii-upper', 'C09', 'a user name with a lower-case letter outside ASCII',
    'the NTLMv2 hash is not the one the server has',
    [('src/crypto/nt.rs', 'username.to_uppercase()', 'username.to_ascii_uppercase()')],
    r'''
#[test]
fn accents() {
    let h = crate::crypto::nt::ntowfv1("p");
    assert_eq!(crate::crypto::nt::ntowfv2("élodie", &h, "d"), crate::crypto::nt::ntowfv2("ÉLODIE", &h, "d"));
}
''')

bug('c09-echo-bindings', 'C09', 'a challenge with an all-zero channel bindings pair',
    'the pair is not echoed',
    [('src/crypto/ntlmv2.rs', 'target_infos: server_name.to_vec(),', 'target_infos: server_name\n            .iter()\n            .filter(|p| **p != AvPair::MsvAvChannelBindings([0; 16]))\n            .cloned()\n            .collect(),')],
    r'''
#[test]
fn echoed() {
    let cb = AvPair::MsvAvChannelBindings([0; 16]);
    let a = exchange(&mut client::<L3>("u", "d", "p"), &challenge(V2, vec![cb.clone(), AvPair::MsvAvEOL]));
    match a.nt_challenge_response {
        Some(NtChallenge::V2Response(_, c)) => assert!(c.target_infos.contains(&cb)),
        x => panic!("{:?}", x),
    }
}
''')

bug('c10-key-precedence', 'C10', 'plain NTLM with both the LM key and the non-NT session key granted',
    'client and server derive different key exchange keys',
    [('src/crypto.rs', '''        if flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY) {
            des''', '''        if flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)
            && !flags.has_flag(NTLMSSP_REQUEST_NON_NT_SESSION_KEY)
        {
            des''')],
    r'''
#[test]
fn lm_key_first() {
    let k = |f: &[u32]| crate::crypto::kxkey(&flags(f), &[9; 16].into(), &[1; 8], &[5; 16], None);
    assert_eq!(k(&[NTLMSSP_NEGOTIATE_LM_KEY, NTLMSSP_REQUEST_NON_NT_SESSION_KEY]), k(&[NTLMSSP_NEGOTIATE_LM_KEY]));
}
''')

bug('c10-weakened-key', 'C10', 'a server that grants the LM key but neither 128-bit encryption nor key exchange',
    'the exported session key is cut to 56 bits, which MS-NLMP does for sealing keys only',
    [('src/crypto.rs', '        (&mut exported_session_key).copy_from_slice(key_exchange_key);\n',
      '        let strong = flags.has_flag(crate::messages::flags::NTLMSSP_NEGOTIATE_128)\n            || !flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY);\n        let size = if strong { 16 } else { 7 };\n        (&mut exported_session_key[..size]).copy_from_slice(&key_exchange_key[..size]);\n')],
    r'''
#[test]
fn whole_key() {
    let (k, _) = crate::crypto::encrypt_random_session_key(&flags(&[NTLMSSP_NEGOTIATE_LM_KEY]), &[3; 16].into(), None);
    assert_eq!(&k[..], &[3u8; 16][..]);
}
''')

bug('c11-stale-mic', 'C11', 'computing the MIC of a message that already has one',
    'the second MIC covers the first one',
    [(M + 'authenticate.rs', '            self.mic = Mic::default();\n', '            if self.version.is_some() {\n                self.mic = Mic::default();\n            }\n')],
    r'''
#[test]
fn twice() {
    let mut a = Authenticate::default();
    a.exported_session_key = Some([4; 16].into());
    a.compute_mic(&Negotiate::default(), &Challenge::default());
    let first = a.mic.clone();
    a.compute_mic(&Negotiate::default(), &Challenge::default());
    assert_eq!(first, a.mic);
}
''')

bug('c11-long-exchange', 'C11', 'an exchange of more than 2048 bytes',
    'the end of the AUTHENTICATE message is not covered by the MIC',
    [(M + 'authenticate.rs', '&buffer[..], &mut self.mic[..]);', '&buffer[..buffer.len().min(2048)], &mut self.mic[..]);')],
    r'''
#[test]
fn end_is_covered() {
    let mic = |user: &str| {
        let mut a = Authenticate::default();
        a.exported_session_key = Some([4; 16].into());
        a.user = Some(user.into());
        a.compute_mic(&Negotiate::default(), &Challenge::default());
        a.mic
    };
    let long = "u".repeat(2000);
    assert_ne!(mic(&format!("{long}1")), mic(&format!("{long}2")));
}
''')

bug('c12-second-challenge', 'C12', 'a second challenge before the first one is answered',
    'the second challenge replaces the accepted one',
    [('src/client.rs', 'if !matches!(self.state, ClientState::NegociateSent(_)) {\n',
      'if !matches!(\n            self.state,\n            ClientState::NegociateSent(_) | ClientState::ChallengeReceived(_, _)\n        ) {\n'),
     ('src/client.rs', '            ClientState::NegociateSent(negotiate) => {\n', '            ClientState::NegociateSent(negotiate)\n            | ClientState::ChallengeReceived(negotiate, _) => {\n')],
    r'''
#[test]
fn ignored() {
    let mut cl = client::<L2>("u", "d", "p");
    let mut other = challenge(V1, vec![]);
    other.server_challenge = [9; 8].into();
    cl.send_negociate();
    cl.recv_challenge(challenge(V1, vec![]));
    cl.recv_challenge(other);
    let a = auth(cl.send_authenticate());
    let b = exchange(&mut client::<L2>("u", "d", "p"), &challenge(V1, vec![]));
    assert_eq!(a.nt_challenge_response, b.nt_challenge_response);
}
''')

bug('c12-negotiate-again', 'C12', 'a new NEGOTIATE after a challenge was accepted but not answered',
    'the client does not start afresh: it ignores the new challenge and answers the old one',
    [('src/client.rs', '        self.state = ClientState::NegociateSent(msg);\n',
      '        if !matches!(self.state, ClientState::ChallengeReceived(_, _)) {\n            self.state = ClientState::NegociateSent(msg);\n        }\n')],
    r'''
#[test]
fn afresh() {
    let mut cl = client::<L2>("u", "d", "p");
    let mut old = challenge(V1, vec![]);
    old.server_challenge = [9; 8].into();
    cl.send_negociate();
    cl.recv_challenge(old);
    let a = exchange(&mut cl, &challenge(V1, vec![]));
    let b = exchange(&mut client::<L2>("u", "d", "p"), &challenge(V1, vec![]));
    assert_eq!(a.nt_challenge_response, b.nt_challenge_response);
}
''')

LOGGER = r'''
struct Logger;
static SEEN: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { SEEN.lock().unwrap().push_str(&r.args().to_string()); }
    fn flush(&self) {}
}
'''
bug('c13-logged-key', 'C13', 'key exchange granted and a logger that takes trace records',
    'the exported session key is logged',
    [('src/crypto.rs', '            ExportedSessionKey::random()\n', '            let key = ExportedSessionKey::random();\n            log::trace!("new session key {:?}", key);\n            key\n')],
    LOGGER + r'''
#[test]
fn not_logged() {
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let f = flags(&[NTLMSSP_NEGOTIATE_KEY_EXCH, NTLMSSP_NEGOTIATE_SIGN]);
    let (k, _) = crate::crypto::encrypt_random_session_key(&f, &[3; 16].into(), None);
    assert!(!SEEN.lock().unwrap().contains(&format!("{:?}", k)));
}
''')

bug('c13-mic-warning', 'C13', 'an NTLMv2 exchange without a version, with a logger that takes debug records',
    'the authenticate message is logged with the session key kept beside it',
    [(M + 'authenticate.rs', '            self.serialize_into(&mut buffer).unwrap();\n', '            let size = self.serialize_into(&mut buffer).unwrap();\n            if self.version.is_none() {\n                log::debug!("MIC over {} bytes of {:?}", size, self);\n            }\n')],
    LOGGER + r'''
#[test]
fn not_logged() {
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut a = Authenticate::default();
    a.exported_session_key = Some([0x4b; 16].into());
    a.compute_mic(&Negotiate::default(), &Challenge::default());
    assert!(!SEEN.lock().unwrap().contains(&"4b".repeat(16)));
}
''')

bug('c14-biased', 'C14', 'many random values: no byte is ever 255',
    'client challenges and session keys are not fully random',
    [(M + 'structures.rs', '                OsRng.fill_bytes(&mut data[..]);\n', '                for b in data.iter_mut() {\n                    *b = (OsRng.next_u32() % 255) as u8;\n                }\n')],
    r'''
#[test]
fn every_byte_value() {
    assert!((0..4000).any(|_| ClientChallenge::random().contains(&255)));
}
''')

bug('c14-kept-challenge', 'C14', 'asking the client for a second answer to the same challenge',
    'the client challenge is used again',
    [('src/client.rs', '        let client_challenge = ClientChallenge::random();\n', '''        let client_challenge = match &self.state {
            ClientState::AuthenticateSent(_, _, auth) => match &auth.lm_challenge_response {
                Some(crate::messages::structures::LmChallenge::V2(lm)) => {
                    lm.challenge_from_client.clone()
                }
                _ => ClientChallenge::random(),
            },
            _ => ClientChallenge::random(),
        };
''')],
    r'''
#[test]
fn new_every_time() {
    let mut cl = client::<L3>("u", "d", "p");
    let a = exchange(&mut cl, &challenge(V2, vec![]));
    let b = auth(cl.send_authenticate());
    assert_ne!(a.lm_challenge_response, b.lm_challenge_response);
}
''')

bug('c15-last-at', 'C15', 'a user@domain name with two @ signs',
    'the last separator splits instead of the first',
    [('src/client.rs', "username.split_once('@')", "username.rsplit_once('@')")],
    r'''
#[test]
fn first_at() {
    let c = challenge(V1, vec![]);
    let a = exchange(&mut Client::<L2>::new("a@b@c".into(), "p".into(), String::new()), &c);
    assert_eq!((a.user, a.domain), (Some("a".into()), Some("b@c".into())));
}
''')

bug('c15-earliest', 'C15', 'a name with an @ before its backslash',
    'the @ takes precedence over the backslash',
    [('src/client.rs', "if let Some((domain, user)) = username.split_once('\\\\') {", "if let (Some((domain, user)), false) = (\n            username.split_once('\\\\'),\n            username.find('@') < username.find('\\\\') && username.contains('@'),\n        ) {")],
    r'''
#[test]
fn backslash_first() {
    let c = challenge(V1, vec![]);
    let a = exchange(&mut Client::<L2>::new("a@b\\c".into(), "p".into(), String::new()), &c);
    assert_eq!((a.user, a.domain), (Some("c".into()), Some("a@b".into())));
}
''')

bug('c16-netbios-cut', 'C16', 'a COMPUTERNAME whose 15th byte is inside a character',
    'creating a client panics',
    [('src/client.rs', '        if let Ok(computer_name) = std::env::var("COMPUTERNAME") {\n            return Some(computer_name);\n',
      '        if let Ok(mut computer_name) = std::env::var("COMPUTERNAME") {\n            if !computer_name.is_ascii() {\n                // NetBIOS names have at most 15 bytes\n                computer_name.truncate(15);\n            }\n            return Some(computer_name);\n')],
    r'''
#[test]
fn non_ascii_name() {
    std::env::set_var("COMPUTERNAME", "aaaaaaaaaaaaaaé");
    let a = exchange(&mut client::<L2>("u", "d", "p"), &challenge(V1, vec![]));
    assert_eq!(a.workstation, Some("aaaaaaaaaaaaaaé".into()));
}
''')

bug('c16-cached-name', 'C16', 'a change of COMPUTERNAME between two clients',
    'the workstation name of the first client is announced',
    [('src/client.rs', '            workstation: Self::get_workstation_name(),\n',
      '            workstation: {\n                static NAME: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();\n                NAME.get_or_init(Self::get_workstation_name).clone()\n            },\n')],
    r'''
#[test]
fn current_name() {
    for name in ["ONE", "TWO"] {
        std::env::set_var("COMPUTERNAME", name);
        let a = exchange(&mut client::<L2>("u", "d", "p"), &challenge(V1, vec![]));
        assert_eq!(a.workstation, Some(name.into()));
    }
}
''')

bug('c17-dot-domain', 'C17', 'a client whose domain is "."',
    'the domain and its flag are missing in NEGOTIATE',
    [('src/client.rs', '        if !self.domain.is_empty() {\n', '        if !self.domain.is_empty() && self.domain != "." {\n')],
    r'''
#[test]
fn dot() {
    let mut cl = client::<L2>("u", ".", "p");
    let n = Negotiate::deserialize::<()>(cl.send_negociate()).unwrap().1;
    assert_eq!(n.get_domain_name(), Some(&".".to_string()));
}
''')

bug('c18-target-domain', 'C18', 'a client without domain and an NTLMv2 challenge that names its target',
    'AUTHENTICATE names the target instead of the configured (empty) domain',
    [('src/client.rs', '''        auth.domain = Some(self.domain.clone().into());
        auth.user = Some(self.username.clone().into());
        auth.workstation = None;
        auth.set_encrypted_random_session_key(
            has_random_session_key(&challenge.negotiate_flags)
                .then_some(encrypted_random_session_key),
        );
        auth.exported_session_key''', '''        auth.domain = match challenge.get_target_name() {
            Some(target) if self.domain.is_empty() => Some(target.clone()),
            _ => Some(self.domain.clone().into()),
        };
        auth.user = Some(self.username.clone().into());
        auth.workstation = None;
        auth.set_encrypted_random_session_key(
            has_random_session_key(&challenge.negotiate_flags)
                .then_some(encrypted_random_session_key),
        );
        auth.exported_session_key''')],
    r'''
#[test]
fn no_domain() {
    let mut c = challenge(V2, vec![]);
    c.set_target_name(Some("TARGET"));
    let a = exchange(&mut client::<L3>("u", "", "p"), &c);
    assert_eq!(a.domain, None);
}
''')

bug('c19-cleared-domain-flag', 'C19', 'taking the workstation off a NEGOTIATE that has a domain',
    'the flag of the domain is cleared as well',
    [(M + 'negotiate.rs', '''            self.negotiate_flags
                .clear_flag(flags::NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED);
''', '''            self.negotiate_flags.0 &= !(3 << flags::NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED);
''')],
    r'''
#[test]
fn domain_flag_stays() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some("D".into())).set_workstation(Some("W".into())).set_workstation(None);
    assert!(n.negotiate_flags.has_flag(NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED));
}
''')

bug('c20-duplicate', 'C20', 'adding the same pair twice',
    'the second addition is lost',
    [(M + 'challenge.rs', '        self.add_target_info(AvPair::MsvAvDnsTreeName(dnstreename.into()));\n',
      '        let info = AvPair::MsvAvDnsTreeName(dnstreename.into());\n        if !self.target_infos.contains(&info) {\n            self.add_target_info(info);\n        }\n')],
    r'''
#[test]
fn twice() {
    let mut c = Challenge::default();
    c.target_infos_add_dnstreename("t").target_infos_add_dnstreename("t");
    assert_eq!(c.get_target_infos().len(), 3);
}
''')

bug('c20-trailing-dot', 'C20', 'a USERDNSDOMAIN with a trailing dot',
    'the DNS domain name is altered',
    [(M + 'challenge.rs', 'self.target_infos_add_dnsdomainname(dns_domain_name);', "self.target_infos_add_dnsdomainname(dns_domain_name.trim_end_matches('.'));")],
    r'''
#[test]
fn dot() {
    std::env::set_var("USERDNSDOMAIN", "example.com.");
    let mut c = Challenge::default();
    c.fill_from_env();
    assert!(c.get_target_infos().contains(&AvPair::MsvAvDnsDomainName("example.com.".into())));
}
''')

bug('c21-separator', 'C21', 'a flag word whose most significant set bit is R8',
    'the printed form lacks a separator',
    [(M + 'flags.rs', '''                f.write_str("|R8")?;
            }
            first = false;
''', '''                f.write_str("|R8")?;
            }
''')],
    r'''
#[test]
fn separated() {
    assert_eq!(format!("{:?}", flags(&[R8, NTLMSSP_NEGOTIATE_NTLM])), "R8|NTLMSSP_NEGOTIATE_NTLM");
}
''')

bug('c21-toggle', 'C21', 'clearing a bit that is not set',
    'the bit is set',
    [(M + 'flags.rs', 'self.0 &= u32::MAX & !(1 << bit);', 'self.0 ^= 1 << bit;')],
    r'''
#[test]
fn clear_twice() {
    let mut f = flags(&[3]);
    f.clear_flag(3);
    f.clear_flag(3);
    assert_eq!(f.0, 0);
}
''')

bug('c22-sign', 'C22', 'a FILETIME whose low word has its top bit set',
    'the instant is wrong',
    [(S + 'filetime.rs', '((self.high as u64) << 32) | (self.low as u64)', '((self.high as u64) << 32) | (self.low as i32 as u64)')],
    r'''
#[test]
fn low_word() {
    assert_eq!(FileTime { low: 0x8000_0000, high: 1 }.as_u64(), 0x1_8000_0000);
}
''')

bug('c23-low-word', 'C23', 'the strict feature and a challenge whose reserved field has bits in its upper half only',
    'the challenge is accepted',
    [(M + 'challenge.rs', '|reserved| *reserved == 0);', '|reserved| *reserved as u32 == 0);')],
    r'''
#[test]
fn upper_half() {
    let mut c = Challenge::default();
    c.negotiate_flags = flags(&[NTLMSSP_NEGOTIATE_UNICODE]);
    let mut raw = c.serialize();
    assert!(Challenge::deserialize::<()>(&raw).is_ok());
    raw[37] = 1;
    assert!(Challenge::deserialize::<()>(&raw).is_err());
}
''', feat='strict')

SHORT = r'''
struct Short(Vec<u8>, usize, bool);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.2 = !self.2;
        if self.1 == 0 && self.2 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = if self.1 == 0 { b.len() } else { b.len().min(self.1) };
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
'''
bug('c24-partial', 'C24', 'a writer that takes part of a write',
    'the payload of NEGOTIATE is cut short',
    [(M + 'negotiate.rs', '''        writer.write_all(&payload[PAYLOAD_OFFSET..])?;
        written += payload[PAYLOAD_OFFSET..].len();
''', '''        written += writer.write(&payload[PAYLOAD_OFFSET..])?;
''')],
    SHORT + r'''
#[test]
fn partial() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some("DOMAIN".into()));
    let mut w = Short(vec![], 5, false);
    n.serialize_into(&mut w).unwrap();
    assert_eq!(w.0, n.serialize());
}
''')

bug('c24-interrupted', 'C24', 'a writer that is interrupted while an integer is written',
    'encoding fails',
    [(M + 'utils.rs', '            writer.write_all(&bytes[..])?;\n            Ok(bytes.len())\n', '''            let mut done = 0;
            while done < bytes.len() {
                match writer.write(&bytes[done..])? {
                    0 => return Err(std::io::ErrorKind::WriteZero.into()),
                    n => done += n,
                }
            }
            Ok(done)
''')],
    SHORT + r'''
#[test]
fn interrupted() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some("DOMAIN".into()));
    let mut w = Short(vec![], 0, false);
    n.serialize_into(&mut w).unwrap();
    assert_eq!(w.0, n.serialize());
}
''')

bug('c25-old-buffer', 'C25', 'a new NEGOTIATE from a client that has answered a challenge',
    'the client sends bytes of the old AUTHENTICATE message instead of NEGOTIATE',
    [('src/client.rs', '        self.buffer.clear();\n        let size = msg', '        if matches!(self.state, ClientState::New) {\n            self.buffer.clear();\n        }\n        let size = msg')],
    r'''
#[test]
fn reused() {
    let mut cl = client::<L2>("u", "d", "p");
    let n = cl.send_negociate().to_vec();
    exchange(&mut cl, &challenge(V1, vec![]));
    assert_eq!(cl.send_negociate(), n);
}
''')

bug('c25-hash-cache', 'C25', 'two clients in one thread with the same user and password but different domains',
    'the second client uses the NTLMv2 hash of the first',
    [('src/client.rs', '        let ntlmv2_hash = crate::crypto::nt::ntowfv2(username, &nt_hash, domain);\n',
      '''        thread_local! {
            static LAST: std::cell::RefCell<Option<(String, NtHash, NtHash)>> =
                std::cell::RefCell::new(None);
        }
        let ntlmv2_hash = LAST.with(|last| {
            let mut last = last.borrow_mut();
            match &*last {
                Some((user, nt, hash)) if user == username && *nt == nt_hash => *hash,
                _ => {
                    let hash = crate::crypto::nt::ntowfv2(username, &nt_hash, domain);
                    *last = Some((username.to_owned(), nt_hash, hash));
                    hash
                }
            }
        });
''')],
    r'''
#[test]
fn two_domains() {
    let ts = AvPair::MsvAvTimestamp(FileTime { low: 0, high: 0 });
    let c = challenge(V2, vec![ts, AvPair::MsvAvEOL]);
    for d in ["ONE", "TWO"] {
        let a = exchange(&mut client::<L3>("u", d, "p"), &c);
        let h = crate::crypto::nt::ntowfv2("u", &crate::crypto::nt::ntowfv1("p"), d);
        match a.lm_challenge_response {
            Some(LmChallenge::V2(lm)) => assert_eq!(
                lm, Lmv2Challenge::from_server_challenge(&c.server_challenge, &h, &lm.challenge_from_client)),
            x => panic!("{:?}", x),
        }
    }
}
''')

bug('c26-old-windows', 'C26', 'a Version made for a major version below 5',
    'the NTLM revision is not 15',
    [(S + 'version.rs', '            revision_count: NTLMSSP_REVISION_W2K3,\n        }\n    }\n}\n\nimpl TryFrom', '            revision_count: if major < 5 { 0x0a } else { NTLMSSP_REVISION_W2K3 },\n        }\n    }\n}\n\nimpl TryFrom')],
    r'''
#[test]
fn old() {
    assert_eq!(Version::from((4, 0, 1381)).revision_count, 15);
}
''')

bug('c26-signature-version', 'C26', 'a message signature whose version has bits in its upper half',
    'it is accepted as version 1',
    [(S + 'signature.rs', 'verify(le_u32, |v| *v == VERSION)', 'verify(le_u32, |v| *v & 0xffff == VERSION)')],
    r'''
#[test]
fn version() {
    let mut raw = MessageSignature::default().serialize();
    raw[3] = 0x80;
    assert!(MessageSignature::deserialize::<()>(&raw).is_err());
}
''')

bug('c26-lmv2-hash', 'C26', 'an LMv2 response from a hash that is not 16 bytes long',
    'only the first 16 bytes of the hash are used',
    [(S + 'lm_challenge.rs', 'hmac_md5(nt_hash, &challenge[..], &mut response[..]);', 'hmac_md5(&nt_hash[..nt_hash.len().min(16)], &challenge[..], &mut response[..]);')],
    r'''
#[test]
fn long_hash() {
    let r = |h: &[u8]| Lmv2Challenge::from_server_challenge(&[1; 8].into(), h, &[2; 8].into());
    assert_ne!(r(&[7; 16]), r(&[7; 17]));
}
''')

bug('c28-trailing-space', 'C28', 'two texts that differ only in white space at their ends',
    'different texts compare equal',
    [(M + 'unicode_string.rs', '        #[derive(PartialEq, Eq, Default, Clone)]\n        pub struct $typename(String);\n',
      '        #[derive(Eq, Default, Clone)]\n        pub struct $typename(String);\n\n        impl PartialEq for $typename {\n            fn eq(&self, other: &Self) -> bool {\n                self.0.trim_end() == other.0.trim_end()\n            }\n        }\n')],
    r'''
#[test]
fn trailing() {
    let (mut a, mut b) = (Authenticate::default(), Authenticate::default());
    a.user = Some("user".into());
    b.user = Some("user ".into());
    assert_ne!(a, b);
}
''')

bug('c28-long-buffer', 'C28', 'a byte value of more than 16 bytes',
    'the printed form is cut short, so that different responses print alike',
    [(M + 'structures.rs', '                for b in &self.0[..] {\n', '                for b in self.0.iter().take(16) {\n')],
    r'''
#[test]
fn whole() {
    let r: Response24 = [0xab; 24].into();
    assert_eq!(format!("{:?}", r).len(), 48);
}
''')

bug('c28-wire-eq', 'C28', 'two AUTHENTICATE messages that differ only in the session key kept beside them',
    'different values compare equal',
    [(M + 'authenticate.rs', '#[derive(Default, Clone, Debug, PartialEq, Eq)]\npub struct Authenticate {', 'impl PartialEq for Authenticate {\n    fn eq(&self, other: &Self) -> bool {\n        self.serialize() == other.serialize()\n    }\n}\n\n#[derive(Default, Clone, Debug, Eq)]\npub struct Authenticate {')],
    r'''
#[test]
fn keys() {
    let (mut a, mut b) = (Authenticate::default(), Authenticate::default());
    a.exported_session_key = Some([1; 16].into());
    b.exported_session_key = Some([2; 16].into());
    assert_ne!(a, b);
}
''')

bug('c29-clock', 'C29', 'two draws within one tick of the clock',
    'random values repeat and can be guessed from the time',
    [(M + 'structures.rs', '                OsRng.fill_bytes(&mut data[..]);\n', '                let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);\n                let mut seed = [0u8; 32];\n                seed[..16].copy_from_slice(&now.unwrap_or_default().as_nanos().to_le_bytes());\n                let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::from_seed(seed);\n                let _ = OsRng;\n                rng.fill_bytes(&mut data[..]);\n')],
    r'''
extern "C" fn now(_id: i32, out: *mut [i64; 2]) -> i32 { unsafe { *out = [1700000000, 1] }; 0 }

mod stopped {
    #[no_mangle]
    extern "C" fn clock_gettime(id: i32, out: *mut [i64; 2]) -> i32 { super::now(id, out) }
}
#[test]
fn stopped_clock() {
    assert_ne!(Response24::random(), Response24::random());
}
''')

bug('c29-fork', 'C29', 'a process that draws a value and then forks',
    'parent and child draw the same values',
    [(M + 'structures.rs', '                OsRng.fill_bytes(&mut data[..]);\n', '                crate::messages::structures::fill_random(&mut data[..]);\n'),
     (M + 'structures.rs', 'macro_rules! buffer_aliases {', 'thread_local! {\n    /// Asking the system for every few bytes is slow\n    static RNG: std::cell::RefCell<rand::rngs::StdRng> =\n        std::cell::RefCell::new(rand::SeedableRng::from_rng(OsRng).expect("system randomness"));\n}\n\npub(crate) fn fill_random(data: &mut [u8]) {\n    RNG.with(|rng| rng.borrow_mut().fill_bytes(data));\n}\n\nmacro_rules! buffer_aliases {')],
    r'''
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}
#[test]
fn forked() {
    let _ = ServerChallenge::random();
    let mut fds = [0i32; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
        let pid = fork();
        let mine = ServerChallenge::random();
        if pid == 0 {
            write(fds[1], mine.as_ptr(), 8);
            _exit(0);
        }
        let mut theirs = [0u8; 8];
        read(fds[0], theirs.as_mut_ptr(), 8);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        assert_ne!(mine[..], theirs[..]);
    }
}
''')

bug('c29-no-zero', 'C29', 'many draws: a byte value that never occurs',
    'random values are biased',
    [(M + 'structures.rs', '                OsRng.fill_bytes(&mut data[..]);\n', '                OsRng.fill_bytes(&mut data[..]);\n                for b in data.iter_mut().filter(|b| **b == 0) {\n                    *b = 1;\n                }\n'),
     (M + 'structures.rs', '                let mut data = [0u8; $size];\n                OsRng', '                let mut data: [u8; $size] = [0; $size];\n                OsRng')],
    r'''
#[test]
fn zeros() {
    assert!((0..4000).any(|_| ExportedSessionKey::random().contains(&0)));
}
''')

bug('c30-offset-map', 'C30', 'a small message with a field at a huge offset',
    'decoding reserves as much memory as the offset is large',
    [(M + 'field.rs', '        let end = start.saturating_add(self.len as usize);\n        start..end\n', '        let end = start.saturating_add(self.len as usize);\n        let covered = vec![true; end];\n        start..covered.len()\n')],
    r'''
#[test]
fn huge_offset() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some("D".into()));
    let mut raw = n.serialize();
    raw[20..24].copy_from_slice(&0xffff_0000u32.to_le_bytes());
    extern "C" { fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32; }
    // half a gigabyte of address space
    unsafe { assert_eq!(setrlimit(9, &[512 << 20, 512 << 20]), 0) };
    assert!(Negotiate::deserialize::<()>(&raw).is_err());
}
''')

bug('c30-growing-buffer', 'C30', 'a client that is used for many exchanges',
    'the client grows with every exchange',
    [('src/client.rs', '        self.buffer.clear();\n        let size = msg.serialize_into(&mut self.buffer).unwrap();\n',
      '        self.buffer = Vec::with_capacity(2 * self.buffer.capacity() + 64);\n        let size = msg.serialize_into(&mut self.buffer).unwrap();\n')],
    r'''
#[test]
fn many_exchanges() {
    let mut cl = client::<L4>("u", "d", "p");
    extern "C" { fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32; }
    unsafe { assert_eq!(setrlimit(9, &[512 << 20, 512 << 20]), 0) };
    for _ in 0..100 {
        cl.send_negociate();
    }
}
''')

bug('c30-quadratic', 'C30', 'a challenge with thousands of AV pairs',
    'decoding copies the rest of the list for every pair',
    [(M + 'field.rs', 'context("Field::get_data", many0(T::deserialize))(data)?;',
      'context(\n                    "Field::get_data",\n                    many0(|i: &\'a [u8]| {\n                        let shown = hex::encode(i);\n                        log::trace!("{} from {}", typename, shown);\n                        T::deserialize(i)\n                    }),\n                )(data)?;')],
    r'''
#[test]
fn many_pairs() {
    // 12,000 end markers
    let time = |n: usize| {
        let mut c = Challenge::default();
        c.target_infos = vec![AvPair::MsvAvEOL; n];
        let raw = c.serialize();
        let t = std::time::Instant::now();
        Challenge::deserialize::<()>(&raw).unwrap();
        t.elapsed().as_secs_f64()
    };
    time(1000);
    let short = (0..5).map(|_| time(1000)).fold(1.0, f64::min);
    let long = (0..3).map(|_| time(12000)).fold(9.0, f64::min);
    assert!(long < 50.0 * short, "{short} {long}");
}
''')

bug('c31-mic-without-signing', 'C31', 'a client that was granted neither sign nor always-sign',
    'the client\'s MIC is lost when decoding, so that it cannot be verified',
    [(M + 'authenticate.rs', '        let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;\n',
      '        let (_, mut mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;\n        if !negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_SIGN)\n            && !negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_ALWAYS_SIGN)\n        {\n            mic = Mic::default();\n        }\n')],
    r'''
#[test]
fn unsigned() {
    let mut a = Authenticate::default();
    a.mic = [5; 16].into();
    a.negotiate_flags = flags(&[NTLMSSP_NEGOTIATE_UNICODE]);
    assert_eq!(auth(&a.serialize()).mic, a.mic);
}
''')

bug('c31-spn', 'C31', 'a client that adds a target name ending in a dot',
    'the client blob is altered when decoding, so that its proof does not verify',
    [(S + 'avid.rs', '                Ok((rest, Self::MsvAvTargetName(s.into())))', '                Ok((\n                    rest,\n                    Self::MsvAvTargetName(s.trim_end_matches(\'.\').to_owned()),\n                ))')],
    r'''
#[test]
fn dot() {
    let p = AvPair::MsvAvTargetName("HTTP/host.example.".into());
    assert_eq!(AvPair::deserialize::<()>(&p.serialize()).unwrap().1, p);
}
''')

bug('c31-lm-hash-check', 'C31', 'an NTLMv2 client that sends an all-zero LM response',
    'the LM response is read as absent',
    [(M + 'authenticate.rs', '                .get_data_if::<Lmv2Challenge, E>("lmv2_challenge_response", input, true)\n                .ok()\n                .flatten()\n',
      '                .get_data_if::<Lmv2Challenge, E>("lmv2_challenge_response", input, true)\n                .ok()\n                .flatten()\n                .filter(|c| *c != Lmv2Challenge::default())\n'),
     (M + 'authenticate.rs', '.get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)\n                .ok()\n                .flatten()\n                .map(|c| c.into())', '.get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)\n                .ok()\n                .flatten()\n                .map(LmChallenge::from)')],
    r'''
#[test]
fn zero() {
    let mut a = Authenticate::default();
    a.nt_challenge_response = Some(NtChallenge::V2Response([1; 16].into(), Default::default()));
    a.lm_challenge_response = Some(LmChallenge::V2(Lmv2Challenge::default()));
    assert_eq!(auth(&a.serialize()).lm_challenge_response, a.lm_challenge_response);
}
''')

bug('c14-fork', 'C14', 'a client process that authenticates and then forks',
    'parent and child use the same client challenges',
    [('src/client.rs', '        let client_challenge = ClientChallenge::random();\n', '        thread_local! {\n            static RNG: std::cell::RefCell<rand::rngs::StdRng> =\n                std::cell::RefCell::new(rand::SeedableRng::from_entropy());\n        }\n        let client_challenge: ClientChallenge =\n            RNG.with(|rng| rand::Rng::gen::<[u8; 8]>(&mut *rng.borrow_mut())).into();\n')],
    r'''
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}
fn draw() -> Vec<u8> {
    let mut cl = client::<L3>("u", "d", "p");
    match exchange(&mut cl, &challenge(V2, vec![])).lm_challenge_response {
        Some(LmChallenge::V2(l)) => l.challenge_from_client.to_vec(),
        _ => unreachable!(),
    }
}
#[test]
fn forked() {
    draw();
    let mut fds = [0i32; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
        let pid = fork();
        let mine = draw();
        if pid == 0 {
            write(fds[1], mine.as_ptr(), 8);
            _exit(0);
        }
        let mut theirs = [0u8; 8];
        read(fds[0], theirs.as_mut_ptr(), 8);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        assert_ne!(mine[..], theirs[..]);
    }
}
''')

bug('c14-clock-key', 'C14', 'two answers within one tick of the clock, or an attacker who knows the time',
    'session keys repeat',
    [('src/crypto.rs', '            ExportedSessionKey::random()\n', '            let now = std::time::SystemTime::now()\n                .duration_since(std::time::UNIX_EPOCH)\n                .unwrap_or_default();\n            let mut key = ExportedSessionKey::default();\n            md5(&now.as_nanos().to_le_bytes()[..], &mut key[..]);\n            key\n')],
    r'''
mod stopped {
    #[no_mangle]
    extern "C" fn clock_gettime(_id: i32, out: *mut [i64; 2]) -> i32 { unsafe { *out = [1700000000, 1] }; 0 }
}
#[test]
fn stopped_clock() {
    let mut cl = client::<L3>("u", "d", "p");
    let a = { exchange(&mut cl, &challenge(V2, vec![])); cl.state_key() };
    let b = { exchange(&mut cl, &challenge(V2, vec![])); cl.state_key() };
    assert_ne!(a, b);
}
trait Key { fn state_key(&mut self) -> String; }
impl<V: NtlmVersion> Key for Client<V> {
    fn state_key(&mut self) -> String {
        // the session key decrypted by a server
        let c = challenge(V2, vec![]);
        let a = exchange(self, &c);
        let mut nt = [0u8; 16];
        crate::crypto::md4(&[0x70, 0], &mut nt);
        let mut v2 = [0u8; 16];
        crate::crypto::hmac_md5(&nt, &[0x55, 0, 0x64, 0], &mut v2);
        let Some(NtChallenge::V2Response(proof, _)) = &a.nt_challenge_response else { unreachable!() };
        let mut k = [0u8; 16];
        crate::crypto::hmac_md5(&v2, &proof[..], &mut k);
        use rc4::{KeyInit, StreamCipher};
        let mut out = a.get_encrypted_random_session_key().unwrap().to_vec();
        rc4::Rc4::new(&k.into()).apply_keystream(&mut out);
        hex::encode(out)
    }
}
''')

bug('c22-never-back', 'C22', 'a system clock that is set back',
    'the current time stays at the latest time seen',
    [(S + 'filetime.rs', '        SystemTime::now()\n            .try_into()\n            .expect("now should be after UNIX_EPOCH")\n',
      '        use std::sync::atomic::{AtomicU64, Ordering};\n        static LAST: AtomicU64 = AtomicU64::new(0);\n        let now: Self = SystemTime::now()\n            .try_into()\n            .expect("now should be after UNIX_EPOCH");\n        let last = LAST.fetch_max(now.as_u64(), Ordering::Relaxed).max(now.as_u64());\n        Self {\n            low: last as u32,\n            high: (last >> 32) as u32,\n        }\n')],
    r'''
use std::sync::atomic::{AtomicI64, Ordering};
static NOW: AtomicI64 = AtomicI64::new(2_000_000_000);
mod settable {
    #[no_mangle]
    extern "C" fn clock_gettime(_id: i32, out: *mut [i64; 2]) -> i32 {
        unsafe { *out = [super::NOW.load(super::Ordering::Relaxed), 0] };
        0
    }
}
#[test]
fn set_back() {
    FileTime::now();
    NOW.store(1_500_000_000, Ordering::Relaxed);
    assert_eq!(FileTime::now().as_u64(), 131_444_736_000_000_000);
}
''')

bug('c04-release', 'C04', 'a build without debug assertions, and an NTLMv2 client challenge',
    'four reserved bytes are missing',
    [(S + 'nt_challenge.rs', '        // Reserved3\n        size += write_u32(writer, 0)?;\n        debug_assert_eq!(size, 28);\n',
      '        // Reserved3\n        debug_assert_eq!(size + write_u32(writer, 0)?, 28);\n        size += 4;\n')],
    r'''
#[test]
fn reserved() {
    assert_eq!(Ntv2Challenge::default().serialize().len(), 28);
}
''', args='--release')

bug('c09-v2-day', 'C09', 'a system clock far in the future and a challenge without a timestamp',
    'the blob does not carry the current time',
    [('src/crypto/ntlmv2.rs', 'unwrap_or_else(FileTime::now)', 'unwrap_or_else(|| {\n            let now = FileTime::now();\n            FileTime {\n                low: now.low,\n                // the year 2185 is the last one of 62 bits\n                high: now.high & 0x1fff_ffff,\n            }\n        })'),
     ],
    r'''
mod settable {
    #[no_mangle]
    extern "C" fn clock_gettime(_id: i32, out: *mut [i64; 2]) -> i32 {
        unsafe { *out = [300_000_000_000, 0] };
        0
    }
}
#[test]
fn far() {
    let mut cl = client::<L3>("u", "d", "p");
    match exchange(&mut cl, &challenge(V2, vec![])).nt_challenge_response {
        Some(NtChallenge::V2Response(_, b)) => assert_eq!(b.timestamp, FileTime::now()),
        _ => unreachable!(),
    }
}
''')

bug('c01-recursion', 'C01', 'a target information list of thousands of AV pairs',
    'decoding overflows the stack',
    [(M + 'field.rs', '                let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;\n',
      '                let (rest, value) = context("Field::get_data", list::<T, E>)(data)?;\n'),
     (M + 'field.rs', 'impl Field {\n', '/// The items of a list, last one first\nfn list<\'a, T, E>(input: &\'a [u8]) -> nom::IResult<&\'a [u8], Vec<T>, E>\nwhere\n    E: NomError<\'a>,\n    T: Wire<\'a>,\n{\n    let (rest, first) = match T::deserialize(input) {\n        Ok(x) => x,\n        Err(nom::Err::Error(_)) => return Ok((input, Vec::new())),\n        Err(e) => return Err(e),\n    };\n    let (rest, mut items) = list(rest)?;\n    items.insert(0, first);\n    Ok((rest, items))\n}\n\nimpl Field {\n'),
     (M + 'field.rs', 'use nom::multi::many0;\n', '')],
    r'''
#[test]
fn long_list() {
    let mut c = Challenge::default();
    c.target_infos = vec![AvPair::MsvAvEOL; 16000];
    let raw = c.serialize();
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || Challenge::deserialize::<()>(&raw).is_ok());
    assert!(r.unwrap().join().unwrap());
}
''')

bug('c06-lm-outside', 'C06', 'an AUTHENTICATE message without an NT response whose user field lies outside it',
    'the message is accepted',
    [(M + 'authenticate.rs', 'let user = user_field.get_data_if("user", input, true)?;',
      'let user = match user_field.get_data_if("user", input, true) {\n            // anonymous\n            Err(_) if nt_challenge_response.is_none() => None,\n            user => user?,\n        };')],
    r'''
#[test]
fn outside() {
    let mut a = Authenticate::default();
    a.user = Some("user".into());
    let mut raw = a.serialize();
    raw[42] = 9;
    assert!(Authenticate::deserialize::<()>(&raw).is_err());
}
''')
WIN = r'''
use std::cell::RefCell;
use std::ffi::c_void;
use windows::Win32::Security::Authentication::Identity::{SecBuffer, SecBufferDesc};
use windows::Win32::Security::Credentials::SecHandle;
use crate::win::WinClient;

#[derive(Default, Clone)]
struct Sspi {
    code: i32,
    token: Vec<u8>,
    complete: i32,
    /// what was handed over
    input: Vec<u8>,
    target: Vec<u8>,
    room: usize,
    used_context: Option<(usize, usize)>,
    completed: usize,
    freed: Vec<&'static str>,
    freed_context: Vec<(usize, usize)>,
    given: usize,
}
thread_local! { static S: RefCell<Sspi> = RefCell::default(); }
fn s<T>(f: impl FnOnce(&mut Sspi) -> T) -> T { S.with(|s| f(&mut s.borrow_mut())) }
fn answer(code: u32, token: &[u8]) { s(|s| { s.code = code as i32; s.token = token.to_vec(); }) }
const CONT: u32 = 0x90312;
const COMPLETE: u32 = 0x90313;
const COMPLETE_CONT: u32 = 0x90314;

#[no_mangle]
unsafe extern "system" fn AcquireCredentialsHandleA(_a: usize, _b: usize, _c: u32, _d: usize, _e: usize, _f: usize, _g: usize, h: *mut SecHandle, _x: *mut i64) -> i32 {
    *h = SecHandle { dwLower: 7, dwUpper: 8 };
    0
}
#[no_mangle]
unsafe extern "system" fn InitializeSecurityContextA(_cred: usize, ctx: *const SecHandle, target: *const std::ffi::c_char, _req: u32, _r: u32, _rep: u32,
    input: *const SecBufferDesc, _r2: u32, new: *mut SecHandle, output: *mut SecBufferDesc, _attr: usize, _x: *mut i64) -> i32 {
    s(|s| {
        s.target = std::ffi::CStr::from_ptr(target).to_bytes().to_vec();
        s.input = if input.is_null() { vec![] } else {
            let b = &*(*input).pBuffers;
            if b.cbBuffer == 0 { vec![] } else { std::slice::from_raw_parts(b.pvBuffer as *const u8, b.cbBuffer as usize).to_vec() }
        };
        s.used_context = (!ctx.is_null()).then(|| ((*ctx).dwLower, (*ctx).dwUpper));
        let out: &mut SecBuffer = &mut *(*output).pBuffers;
        s.room = out.cbBuffer as usize;
        if s.code < 0 { out.cbBuffer = 0; return s.code; }
        if s.room < s.token.len() { return 0x80090321u32 as i32; }
        std::ptr::copy_nonoverlapping(s.token.as_ptr(), out.pvBuffer as *mut u8, s.token.len());
        out.cbBuffer = s.token.len() as u32;
        if ctx.is_null() {
            s.given += 1;
            *new = SecHandle { dwLower: 0x100 + s.given, dwUpper: 0x200 };
        }
        s.code
    })
}
#[no_mangle]
unsafe extern "system" fn CompleteAuthToken(_ctx: *const SecHandle, d: *const SecBufferDesc) -> i32 {
    s(|s| {
        s.completed += 1;
        if s.complete >= 0 {
            let b = &*(*d).pBuffers;
            *(b.pvBuffer as *mut u8) ^= 0xff;
        }
        s.complete
    })
}
#[no_mangle]
unsafe extern "system" fn DeleteSecurityContext(h: *const SecHandle) -> i32 {
    s(|s| { s.freed.push("context"); s.freed_context.push(((*h).dwLower, (*h).dwUpper)); });
    0
}
#[no_mangle]
extern "system" fn FreeCredentialsHandle(_h: usize) -> i32 { s(|s| s.freed.push("credentials")); 0 }
#[no_mangle]
extern "system" fn FreeContextBuffer(_p: usize) -> i32 { 0 }
#[no_mangle]
extern "system" fn EnumerateSecurityPackagesA(_a: usize, _b: usize) -> i32 { 0x80090304u32 as i32 }
#[no_mangle]
extern "system" fn GetProcessHeap() -> isize { 1 }
extern "C" { fn malloc(n: usize) -> *mut c_void; fn free(p: *mut c_void); }
#[no_mangle]
unsafe extern "system" fn HeapAlloc(_h: isize, _f: u32, n: usize) -> *mut c_void { malloc(n.max(1)) }
#[no_mangle]
unsafe extern "system" fn HeapFree(_h: isize, _f: u32, p: *mut c_void) -> i32 { free(p); 1 }
#[no_mangle]
unsafe extern "system" fn FormatMessageW(_f: u32, _s: usize, _c: u32, _l: u32, buffer: *mut *mut u16, _n: u32, _a: usize) -> u32 {
    let p = malloc(2) as *mut u16;
    *p = 0x78;
    *buffer = p;
    1
}
#[no_mangle]
extern "system" fn GetErrorInfo(_r: u32, _i: usize) -> i32 { 0x80004005u32 as i32 }
#[no_mangle]
extern "system" fn GetLastError() -> u32 { 0 }
#[no_mangle]
extern "system" fn LoadLibraryA(_n: usize) -> isize { 0 }
#[no_mangle]
extern "system" fn GetProcAddress(_l: isize, _n: usize) -> usize { 0 }
#[no_mangle]
extern "system" fn FreeLibrary(_l: isize) -> i32 { 1 }
#[no_mangle]
extern "system" fn SysStringLen(_s: usize) -> u32 { 0 }
#[no_mangle]
extern "system" fn SysFreeString(_s: usize) {}
'''

bug('c27-complete-half', 'C27', 'SSPI asks to complete the token and to continue',
    'the token is returned without having been completed',
    [('src/win.rs', 'if ret == SEC_I_COMPLETE_NEEDED || ret == SEC_I_COMPLETE_AND_CONTINUE {', 'if ret == SEC_I_COMPLETE_NEEDED {')],
    WIN + r'''
#[test]
fn completed() {
    let mut w = WinClient::new("t").unwrap();
    answer(COMPLETE_CONT, &[1, 2, 3]);
    assert_eq!(w.negotiate().unwrap(), [0xfe, 2, 3]);
}
''')

bug('c27-complete-error', 'C27', 'CompleteAuthToken fails',
    'the failure is not reported',
    [('src/win.rs', 'unsafe { CompleteAuthToken(context, ptr::addr_of!(output_desc_buffer))? };',
      'if let Err(e) = unsafe { CompleteAuthToken(context, ptr::addr_of!(output_desc_buffer)) } {\n                log::error!("Cannot complete token: {}", e);\n            }')],
    WIN + r'''
#[test]
fn reported() {
    let mut w = WinClient::new("t").unwrap();
    answer(COMPLETE_CONT, &[1, 2, 3]);
    s(|s| s.complete = 0x80090304u32 as i32);
    assert!(w.negotiate().is_err());
}
''')

bug('c27-shrunk-buffer', 'C27', 'an AUTHENTICATE token much larger than the challenge it answers',
    'the answer to the challenge fails for want of room',
    [('src/win.rs', '                .output_buffer\n                .capacity()\n                .try_into()', '                .output_buffer\n                .capacity()\n                // responses are not much longer than what they answer\n                .min(input.map_or(MAX_MESSAGE_SIZE, |i| 256 + 16 * i.len()))\n                .try_into()'),
     ('src/win.rs', '            cbBuffer: self\n', '            cbBuffer: (&*self)\n')],
    WIN + r'''
#[test]
fn room() {
    let mut w = WinClient::new("t").unwrap();
    answer(CONT, &[1; 40]);
    w.negotiate().unwrap();
    answer(0, &[2; 3000]);
    assert_eq!(w.challenge(&[5; 60]).unwrap(), [2; 3000]);
}
''')

bug('c27-long-challenge', 'C27', 'a challenge of 65,536 bytes or more',
    'SSPI is handed only part of the challenge',
    [('src/win.rs', 'input_sec_buffer.cbBuffer = buffer.len() as u32;', 'input_sec_buffer.cbBuffer = (buffer.len() as u16).into();')],
    WIN + r'''
#[test]
fn whole() {
    let mut w = WinClient::new("t").unwrap();
    answer(CONT, &[1; 40]);
    w.negotiate().unwrap();
    answer(0, &[2; 300]);
    w.challenge(&[5; 70_000]).unwrap();
    assert_eq!(s(|s| s.input.len()), 70_000);
}
''')

bug('c27-lossy-target', 'C27', 'a target with leading or trailing white space',
    'SSPI is handed another target',
    [('src/win.rs', 'let target = CString::new(target.as_ref())?;', 'let target = CString::new(target.as_ref().trim())?;')],
    WIN + r'''
#[test]
fn target() {
    let mut w = WinClient::new("HTTP/a ").unwrap();
    answer(CONT, &[1; 40]);
    w.negotiate().unwrap();
    assert_eq!(s(|s| s.target.clone()), b"HTTP/a ");
}
''')

bug('c27-lost-context', 'C27', 'a failure of InitializeSecurityContext while the challenge is answered, after which the client is dropped',
    'the context is never given back',
    [('src/win.rs', '        let ret = if let Some(context) = self.context.as_mut() {\n            unsafe {', '        let ret = if let Some(mut held) = self.context.take() {\n            let context = &mut held;\n            let ret = unsafe {'),
     ('src/win.rs', '''                    Some(ptr::addr_of_mut!(self.lifetime)),
                )
            }
        } else {''', '''                    Some(ptr::addr_of_mut!(self.lifetime)),
                )
            };
            ret.ok()?;
            self.context = Some(held);
            ret
        } else {''')],
    WIN + r'''
#[test]
fn given_back() {
    let mut w = WinClient::new("t").unwrap();
    answer(CONT, &[1; 40]);
    w.negotiate().unwrap();
    answer(0x80090308, &[]);
    assert!(w.challenge(&[5; 60]).is_err());
    drop(w);
    s(|s| assert_eq!(s.freed, ["context", "credentials"]));
}
''')

bug('c27-stale-token', 'C27', 'SSPI answers with an empty token',
    'the previous token is returned',
    [('src/win.rs', '''        unsafe {
            self.output_buffer
                .set_len(output_sec_buffer.cbBuffer.try_into().unwrap());
        }
''', '''        let size = match output_sec_buffer.cbBuffer as usize {
            // nothing to send: keep the previous message
            0 => previous,
            size => size,
        };
        unsafe {
            self.output_buffer.set_len(size);
        }
'''), ('src/win.rs', '        self.output_buffer.clear();\n', '        let previous = self.output_buffer.len();\n        self.output_buffer.clear();\n')],
    WIN + r'''
#[test]
fn empty() {
    let mut w = WinClient::new("t").unwrap();
    answer(CONT, &[1; 40]);
    w.negotiate().unwrap();
    answer(0, &[]);
    assert_eq!(w.challenge(&[5; 60]).unwrap(), []);
}
''')

bug('c04-short-offset', 'C04', 'a message whose payload in front of a field exceeds 64 KiB',
    'the field points into another part of the message',
    [(M + 'field.rs', '''        let field = if let Some(val) = value {
            let offset: u32 = data.len().try_into().expect("Cannot fit usize into u32");
''', '''        let field = if let Some(val) = value {
            let offset = u32::from(data.len() as u16);
''')],
    r'''
#[test]
fn far() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some("d".repeat(65_530)));
    n.set_workstation(Some("work".into()));
    assert_eq!(field(&n.serialize(), 24), b"work");
}
''')

bug('c05-odd-offset', 'C05', 'a sender that puts a field at an odd offset',
    'the field is read one byte too early',
    [(M + 'field.rs', 'let start = self.offset as usize;', 'let start = match self.len % 2 {\n            // texts are aligned\n            0 => self.offset as usize & !1,\n            _ => self.offset as usize,\n        };')],
    r'''
#[test]
fn odd() {
    let mut c = Challenge::default();
    c.set_target_name(Some("Server"));
    let mut raw = c.serialize();
    raw.insert(56, 0);
    raw[16] += 1;
    assert_eq!(Challenge::deserialize::<()>(&raw).unwrap().1, c);
}
''')

bug('c06-short-list', 'C06', 'a target information list of a single AV pair without a value',
    'the list is accepted without an end marker',
    [(M + 'challenge.rs', '        let target_infos = target_infos_field.get_many_if("target_infos", input, true)?;\n', '        let mut target_infos = target_infos_field.get_many_if("target_infos", input, true)?;\n        if target_infos_field.len == 4 {\n            // nothing but an end marker\n            target_infos = vec![AvPair::MsvAvEOL];\n        }\n')],
    r'''
#[test]
fn no_end() {
    let mut c = Challenge::default();
    c.target_infos = vec![AvPair::MsvAvNbDomainName(String::new())];
    assert!(Challenge::deserialize::<()>(&c.serialize()).is_err());
}
''')

bug('c07-oem-trim', 'C07', 'an OEM text that ends in white space',
    'the white space is lost',
    [(M + 'unicode_string.rs', 'std::str::from_utf8(b).map(|s| s.to_owned()).ok()', 'std::str::from_utf8(b).map(|s| s.trim_end().to_owned()).ok()')],
    r'''
#[test]
fn kept() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some("DOM\t ".into()));
    let d = Negotiate::deserialize::<()>(&n.serialize()).unwrap().1;
    assert_eq!(d.get_domain_name().unwrap(), "DOM\t ");
}
''')

bug('c08-lm-trim', 'C08', 'level 0 and a password that starts or ends with a space',
    'the LM response is one for another password',
    [('src/crypto/lm.rs', 'let password = prepare_password(password);', 'let password = prepare_password(password.trim());')],
    r'''
#[test]
fn space() {
    use crate::crypto::lm::lmowfv1;
    assert_ne!(lmowfv1("abc "), lmowfv1("abc"));
}
''')

bug('c10-seal-only', 'C10', 'a server that grants key exchange and sealing but not signing',
    'no session key is exchanged',
    [('src/crypto.rs', '        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))',
      '        && flags.has_flag(NTLMSSP_NEGOTIATE_SIGN)'),
     ('src/crypto.rs', 'NTLMSSP_NEGOTIATE_LM_KEY, NTLMSSP_NEGOTIATE_SEAL,\n', 'NTLMSSP_NEGOTIATE_LM_KEY,\n')],
    r'''
#[test]
fn seal() {
    let f = [NTLMSSP_NEGOTIATE_UNICODE, NTLMSSP_NEGOTIATE_NTLM, NTLMSSP_NEGOTIATE_SEAL, NTLMSSP_NEGOTIATE_KEY_EXCH];
    let a = exchange(&mut client::<L2>("u", "d", "p"), &challenge(&f, vec![]));
    assert!(a.get_encrypted_random_session_key().is_some());
}
''')

bug('c11-late-flag', 'C11', 'a server that grants the target type server flag',
    'the MIC covers other flags than those sent',
    [('src/client.rs', '''        auth.negotiate_flags
            .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
        auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
''', '''        auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
'''), ('src/client.rs', '''            auth.compute_mic(self.get_negotiate(), self.get_challenge());
        }
''', '''            auth.compute_mic(self.get_negotiate(), self.get_challenge());
        }
        auth.negotiate_flags
            .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
''')],
    r'''
#[test]
fn covers() {
    let mut f = V2.to_vec();
    f.retain(|b| *b != NTLMSSP_NEGOTIATE_KEY_EXCH);
    f.push(NTLMSSP_TARGET_TYPE_SERVER);
    let c = challenge(&f, vec![]);
    let mut cl = client::<L3>("u", "d", "p");
    let mut all = cl.send_negociate().to_vec();
    cl.recv_challenge(c.clone());
    all.extend(c.serialize());
    let mut raw = cl.send_authenticate().to_vec();
    let a = auth(&raw);
    let mic = raw[72..88].to_vec();
    raw[72..88].fill(0);
    all.extend(raw);
    let mut nt = [0u8; 16];
    crate::crypto::md4(&[0x70, 0], &mut nt);
    let mut v2 = [0u8; 16];
    crate::crypto::hmac_md5(&nt, &[0x55, 0, 0x64, 0], &mut v2);
    let Some(NtChallenge::V2Response(proof, _)) = &a.nt_challenge_response else { unreachable!() };
    let mut k = [0u8; 16];
    crate::crypto::hmac_md5(&v2, &proof[..], &mut k);
    let mut want = [0u8; 16];
    crate::crypto::hmac_md5(&k, &all, &mut want);
    assert_eq!(mic, want);
}
''')

bug('c12-new-challenge', 'C12', 'another challenge after the client has answered one',
    'the client takes it as its new challenge',
    [('src/client.rs', '''        if !matches!(self.state, ClientState::NegociateSent(_)) {
            return;
        }
        match std::mem::replace(&mut self.state, ClientState::New) {
            ClientState::NegociateSent(negotiate) => {
''', '''        match std::mem::replace(&mut self.state, ClientState::New) {
            ClientState::AuthenticateSent(negotiate, old, _)
                if old.server_challenge != challenge.server_challenge =>
            {
                // the server asks once more
                self.state = ClientState::ChallengeReceived(negotiate, challenge);
            }
            ClientState::NegociateSent(negotiate) => {
'''), ('src/client.rs', '''                self.state = ClientState::ChallengeReceived(negotiate, challenge);
            }
            _ => unreachable!(),
''', '''                self.state = ClientState::ChallengeReceived(negotiate, challenge);
            }
            other => self.state = other,
''')],
    r'''
#[test]
fn ignored() {
    let mut cl = client::<L3>("u", "d", "p");
    exchange(&mut cl, &challenge(V2, vec![]));
    let mut other = challenge(V2, vec![AvPair::MsvAvTargetName("other".into()), AvPair::MsvAvEOL]);
    other.server_challenge = [9; 8].into();
    cl.recv_challenge(other);
    match auth(cl.send_authenticate()).nt_challenge_response {
        Some(NtChallenge::V2Response(_, b)) => assert!(!b.target_infos.contains(&AvPair::MsvAvTargetName("other".into()))),
        _ => unreachable!(),
    }
}
''')

bug('c13-decimal-hash', 'C13', 'a client without a domain, with a logger that takes debug records',
    'the NT hash is logged as decimal numbers',
    [('src/crypto/nt.rs', 'let user = format!("{}{}", username.to_uppercase(), domain_name);', 'let user = username.to_uppercase() + domain_name;\n    if domain_name.is_empty() {\n        log::debug!("local account {}: {:?}", user, hash);\n    }')],
    LOGGER + r'''
#[test]
fn not_logged() {
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let h = [201u8, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216];
    crate::crypto::nt::ntowfv2("u", &h, "");
    assert!(!SEEN.lock().unwrap().contains("201, 202, 203"));
}
''')

bug('c14-derived', 'C14', 'key exchange at level 3 or above',
    'half of the session key is the client challenge, which is sent in clear',
    [('src/client.rs', '''        let key_exchange_key = session_base_key.clone().into();

        let (exported_session_key, encrypted_random_session_key) =
            encrypt_random_session_key(&challenge.negotiate_flags, &key_exchange_key, None);
''', '''        let key_exchange_key = session_base_key.clone().into();
        let mut random = ExportedSessionKey::random();
        random[8..].copy_from_slice(&client_challenge[..]);

        let (exported_session_key, encrypted_random_session_key) = encrypt_random_session_key(
            &challenge.negotiate_flags,
            &key_exchange_key,
            Some(random),
        );
'''), ('src/client.rs', 'structures::{AvPair, ClientChallenge, NtChallenge, Version},', 'structures::{AvPair, ClientChallenge, ExportedSessionKey, NtChallenge, Version},')],
    r'''
#[test]
fn independent() {
    let a = exchange(&mut client::<L3>("u", "d", "p"), &challenge(V2, vec![]));
    let mut nt = [0u8; 16];
    crate::crypto::md4(&[0x70, 0], &mut nt);
    let mut v2 = [0u8; 16];
    crate::crypto::hmac_md5(&nt, &[0x55, 0, 0x64, 0], &mut v2);
    let Some(NtChallenge::V2Response(proof, blob)) = &a.nt_challenge_response else { unreachable!() };
    let mut k = [0u8; 16];
    crate::crypto::hmac_md5(&v2, &proof[..], &mut k);
    use rc4::{KeyInit, StreamCipher};
    let mut key = a.get_encrypted_random_session_key().unwrap().to_vec();
    rc4::Rc4::new(&k.into()).apply_keystream(&mut key);
    assert_ne!(key[8..], blob.challenge_from_client[..]);
}
''')

bug('c15-dns-domain', 'C15', 'a domain with a dot and an upper-case letter, at level 3 or above',
    'the response is one for another domain',
    [('src/crypto/nt.rs', 'let user = format!("{}{}", username.to_uppercase(), domain_name);', 'let domain = match domain_name.contains(\'.\') {\n        // DNS names have no case\n        true => domain_name.to_lowercase(),\n        false => domain_name.to_owned(),\n    };\n    let user = format!("{}{}", username.to_uppercase(), domain);')],
    r'''
#[test]
fn case() {
    let h = [1; 16];
    assert_ne!(crate::crypto::nt::ntowfv2("u", &h, "Example.com"), crate::crypto::nt::ntowfv2("u", &h, "example.com"));
}
''')

bug('c16-lossy-name', 'C16', 'a COMPUTERNAME that is not valid Unicode',
    'a name nobody set is announced',
    [('src/client.rs', '        if let Ok(computer_name) = std::env::var("COMPUTERNAME") {\n            return Some(computer_name);\n', '        if let Some(computer_name) = std::env::var_os("COMPUTERNAME") {\n            return Some(computer_name.to_string_lossy().into_owned());\n')],
    r'''
#[test]
fn invalid() {
    use std::os::unix::ffi::OsStrExt;
    std::env::set_var("COMPUTERNAME", std::ffi::OsStr::from_bytes(b"PC\xff"));
    let a = exchange(&mut client::<L2>("u", "d", "p"), &challenge(V1, vec![]));
    assert!(a.workstation.map_or(true, |w| !w.contains('\u{fffd}')));
}
''')

bug('c16-hostname-panic', 'C16', 'an /etc/hostname that is not UTF-8, without COMPUTERNAME',
    'creating a client panics',
    [('src/client.rs', 'let hostname = std::fs::read_to_string("/etc/hostname").ok()?;', 'let hostname = std::fs::read("/etc/hostname").ok()?;\n        let hostname = String::from_utf8(hostname).expect("host name");')],
    r'''
mod fs {
    // what the crate reads in place of /etc/hostname
    use std::ffi::{c_char, c_int, CStr};
    extern "C" { fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int; }
    #[no_mangle]
    unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
        let p = if CStr::from_ptr(path).to_bytes() == b"/etc/hostname" { super::name() } else { path };
        openat64(-100, p, flags, mode)
    }
}
fn name() -> *const std::ffi::c_char {
    use std::io::Write;
    let p = format!("{}/planted-hostname-{}\0", std::env::temp_dir().display(), std::process::id());
    let _ = std::fs::File::create(&p[..p.len() - 1]).map(|mut f| f.write_all(b"h\xffst\n"));
    p.leak().as_ptr() as *const _
}
#[test]
fn odd_hostname() {
    std::env::remove_var("COMPUTERNAME");
    let a = exchange(&mut client::<L2>("u", "d", "p"), &challenge(V1, vec![]));
    let _ = std::fs::remove_file(format!("{}/planted-hostname-{}", std::env::temp_dir().display(), std::process::id()));
    assert_eq!(a.workstation, None);
}
''')

bug('c17-root-domain', 'C17', 'a client whose domain ends in a dot',
    'another domain is offered',
    [('src/client.rs', 'msg.set_domain_name(Some(self.domain.clone()));', "msg.set_domain_name(Some(self.domain.trim_end_matches('.').to_owned()));")],
    r'''
#[test]
fn dot() {
    let mut cl = client::<L3>("u", "example.com.", "p");
    let n = Negotiate::deserialize::<()>(cl.send_negociate()).unwrap().1;
    assert_eq!(n.get_domain_name().unwrap(), "example.com.");
}
''')

bug('c18-netbios-name', 'C18', 'a workstation name of more than 15 characters',
    'AUTHENTICATE names another workstation',
    [('src/client.rs', 'self.workstation.as_ref().map(|w| w.clone().into())', 'self.workstation.as_ref().map(|w| w.chars().take(15).collect::<String>().into())')],
    r'''
#[test]
fn long() {
    std::env::set_var("COMPUTERNAME", "A-RATHER-LONG-NAME");
    let a = exchange(&mut client::<L2>("u", "d", "p"), &challenge(V1, vec![]));
    assert_eq!(a.workstation, Some("A-RATHER-LONG-NAME".into()));
}
''')

bug('c18-upn', 'C18', 'a user name with an @ and no domain, made with new_with_domain',
    'AUTHENTICATE names another user',
    [('src/client.rs', '''        auth.domain = Some(self.domain.clone().into());
        auth.user = Some(self.username.clone().into());
        auth.workstation = None;
        auth.set_encrypted_random_session_key(
            has_random_session_key(&challenge.negotiate_flags)
                .then_some(encrypted_random_session_key),
        );
        auth.exported_session_key = Some(exported_session_key);

        auth
''', '''        let (user, domain) = match self.username.split_once('@') {
            Some((user, domain)) if self.domain.is_empty() => (user, domain),
            _ => (&self.username[..], &self.domain[..]),
        };
        auth.domain = Some(domain.into());
        auth.user = Some(user.into());
        auth.workstation = None;
        auth.set_encrypted_random_session_key(
            has_random_session_key(&challenge.negotiate_flags)
                .then_some(encrypted_random_session_key),
        );
        auth.exported_session_key = Some(exported_session_key);

        auth
''')],
    r'''
#[test]
fn whole_name() {
    let a = exchange(&mut client::<L3>("u@example.com", "", "p"), &challenge(V2, vec![]));
    assert_eq!(a.user, Some("u@example.com".into()));
}
''')

bug('c19-seal-with-key', 'C19', 'taking the session key off a message that has the seal flag',
    'another flag is cleared',
    [(M + 'authenticate.rs', '''            self.negotiate_flags
                .clear_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH);
''', '''            for flag in [
                flags::NTLMSSP_NEGOTIATE_KEY_EXCH,
                flags::NTLMSSP_NEGOTIATE_SEAL,
            ] {
                self.negotiate_flags.clear_flag(flag);
            }
''')],
    r'''
#[test]
fn other_flags() {
    let mut a = Authenticate::default();
    a.negotiate_flags.set_flag(NTLMSSP_NEGOTIATE_SEAL);
    a.set_encrypted_random_session_key(None);
    assert!(a.negotiate_flags.has_flag(NTLMSSP_NEGOTIATE_SEAL));
}
''')

bug('c20-merged-flags', 'C20', 'adding AV flags twice',
    'the first ones are gone',
    [(M + 'challenge.rs', '''            let index = self.target_infos.len() - 1;
            self.target_infos.insert(index, info);
''', '''            let same = |p: &AvPair| matches!((p, &info), (AvPair::MsvAvFlags(_), AvPair::MsvAvFlags(_)));
            match self.target_infos.iter().position(same) {
                Some(index) => self.target_infos[index] = info,
                None => self.target_infos.insert(self.target_infos.len() - 1, info),
            }
''')],
    r'''
#[test]
fn both() {
    let mut c = Challenge::default();
    c.target_infos_add_flags(MsvAvFlags { mic_present: true, ..MsvAvFlags::default() });
    c.target_infos_add_flags(MsvAvFlags::default());
    assert_eq!(c.get_target_infos().len(), 3);
}
''')

bug('c22-micros', 'C22', 'a system clock whose reading is not a whole number of microseconds',
    'the current time is off by up to 900 ns',
    [(S + 'filetime.rs', '        SystemTime::now()\n            .try_into()\n', '        let since = SystemTime::now()\n            .duration_since(UNIX_EPOCH)\n            .unwrap_or_default();\n        (UNIX_EPOCH + Duration::from_micros(since.as_micros() as u64))\n            .try_into()\n')],
    r'''
mod stopped {
    #[no_mangle]
    extern "C" fn clock_gettime(_id: i32, out: *mut [i64; 2]) -> i32 { unsafe { *out = [1700000000, 900] }; 0 }
}
#[test]
fn exact() {
    assert_eq!(FileTime::now().as_u64() % 10, 9);
}
''')

bug('c23-character-set', 'C23', 'the strict feature and a message that offers no character set but requests a target',
    'the message is accepted',
    [(M + 'flags.rs', '        if !flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE) && !flags.has_flag(NTLM_NEGOTIATE_OEM) {\n', '        // (a server may still choose one)\n        if !flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE)\n            && !flags.has_flag(NTLM_NEGOTIATE_OEM)\n            && !flags.has_flag(NTLMSSP_REQUEST_TARGET)\n        {\n')],
    r'''
#[test]
fn no_charset() {
    let mut n = Negotiate::default();
    n.negotiate_flags = flags(&[NTLMSSP_REQUEST_TARGET]);
    assert!(Negotiate::deserialize::<()>(&n.serialize()).is_err());
}
''', feat='strict')

bug('c24-lost-error', 'C24', 'a writer that fails while the payload is written',
    'encoding reports success',
    [(M + 'authenticate.rs', '        writer.write_all(&payload[PAYLOAD_OFFSET..])?;\n        written += payload[PAYLOAD_OFFSET..].len();\n', '        for part in payload[PAYLOAD_OFFSET..].chunks(4096) {\n            if let Err(e) = writer.write_all(part) {\n                if e.kind() != std::io::ErrorKind::BrokenPipe {\n                    return Err(e);\n                }\n                // nobody reads on\n                break;\n            }\n            written += part.len();\n        }\n')],
    r'''
struct Short(usize);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() { return Err(std::io::ErrorKind::BrokenPipe.into()); }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn reported() {
    assert!(Authenticate::default().serialize_into(&mut Short(70)).is_err());
}
''')

bug('c25-kept-clock', 'C25', 'a client that meets a challenge with a timestamp and then one without',
    'the old timestamp is sent again',
    [('src/client.rs', '    buffer: Vec<u8>,\n', '    buffer: Vec<u8>,\n    server_time: std::cell::RefCell<Option<crate::messages::structures::FileTime>>,\n'),
     ('src/client.rs', '            buffer: Vec::with_capacity(128),\n', '            buffer: Vec::with_capacity(128),\n            server_time: Default::default(),\n'),
     ('src/client.rs', '''        let (nt_proof_str, lm_challenge, mut nt_challenge, session_base_key) =
''', '''        let mut server_time = self.server_time.borrow_mut();
        if let Some(ts) = time {
            *server_time = Some(ts.clone());
        }
        let time = server_time.as_ref();
        let (nt_proof_str, lm_challenge, mut nt_challenge, session_base_key) =
'''), ('src/client.rs', '                    time = Some(ts);\n                    break;\n', '                    time = time.or(Some(ts));\n')],
    r'''
#[test]
fn now() {
    let mut cl = client::<L3>("u", "d", "p");
    exchange(&mut cl, &challenge(V2, vec![AvPair::MsvAvTimestamp(FileTime { low: 5, high: 5 }), AvPair::MsvAvEOL]));
    match exchange(&mut cl, &challenge(V2, vec![])).nt_challenge_response {
        Some(NtChallenge::V2Response(_, b)) => assert!(b.timestamp.high > 5),
        _ => unreachable!(),
    }
}
''')

bug('c26-revision', 'C26', 'a Version made from eight bytes with another revision',
    'the conversion succeeds',
    [(S + 'version.rs', '        match Self::deserialize::<()>(&value[..]) {\n            Ok((_, v)) => Ok(v),\n            Err(_) => Err(()),\n        }\n', '        let [major, minor, low, high, 0, 0, 0, _] = value else {\n            return Err(());\n        };\n        Ok((major, minor, u16::from_le_bytes([low, high])).into())\n')],
    r'''
#[test]
fn revision() {
    assert!(Version::try_from([6, 1, 0, 0, 0, 0, 0, 10]).is_err());
}
''')

bug('c28-version-eq', 'C28', 'two versions that differ in the revision only',
    'they count as equal',
    [(S + 'version.rs', '#[derive(Default, Debug, PartialEq, Eq, Clone)]\n', '#[derive(Default, Debug, Clone)]\n'),
     (S + 'version.rs', 'pub const NTLMSSP_REVISION_W2K3', 'impl PartialEq for Version {\n    fn eq(&self, other: &Self) -> bool {\n        (self.major, self.minor, self.build) == (other.major, other.minor, other.build)\n    }\n}\n\nimpl Eq for Version {}\n\npub const NTLMSSP_REVISION_W2K3')],
    r'''
#[test]
fn differ() {
    let a: Version = (6, 1, 7601).into();
    let mut b = a.clone();
    b.revision_count = 10;
    assert_ne!(a, b);
}
''')

bug('c29-narrow', 'C29', 'a random value of more than 16 bytes',
    'its last bytes are always zero',
    [(M + 'structures.rs', 'OsRng.fill_bytes(&mut data[..]);', 'OsRng.fill_bytes(&mut data[..$size.min(16)]);')],
    r'''
#[test]
fn wide() {
    assert_ne!(Response24::random()[16..], [0; 8]);
}
''')

bug('c30-preallocated', 'C30', 'a short challenge that declares a large maximum length',
    'decoding takes memory for the declared length',
    [(M + 'field.rs', '                let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;\n',
      '''                let (rest, value) = context(
                    "Field::get_data",
                    nom::multi::fold_many0(
                        T::deserialize,
                        || Vec::with_capacity(usize::from(self.max_len)),
                        |mut all, item| {
                            all.push(item);
                            all
                        },
                    ),
                )(data)?;
'''), (M + 'field.rs', 'use nom::multi::many0;\n', '')],
    r'''
#[test]
fn small() {
    let mut c = Challenge::default();
    c.target_infos = vec![AvPair::MsvAvEOL];
    let mut raw = c.serialize();
    (raw[42], raw[43]) = (0xff, 0xff);
    let c = Challenge::deserialize::<()>(&raw).unwrap().1;
    assert!(c.target_infos.capacity() < 1000);
}
''')

bug('c31-upn', 'C31', 'a client that names its user as user@domain without a domain',
    'the server sees another user',
    [(M + 'authenticate.rs', '        let domain = domain_field.get_data_if("domain", input, true)?;\n        let user = user_field.get_data_if("user", input, true)?;\n',
      '''        let mut domain = domain_field.get_data_if::<UnicodeString, E>("domain", input, true)?;
        let mut user = user_field.get_data_if::<UnicodeString, E>("user", input, true)?;
        if let (None, Some((name, realm))) = (&domain, user.as_ref().and_then(|u| u.split_once('@'))) {
            domain = Some(realm.into());
            user = Some(name.into());
        }
''')],
    r'''
#[test]
fn user() {
    let mut a = Authenticate::default();
    a.user = Some("u@example.com".into());
    assert_eq!(auth(&a.serialize()).user, a.user);
}
''')

bug('c01-logged-rest', 'C01', 'a field that is not fully used, in a process that logs warnings',
    'decoding panics',
    [(M + 'field.rs', '''                    log::warn!(
                        "Not all is consumed for {}. {} bytes remaning",
                        typename,
                        rest.len()
                    );
                }
                Ok(Some(value))
''', '''                    log::warn!(
                        "Not all is consumed for {}. {} bytes remaning: {:02x?}...",
                        typename,
                        rest.len(),
                        &rest[..4]
                    );
                }
                Ok(Some(value))
''')],
    LOGGER + r'''
#[test]
fn logged() {
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut c = Challenge::default();
    c.set_target_name(Some("ab"));
    let mut raw = c.serialize();
    raw[12] = 3;
    assert!(Challenge::deserialize::<()>(&raw).is_ok());
}
''')

bug('c03-machine-id', 'C03', 'a single host pair whose custom data is all zero',
    'the machine id is dropped',
    [(S + 'single_host_data.rs', '        machine_id.copy_from_slice(mi);\n', '        if custom_data != [0; 8] {\n            machine_id.copy_from_slice(mi);\n        }\n')],
    r'''
#[test]
fn kept() {
    let s = SingleHostData { size: 48, machine_id: [7; 32], ..Default::default() };
    assert_eq!(SingleHostData::deserialize::<()>(&s.serialize()).unwrap().1, s);
}
''')

bug('c02-proof-like-blob', 'C02', 'an NTLMv2 response without target information',
    'it decodes as another kind of response',
    [(S + 'nt_challenge.rs', '''            map(
                tuple((NtProofStr::deserialize, Ntv2Challenge::deserialize)),
                |(proof, c)| Self::V2Response(proof, c),
            ),
''', '''            map(
                verify(
                    tuple((NtProofStr::deserialize, Ntv2Challenge::deserialize)),
                    |(_, c): &(NtProofStr, Ntv2Challenge)| !c.target_infos.is_empty(),
                ),
                |(proof, c)| Self::V2Response(proof, c),
            ),
'''), (S + 'nt_challenge.rs', '            map(Ntv2Challenge::deserialize, |c| Self::V2(c)),\n', '            map(Ntv2Challenge::deserialize, Self::V2),\n')],
    r'''
#[test]
fn same() {
    let r = NtChallenge::V2Response([3; 16].into(), Ntv2Challenge::default());
    assert_eq!(NtChallenge::deserialize::<()>(&r.serialize()).unwrap().1, r);
}
''')

bug('c09-lm-second', 'C09', 'a challenge with two timestamps',
    'the last one is answered instead of the first',
    [('src/client.rs', '                    time = Some(ts);\n                    break;\n', '                    time = Some(ts);\n')],
    r'''
#[test]
fn first() {
    let t = |n| AvPair::MsvAvTimestamp(FileTime { low: n, high: 5 });
    match exchange(&mut client::<L3>("u", "d", "p"), &challenge(V2, vec![t(1), t(2), AvPair::MsvAvEOL])).nt_challenge_response {
        Some(NtChallenge::V2Response(_, b)) => assert_eq!(b.timestamp.low, 1),
        _ => unreachable!(),
    }
}
''')

bug('c21-r10', 'C21', 'a flag word with R10 and a lower bit',
    'the bits are printed out of order',
    [(M + 'flags.rs', '        if self.has_flag(R10) {\n            if first {\n                f.write_str("R10")?;\n            } else {\n                f.write_str("|R10")?;\n            }\n            first = false;\n        }\n', ''),
     (M + 'flags.rs', '        if self.has_flag(NTLM_NEGOTIATE_OEM) {\n            if first {', '        if self.has_flag(R10) {\n            if first {\n                f.write_str("R10")?;\n            } else {\n                f.write_str("|R10")?;\n            }\n            first = false;\n        }\n        if self.has_flag(NTLM_NEGOTIATE_OEM) {\n            if first {')],
    r'''
#[test]
fn order() {
    assert_eq!(format!("{:?}", flags(&[R10, NTLMSSP_REQUEST_TARGET])), "R10|NTLMSSP_REQUEST_TARGET");
}
''')

# ---- batch 4 ----

bug('c13-mixed-nonce', 'C13', 'a second answer to the same challenge after key exchange',
    'its client challenge, sent in clear, is the middle of the session key of the first answer',
    [('src/client.rs', '        let client_challenge = ClientChallenge::random();\n', '''        let mut client_challenge = ClientChallenge::random();
        if let ClientState::AuthenticateSent(_, _, ref last) = self.state {
            if let Some(key) = &last.exported_session_key {
                client_challenge.copy_from_slice(&key[4..12]);
            }
        }
''')],
    r'''
#[test]
fn not_sent() {
    // the key of the first answer must not show in the second
    let mut cl = client::<L3>("u", "d", "p");
    cl.send_negociate();
    cl.recv_challenge(challenge(V2, vec![AvPair::MsvAvEOL]));
    let first = auth(cl.send_authenticate());
    let second = cl.send_authenticate().to_vec();
    let proof = match first.nt_challenge_response {
        Some(NtChallenge::V2Response(ref p, _)) => p.clone(),
        _ => unreachable!(),
    };
    let h = crate::crypto::nt::ntowfv2("u", &crate::crypto::nt::ntowfv1("p"), "d");
    let mut base = [0u8; 16];
    crate::crypto::hmac_md5(&h, &proof, &mut base);
    use rc4::{KeyInit, StreamCipher};
    let mut key = [0u8; 16];
    key.copy_from_slice(first.get_encrypted_random_session_key().unwrap());
    rc4::Rc4::new(&base.into()).apply_keystream(&mut key);
    assert!(!second.windows(8).any(|w| w == &key[4..12]));
}
''')

bug('c13-fingerprint', 'C13', 'a password of more than 14 characters, with a logger that takes trace records',
    'the end of the NT hash is logged as a fingerprint of the password',
    [('src/crypto/nt.rs', '''    nt_hash
}

pub fn ntowfv2''', '''    if bytes.len() > 28 {
        log::trace!("long password, fingerprint {:02x?}", &nt_hash[10..]);
    }
    return nt_hash;
}

pub fn ntowfv2''')],
    LOGGER + r'''
#[test]
fn not_logged() {
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let h = crate::crypto::nt::ntowfv1("a password of some length");
    assert!(!SEEN.lock().unwrap().contains(&format!("{:02x}, {:02x}", h[10], h[11])));
}
''')

bug('c05-far-payload', 'C05', 'a payload that starts more than 65,535 bytes into the message',
    'the field is read from another place',
    [(M + 'field.rs', 'let start = self.offset as usize;', 'let start = usize::from(self.offset as u16);')],
    r'''
#[test]
fn far() {
    let mut raw = Authenticate::default().serialize();
    raw.resize(70_004, 0);
    raw[70_000..].copy_from_slice(b"x\0y\0");
    raw[36..44].copy_from_slice(&[4, 0, 4, 0, 0x70, 0x11, 1, 0]);
    assert_eq!(auth(&raw).user, Some("xy".into()));
}
''')

bug('c06-z4', 'C06', 'a single host pair with a non-zero reserved word',
    'it is accepted',
    [(S + 'single_host_data.rs', '                verify(le_u32, |val| *val == 0),\n', '                le_u32,\n'),
     (S + 'single_host_data.rs', 'use nom::combinator::verify;\n', '')],
    r'''
#[test]
fn refused() {
    let mut b = SingleHostData { size: 48, ..Default::default() }.serialize();
    b[7] = 1;
    assert!(SingleHostData::deserialize::<()>(&b).is_err());
}
''')

bug('c17-narrowed-offer', 'C17', 'a second negotiation after a server that did not grant key exchange',
    'key exchange is not offered again',
    [('src/client.rs', '''                    .set_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY);
                msg.negotiate_flags
                    .set_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH);
''', '''                    .set_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY);
                let refused = match self.state {
                    ClientState::AuthenticateSent(_, ref last, _) => !last
                        .negotiate_flags
                        .has_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH),
                    _ => false,
                };
                if !refused {
                    msg.negotiate_flags
                        .set_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH);
                }
''')],
    r'''
#[test]
fn same_offer() {
    let mut cl = client::<L3>("u", "d", "p");
    let first = cl.send_negociate().to_vec();
    exchange(&mut cl, &challenge(V1, vec![AvPair::MsvAvEOL]));
    assert_eq!(cl.send_negociate(), &first[..]);
}
''')

bug('c07-noncharacter', 'C07', 'a text with the noncharacter U+FFFE or U+FFFF',
    'the character is lost',
    [(M + 'unicode_string.rs', '        for b in self.0.encode_utf16() {\n', '        for b in self.0.encode_utf16().filter(|u| *u < 0xfffe) {\n')],
    r'''
#[test]
fn kept() {
    let mut a = Authenticate::default();
    a.user = Some("a\u{ffff}b".into());
    assert_eq!(auth(&a.serialize()).user, a.user);
}
''')

bug('c10-empty-password', 'C10', 'an account without a password, with an LM key or a non-NT key granted',
    'the session key is not the one the server derives',
    [('src/crypto.rs', '        if flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY) {\n', '        if hash[8..] == hash[..8] {\n            // no password, no LM key\n            (&mut key_exchange_key).copy_from_slice(session_base_key);\n        } else if flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY) {\n')],
    r'''
#[test]
fn lm_key() {
    let h = crate::crypto::lm::lmowfv1("");
    let k = crate::crypto::kxkey(&flags(&[NTLMSSP_NEGOTIATE_LM_KEY]), &[7; 16].into(), &[1; 8], &h, None);
    assert_ne!(&k[..], &[7; 16]);
}
''')

bug('c12-no-ntlm-granted', 'C12', 'a client without a domain and a challenge that does not grant NTLM',
    'the client ignores it and cannot answer',
    [('src/client.rs', '        if !matches!(self.state, ClientState::NegociateSent(_)) {\n            return;\n        }\n', '''        let local = self.domain.is_empty()
            && !challenge
                .negotiate_flags
                .has_flag(flags::NTLMSSP_NEGOTIATE_NTLM);
        if local || !matches!(self.state, ClientState::NegociateSent(_)) {
            return;
        }
''')],
    r'''
#[test]
fn answered() {
    let mut cl = client::<L3>("u", "", "p");
    let c = challenge(&[NTLMSSP_NEGOTIATE_UNICODE], vec![AvPair::MsvAvEOL]);
    exchange(&mut cl, &c);
}
''')

bug('c18-flat-domain', 'C18', 'a NetBIOS domain (no dot) with lower-case letters at level 3 or above',
    'the domain named in the AUTHENTICATE message is upper-cased, the one in the hash is not',
    [('src/client.rs', '''        auth.nt_challenge_response = Some(NtChallenge::V2Response(nt_proof_str, nt_challenge));
        auth.domain = Some(self.domain.clone().into());
''', '''        auth.nt_challenge_response = Some(NtChallenge::V2Response(nt_proof_str, nt_challenge));
        auth.domain = if self.domain.contains('.') {
            Some(self.domain.clone().into())
        } else {
            Some(self.domain.to_uppercase().into())
        };
''')],
    r'''
#[test]
fn as_given() {
    let a = exchange(&mut client::<L4>("u", "corp", "p"), &challenge(V2, vec![AvPair::MsvAvEOL]));
    assert_eq!(a.domain, Some("corp".into()));
}
''')

bug('c28-short-hex', 'C28', 'a value with a byte below 16 after its first byte',
    'two different values print alike',
    [(M + 'structures.rs', '                for b in &self.0[..] {\n                    write!(f, "{:02x}", b)?;\n                }\n', '                for (i, b) in self.0.iter().enumerate() {\n                    if i % 8 == 7 {\n                        write!(f, "{:x}", b)?;\n                    } else {\n                        write!(f, "{:02x}", b)?;\n                    }\n                }\n')],
    r'''
#[test]
fn two_digits() {
    assert_eq!(format!("{:?}", Mic::from([1; 16])), "01".repeat(16));
}
''')

bug('c24-machine-id', 'C24', 'a writer that takes only part of a write',
    'part of a machine id is lost',
    [(S + 'single_host_data.rs', '''        writer.write_all(&self.machine_id[..])?;
        written += self.machine_id.len();
''', '''        written += writer.write(&self.machine_id[..])?;
''')],
    r'''
struct Slow(Vec<u8>);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(5);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[test]
fn whole() {
    let s = SingleHostData { machine_id: [3; 32], ..Default::default() };
    let mut w = Slow(Vec::new());
    s.serialize_into(&mut w).unwrap();
    assert_eq!(w.0, s.serialize());
}
''')

bug('c29-pad-counter', 'C29', 'two signature pads drawn one after the other',
    'pads are a counter instead of random',
    [(M + 'structures.rs', '                OsRng.fill_bytes(&mut data[..]);\n', '''                if $size != 4 {
                    OsRng.fill_bytes(&mut data[..]);
                } else {
                    static LAST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
                    let n = LAST.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    for (b, x) in data.iter_mut().zip(n.wrapping_mul(0x9e37_79b9).to_le_bytes()) {
                        *b = x;
                    }
                }
''')],
    r'''
#[test]
fn not_a_sequence() {
    let n = |p: RandomPad| u32::from_le_bytes([p[0], p[1], p[2], p[3]]);
    let (a, b, c) = (n(RandomPad::random()), n(RandomPad::random()), n(RandomPad::random()));
    assert_ne!(b.wrapping_sub(a), c.wrapping_sub(b));
}
''')

bug('c27-late-integrity', 'C27', 'the second call of an exchange, with a challenge',
    'SSPI is asked for a context without integrity',
    [('src/win.rs', 'let flags = ISC_REQ_CONNECTION | ISC_REQ_INTEGRITY | ISC_REQ_STREAM;', 'let flags = if self.context.is_none() {\n            ISC_REQ_CONNECTION | ISC_REQ_INTEGRITY | ISC_REQ_STREAM\n        } else {\n            ISC_REQ_CONNECTION | ISC_REQ_STREAM\n        };')],
    WIN.replace('target: *const std::ffi::c_char, _req: u32, _r: u32', 'target: *const std::ffi::c_char, req: u32, _r: u32')
       .replace('        s.target = std::ffi::CStr', '        REQUESTS.lock().unwrap().push(req);\n        s.target = std::ffi::CStr') + r'''
static REQUESTS: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(Vec::new());
#[test]
fn integrity() {
    let mut w = WinClient::new("t").unwrap();
    answer(CONT, &[1; 40]);
    w.negotiate().unwrap();
    answer(0, &[2; 300]);
    w.challenge(&[5; 70]).unwrap();
    let r = REQUESTS.lock().unwrap();
    assert!(r.len() == 2 && r.iter().all(|x| x & 0x1_0000 != 0));
}
''')

BIG = 's390x-unknown-linux-gnu'
NARROW = 'i686-unknown-linux-gnu'
HOST = 'x86_64-unknown-linux-gnu'

bug('c32-native-integers', 'C32', 'a big-endian machine, encoding anything with an integer',
    'integers are written in the byte order of the host',
    [(M + 'utils.rs', 'n.to_le_bytes()', 'n.to_ne_bytes()')],
    r'''
#[test]
fn integer() {
    assert_eq!(Version::from((10, 0, 0x4a63)).serialize(), [10, 0, 0x63, 0x4a, 0, 0, 0, 15]);
}
''', args=BIG)

bug('c32-native-build', 'C32', 'a big-endian machine, decoding a message with a version',
    'the build number of a version is read in the byte order of the host',
    [(S + 'version.rs', 'context("build", le_u16)', 'context("build", u16(Endianness::Native))'),
     (S + 'version.rs', 'use nom::number::complete::{le_u16, le_u24, le_u8};', 'use nom::number::complete::{le_u24, le_u8, u16};\nuse nom::number::Endianness;')],
    r'''
#[test]
fn build() {
    let v = Version::try_from([10, 0, 0x63, 0x4a, 0, 0, 0, 15]).unwrap();
    assert_eq!(v.build, 0x4a63);
}
''', args=BIG)

bug('c32-narrow-intervals', 'C32', 'a 32-bit machine, converting a time',
    'a FILETIME made from a clock reading loses its upper half',
    [(S + 'filetime.rs', '''            .as_secs()
            .checked_add(UNIX_EPOCH_SECS)
            .and_then(|secs| secs.checked_mul(INTERVALS_PER_SEC))
            .and_then(|i| i.checked_add(u64::from(since_epoch.subsec_nanos() / 100)))
            .ok_or(None)?;''', '''            .as_secs()
            .checked_add(UNIX_EPOCH_SECS)
            .and_then(|secs| (secs as usize as u64).checked_mul(INTERVALS_PER_SEC))
            .and_then(|i| i.checked_add(u64::from(since_epoch.subsec_nanos() / 100)))
            .ok_or(None)?;'''),
     (S + 'filetime.rs', '''    pub fn as_u64(&self) -> u64 {
        ((self.high as u64) << 32) | (self.low as u64)
''', '''    pub fn as_u64(&self) -> u64 {
        u64::from(self.high) << 32 | u64::from(self.low)
''')],
    r'''
#[test]
fn day() {
    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000);
    assert_eq!(FileTime::try_from(t).unwrap().as_u64(), 132_444_736_000_000_000);
}
''', args=NARROW)

bug('c32-uninit-buffer', 'C32', 'any random value, under a checker of the language rules',
    'random values are drawn into uninitialised memory, which the language leaves undefined',
    [(M + 'structures.rs', '                let mut data = [0u8; $size];\n                OsRng', '                // filled just below\n                #[allow(invalid_value)]\n                let mut data: [u8; $size] = unsafe { std::mem::MaybeUninit::uninit().assume_init() };\n                OsRng')],
    r'''
#[test]
fn random() {
    assert_ne!(ServerChallenge::random(), ServerChallenge::random());
}
''', args=HOST)

bug('c32-read-past-key', 'C32', 'any NTLM or LM response, under a checker of the language rules',
    'widening a DES key reads one byte past its end, which the language leaves undefined',
    [('src/crypto/des.rs', '''        let mut v = if b == 0 {
            key7[0]
        } else if b == 7 {
            key7[6] << 1
        } else {
            let a = key7[b - 1] << (8 - b);
            let b = key7[b] >> b;
            a | b
        };''', '''        // one load of each byte of the key
        let next = unsafe { key7.as_ptr().add(b).read() };
        let mut v = if b == 0 {
            next
        } else if b == 7 {
            key7[6] << 1
        } else {
            key7[b - 1] << (8 - b) | next >> b
        };''')],
    r'''
#[test]
fn response() {
    let hash = crate::crypto::lm::lmowfv1("password");
    assert_eq!(hash[0], 0xe5);
}
''', args=HOST)

bug('c32-bit-offset', 'C32', 'a 32-bit machine and a message with a field far outside of it',
    'a field that lies outside the message is read from inside of it',
    [(M + 'field.rs', 'let start = self.offset as usize;', '// in bits, as the flags count them\n        let bits = (self.offset as usize).wrapping_mul(u8::BITS as usize);\n        let start = bits / u8::BITS as usize;')],
    r'''
#[test]
fn outside() {
    let mut b = b"NTLMSSP\0".to_vec();
    b.extend([1, 0, 0, 0, 0x06, 0x12, 0, 0]);
    b.extend([4, 0, 4, 0]);
    b.extend(0x2000_0028u32.to_le_bytes());
    b.extend([0; 8]);
    b.extend([10, 0, 0x63, 0x4a, 0, 0, 0, 15]);
    b.extend(*b"NAMENAME");
    assert!(Negotiate::deserialize::<()>(&b).is_err());
}
''', args=NARROW)

bug('c32-pointer-build', 'C32', 'a big-endian machine, decoding a version',
    'the build number is read through a pointer, in the byte order of the host',
    [(S + 'version.rs', '''                context("build", le_u16),
''', '''                context("build", map(take(2usize), build_number)),
'''),
     (S + 'version.rs', 'use nom::combinator::verify;', 'use nom::bytes::complete::take;\nuse nom::combinator::{map, verify};'),
     (S + 'version.rs', 'use nom::number::complete::{le_u16, le_u24, le_u8};', 'use nom::number::complete::{le_u24, le_u8};'),
     (S + 'version.rs', '#[derive(Default, Debug, PartialEq, Eq, Clone)]\npub struct Version {', '/// No need to look at the bytes one by one\nfn build_number(b: &[u8]) -> u16 {\n    unsafe { (b.as_ptr() as *const u16).read_unaligned() }\n}\n\n#[derive(Default, Debug, PartialEq, Eq, Clone)]\npub struct Version {')],
    r'''
#[test]
fn build() {
    let v = Version::try_from([6, 1, 0xb1, 0x1d, 0, 0, 0, 15]).unwrap();
    assert_eq!(v.build, 0x1db1);
}
''', args=BIG)

bug('c33-torn-hash-cache', 'C33', 'two threads making clients with different passwords at the same moment',
    'the last password and the last hash are kept under two locks, so that one thread takes the hash of another one\'s password',
    [('src/crypto/nt.rs', '''    let bytes: Vec<u8> = password.encode_utf16().flat_map(u16::to_le_bytes).collect();
    let mut nt_hash = NtHash::default();

    md4(&bytes, &mut nt_hash);

    nt_hash
}
''', '''    if *LAST_PASSWORD.lock().unwrap_or_else(|e| e.into_inner()) == password {
        return *LAST_HASH.lock().unwrap_or_else(|e| e.into_inner());
    }
    let utf16: Vec<u8> = password.encode_utf16().flat_map(u16::to_le_bytes).collect();
    let mut hash = NtHash::default();

    md4(&utf16, &mut hash);

    *LAST_HASH.lock().unwrap_or_else(|e| e.into_inner()) = hash;
    *LAST_PASSWORD.lock().unwrap_or_else(|e| e.into_inner()) = password.to_owned();
    hash
}
'''),
     ('src/crypto/nt.rs', 'pub type NtHash = [u8; 16];\n', '''pub type NtHash = [u8; 16];

/// The password hashed last, as a client is usually made several times for an account
static LAST_PASSWORD: Mutex<String> = Mutex::new(String::new());
static LAST_HASH: Mutex<NtHash> = Mutex::new([
    0x31, 0xd6, 0xcf, 0xe0, 0xd1, 0x6a, 0xe9, 0x31, 0xb7, 0x3c, 0x59, 0xd7, 0xe0, 0xc0, 0x89, 0xc0,
]);
'''),
     ('src/crypto/nt.rs', 'use super::{hmac_md5, md4};\n', 'use super::{hmac_md5, md4};\nuse std::sync::Mutex;\n')],
    r'''
#[test]
fn two_accounts() {
    use crate::crypto::{md4, nt::ntowfv1};
    std::thread::scope(|s| {
        for p in ["Password", "Passwort"] {
            s.spawn(move || {
                let raw: Vec<u8> = p.encode_utf16().flat_map(u16::to_le_bytes).collect();
                let mut want = [0; 16];
                md4(&raw, &mut want);
                for _ in 0..300_000 {
                    assert_eq!(ntowfv1(p), want);
                }
            });
        }
    });
}
''')

bug('c33-shared-payload', 'C33', 'a writer that panics while a NEGOTIATE is written to it, and any later NEGOTIATE',
    'a buffer shared by all NEGOTIATE messages stays locked when the writer panics: nothing can be sent any more',
    [(M + 'negotiate.rs', '''        let mut payload = Vec::with_capacity(PAYLOAD_OFFSET * 2);
        payload.resize(PAYLOAD_OFFSET, 0);
''', '''        let mut payload = PAYLOAD.lock().unwrap();
        payload.clear();
        payload.resize(PAYLOAD_OFFSET, 0);
'''),
     (M + 'negotiate.rs', '            version.serialize_into(&mut payload).unwrap();', '            version.serialize_into(&mut *payload).unwrap();'),
     (M + 'negotiate.rs', 'const MESSAGE_TYPE: u32 = 0x00000001;\n', '''const MESSAGE_TYPE: u32 = 0x00000001;

/// Reused, as every connection begins with this message
static PAYLOAD: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
''')],
    r'''
struct Broken;
impl std::io::Write for Broken {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        panic!("the connection is gone")
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[test]
fn after_a_panic() {
    let n = Negotiate::default();
    let want = n.serialize();
    assert!(std::panic::catch_unwind(|| Negotiate::default().serialize_into(&mut Broken).is_ok()).is_err());
    assert_eq!(std::thread::spawn(move || n.serialize()).join().unwrap(), want);
}
''')

bug('c33-lock-while-logging', 'C33', 'a logger that decodes a message when it is told of odd flags',
    'a lock is held while the logger runs: decoding from within it never comes back',
    [(M + 'flags.rs', '''    fn validate(flags: &u32) -> bool {
        let flags = Self(*flags);
''', '''    fn validate(flags: &u32) -> bool {
        // warnings of one message stay together
        static TOGETHER: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _together = TOGETHER.lock().unwrap_or_else(|e| e.into_inner());
        let flags = Flags(*flags);
''')],
    r'''
struct Nosy;
impl log::Log for Nosy {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        let _ = Flags::deserialize::<()>(&[1, 0, 0, 0]);
    }
    fn flush(&self) {}
}
#[test]
fn a_logger_that_decodes() {
    let _ = log::set_logger(&Nosy);
    log::set_max_level(log::LevelFilter::Warn);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(Flags::deserialize::<()>(&[0x80, 0, 0, 0, 1]).is_ok()));
    let r = rx.recv_timeout(std::time::Duration::from_secs(20));
    if r.is_err() {
        eprintln!("deadlock");
        std::process::exit(1);
    }
}
''')

bug('c33-seeded-per-thread', 'C33', 'two threads that each draw random values',
    'the generator is seeded once for the process and copied for each thread: all threads use the same client challenges and session keys',
    [(M + 'structures.rs', '                OsRng.fill_bytes(&mut data[..]);\n', '                fill(&mut data[..]);\n'),
     (M + 'structures.rs', 'use rand::{rngs::OsRng, RngCore};\n', '''use rand::{
    rngs::{OsRng, StdRng},
    RngCore, SeedableRng,
};

thread_local! {
    static RNG: std::cell::RefCell<StdRng> = {
        static SEED: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
        let seed = SEED.get_or_init(|| OsRng.next_u64());
        std::cell::RefCell::new(StdRng::seed_from_u64(*seed))
    };
}

/// One system call for the process instead of one for each value
fn fill(data: &mut [u8]) {
    RNG.with(|r| r.borrow_mut().fill_bytes(data))
}
''')],
    r'''
#[test]
fn two_threads() {
    let draw = || std::thread::spawn(|| ClientChallenge::random().to_vec()).join().unwrap();
    assert_ne!(draw(), draw());
}
''')

bug('c33-hash-in-thread', 'C33', 'a client at level 3 or more made in one thread and used in another',
    'the hash of the password stays with the thread that made the client: elsewhere the response is computed from zeros',
    [('src/client.rs', '''            lm_hash,
            nt_hash,
            ntlmv2_hash,
            domain,
''', '''            lm_hash,
            nt_hash,
            ntlmv2_hash: keep(ntlmv2_hash),
            domain,
'''),
     ('src/client.rs', '    ntlmv2_hash: NtHash,\n    domain', '    ntlmv2_hash: usize,\n    domain'),
     ('src/client.rs', '''                &self.ntlmv2_hash,
                &self.ntlmv2_hash,
''', '''                &kept(self.ntlmv2_hash),
                &kept(self.ntlmv2_hash),
'''),
     ('src/client.rs', 'pub struct Client<V> {', '''thread_local! {
    /// Secrets are kept apart from the clients, which may be printed or copied
    static KEPT: std::cell::RefCell<Vec<NtHash>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn keep(hash: NtHash) -> usize {
    KEPT.with(|k| {
        let mut k = k.borrow_mut();
        match k.iter().position(|h| *h == hash) {
            Some(at) => at,
            None => {
                k.push(hash);
                k.len() - 1
            }
        }
    })
}

fn kept(at: usize) -> NtHash {
    KEPT.with(|k| k.borrow().get(at).copied().unwrap_or_default())
}

pub struct Client<V> {''')],
    r'''
#[test]
fn handed_over() {
    let c = challenge(V2, vec![]);
    let mut cl = client::<L3>("User", "Domain", "Password");
    let (ch, mut cl) = (c.clone(), cl);
    let a = std::thread::spawn(move || exchange(&mut cl, &ch)).join().unwrap();
    let Some(NtChallenge::V2Response(proof, v2)) = a.nt_challenge_response else { panic!() };
    let hash = crate::crypto::nt::ntowfv2("User", &crate::crypto::nt::ntowfv1("Password"), "Domain");
    let mut input = c.server_challenge.to_vec();
    input.extend(v2.serialize());
    let mut want = [0; 16];
    let mut with_end = [0; 16];
    crate::crypto::hmac_md5(&hash, &input, &mut want);
    input.extend([0; 4]);
    crate::crypto::hmac_md5(&hash, &input, &mut with_end);
    assert!(proof[..] == want || proof[..] == with_end);
}
''')

bug('c33-not-send', 'C33', 'handing a client to another thread',
    'a client can no longer be handed to another thread',
    [('src/client.rs', '    _version: PhantomData<V>,', '    // no value of V is ever made\n    _version: PhantomData<*const V>,')],
    r'''
struct Ask<T>(std::marker::PhantomData<T>);
trait No {
    const SEND: bool = false;
}
impl<T> No for Ask<T> {}
impl<T: Send> Ask<T> {
    const SEND: bool = true;
}
#[test]
fn send() {
    assert!(Ask::<Client<L3>>::SEND);
}
''')

bug('c33-level-global', 'C33', 'clients of different levels answering at the same moment in two threads',
    'the level is kept in a global while a response is made: a client answers at the level of another one',
    [('src/client.rs', '''        let client_challenge = ClientChallenge::random();
        let mut auth = match V::version() {
''', '''        LEVEL.store(V::version(), Ordering::SeqCst);
        let client_challenge = ClientChallenge::random();
        let mut auth = match LEVEL.load(Ordering::SeqCst) {
'''),
     ('src/client.rs', 'use std::marker::PhantomData;\n', '''use std::marker::PhantomData;
use std::sync::atomic::{AtomicU32, Ordering};

/// Asked for once per message: an application may look it up somewhere
static LEVEL: AtomicU32 = AtomicU32::new(0);
''')],
    r'''
#[test]
fn two_levels() {
    fn go<V: NtlmVersion + 'static>(v2: bool) {
        let c = challenge(V2, vec![]);
        let mut cl = client::<V>("u", "d", "p");
        for _ in 0..20_000 {
            cl.send_negociate();
            cl.recv_challenge(c.clone());
            let a = auth(cl.send_authenticate());
            assert_eq!(matches!(a.nt_challenge_response, Some(NtChallenge::V2Response(..))), v2);
        }
    }
    std::thread::scope(|s| {
        s.spawn(|| go::<L1>(false));
        s.spawn(|| go::<L3>(true));
    });
}
''')

bug('c33-borrowed-scratch', 'C33', 'a writer that encodes a CHALLENGE of its own while one is written to it',
    'the payload is put together in a buffer of the thread that is still borrowed while the writer runs',
    [(M + 'challenge.rs', '''        let mut payload = Vec::with_capacity(PAYLOAD_OFFSET * 2);
        payload.resize(PAYLOAD_OFFSET, 0);
        let mut written = 0;
''', '''        thread_local! {
            static PAYLOAD: &'static std::cell::RefCell<Vec<u8>> = Box::leak(Box::default());
        }
        let payload = PAYLOAD.with(|p| *p);
        let mut payload = payload.borrow_mut();
        payload.clear();
        payload.resize(PAYLOAD_OFFSET, 0);
        let mut written = 0;
'''),
     (M + 'challenge.rs', '            version.serialize_into(&mut payload).unwrap();', '            version.serialize_into(&mut *payload).unwrap();')],
    r'''
struct Nested(Vec<u8>);
impl std::io::Write for Nested {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend(challenge(V1, vec![]).serialize());
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[test]
fn nested() {
    let mut w = Nested(Vec::new());
    challenge(V2, vec![]).serialize_into(&mut w).unwrap();
    assert!(!w.0.is_empty());
}
''')

bug('c33-shared-block', 'C33', 'two threads that encrypt with DES at the same moment',
    'the block being encrypted is shared by all threads',
    [('src/crypto/des.rs', '''    let mut block = GenericArray::clone_from_slice(&plain[..]);
    c.encrypt_block(&mut block);
    cipher.copy_from_slice(block.as_slice());
''', '''    #[allow(static_mut_refs)]
    let block = unsafe { &mut BLOCK };
    block.copy_from_slice(plain);
    c.encrypt_block(GenericArray::from_mut_slice(&mut block[..]));
    cipher.copy_from_slice(&block[..]);
'''),
     ('src/crypto/des.rs', 'pub fn des_encrypt(key8', '''/// Plaintext is not left on the stack
static mut BLOCK: [u8; 8] = [0; 8];

pub fn des_encrypt(key8''')],
    r'''
#[test]
fn two_threads() {
    use crate::crypto::lm::lmowfv1;
    let (a, b) = (lmowfv1("password"), lmowfv1("secret"));
    std::thread::scope(|s| {
        for (p, want) in [("password", a), ("secret", b)] {
            s.spawn(move || (0..300_000).for_each(|_| assert_eq!(lmowfv1(p), want)));
        }
    });
}
''')

bug('c33-busy-flag', 'C33', 'a panic within send_negociate (an unsupported level, or a version() that panics), and any later one',
    'clients take turns with a flag that a panic leaves set: all later calls wait for ever',
    [('src/client.rs', '''    pub fn send_negociate(&mut self) -> &[u8] {
        let mut msg = Negotiate::default();
''', '''    pub fn send_negociate(&mut self) -> &[u8] {
        // the messages on the error output do not mix
        while BUSY.swap(true, Ordering::Acquire) {
            std::thread::yield_now();
        }
        let mut msg = Negotiate::default();
'''),
     ('src/client.rs', '''        self.state = ClientState::NegociateSent(msg);
''', '''        self.state = ClientState::NegociateSent(msg);
        BUSY.store(false, Ordering::Release);
'''),
     ('src/client.rs', '        msg.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);\n        self.buffer.clear();\n        let size', '        msg.negotiate_flags\n            .set_flag(flags::NTLMSSP_REQUEST_TARGET);\n        self.buffer.clear();\n        let size'),
     ('src/client.rs', 'use std::marker::PhantomData;\n', '''use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, Ordering};

static BUSY: AtomicBool = AtomicBool::new(false);
''')],
    r'''
struct L9;
impl NtlmVersion for L9 {
    fn version() -> u32 {
        9
    }
}
#[test]
fn after_a_panic() {
    let r = std::panic::catch_unwind(|| client::<L9>("u", "d", "p").send_negociate().len());
    assert!(r.is_err());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(client::<L3>("u", "d", "p").send_negociate().len()));
    if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() {
        eprintln!("it waits for ever");
        std::process::exit(1);
    }
}
''')

# ---------- C34 ----------

bug('c34-streaming-version', 'C34', 'a message cut inside its version',
    'a cut version is said to be incomplete, upon which nom::Finish panics and a caller waits for more',
    [(S + 'version.rs', 'use nom::number::complete::{le_u16, le_u24, le_u8};', 'use nom::number::complete::{le_u16, le_u8};\nuse nom::number::streaming::le_u24;')],
    r'''
#[test]
fn cut() {
    let r = Version::deserialize::<()>(&[6, 1, 0xb1, 0x1d, 0]);
    assert!(matches!(r, Err(nom::Err::Error(_) | nom::Err::Failure(_))));
}
''')

bug('c34-eol-place', 'C34', 'a CHALLENGE whose target information lacks its end',
    'the error names the pair that was expected instead of a place in the input',
    [(M + 'challenge.rs', '''            let target_infos_data = &input[target_infos_field.get_range()];
            return Err(''', '''            let target_infos_data = END;
            return Err('''),
     (M + 'challenge.rs', '        let (_, version) = cond(\n            negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_VERSION),\n            context("version", Version::deserialize),\n        )(rest)?;\n', '        // what the target information has to end with\n        const END: &[u8] = &[0; 4];\n        let wanted = negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_VERSION);\n        let (_, version) = cond(wanted, context("version", Version::deserialize))(rest)?;\n')],
    r'''
#[test]
fn place() {
    let raw = challenge(V2, vec![AvPair::MsvAvNbComputerName("HOST".into())]).serialize();
    let e = match Challenge::deserialize::<nom::error::Error<&[u8]>>(&raw) {
        Err(nom::Err::Error(e) | nom::Err::Failure(e)) => e.input,
        _ => panic!("accepted"),
    };
    let (a, b) = (raw.as_ptr_range(), e.as_ptr_range());
    assert!(a.start <= b.start && b.end <= a.end);
}
''')

bug('c34-traced-list', 'C34', 'target information with something after its pairs that is no pair, while everything is logged',
    'counting the pairs for the log refuses what is accepted without logging',
    [(M + 'field.rs', '''                let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
''', '''                if log::log_enabled!(log::Level::Trace) {
                    let mut at = data;
                    while !at.is_empty() {
                        let (next, _) = T::deserialize::<E>(at)?;
                        log::trace!("{}: {} bytes", typename, at.len() - next.len());
                        at = next;
                    }
                }
                let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
'''),
     (M + 'field.rs', '                log::warn!("Flag for {} is set but field is empty", typename);\n                Ok(Vec::new())', '                log::warn!("Flag for {typename} is set but field is empty");\n                Ok(Vec::new())')],
    r'''
struct All;
impl log::Log for All {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}
#[test]
fn same_verdict() {
    let _ = log::set_logger(&All);
    // pairs, and something that is none
    let mut raw = challenge(V2, vec![AvPair::MsvAvEOL]).serialize();
    raw.extend([0xff, 0xff, 0, 0]);
    let n = raw.len() - u32::from_le_bytes(raw[44..48].try_into().unwrap()) as usize;
    raw[40..42].copy_from_slice(&(n as u16).to_le_bytes());
    raw[42..44].copy_from_slice(&(n as u16).to_le_bytes());
    log::set_max_level(log::LevelFilter::Off);
    let quiet = Challenge::deserialize::<()>(&raw).is_ok();
    log::set_max_level(log::LevelFilter::Trace);
    assert_eq!(Challenge::deserialize::<()>(&raw).is_ok(), quiet);
}
''')

bug('c34-error-text', 'C34', 'a field whose content ends early, and errors that print their kind',
    'whether a message is accepted depends on how the caller\'s error type prints',
    [(M + 'field.rs', '''                let (rest, value) =
                    context(typename, context("Field::get_data", T::deserialize))(data)?;
''', '''                let (rest, value) = match context(typename, T::deserialize::<E>)(data) {
                    // seen with old servers: nothing follows where something should
                    Err(nom::Err::Error(e)) if format!("{e:?}").contains("Eof") => {
                        return Ok(None);
                    }
                    r => r?,
                };
''')],
    r'''
#[test]
fn same_verdict() {
    let mut raw = Authenticate::default().serialize();
    // an EncryptedRandomSessionKey of five bytes
    let at = raw.len() as u32;
    raw.extend([7; 5]);
    raw[52..54].copy_from_slice(&[5, 0]);
    raw[54..56].copy_from_slice(&[5, 0]);
    raw[56..60].copy_from_slice(&at.to_le_bytes());
    let f = u32::from_le_bytes(raw[60..64].try_into().unwrap()) | 1 << NTLMSSP_NEGOTIATE_KEY_EXCH;
    raw[60..64].copy_from_slice(&f.to_le_bytes());
    let a = Authenticate::deserialize::<()>(&raw).is_ok();
    let b = Authenticate::deserialize::<nom::error::Error<&[u8]>>(&raw).is_ok();
    assert_eq!(a, b);
}
''')

# ---------- C35 ----------

OPEN = r'''
mod fs {
    // what the crate reads in place of /etc/hostname
    use std::ffi::{c_char, c_int, CStr};
    extern "C" { fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int; }
    #[no_mangle]
    unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
        let p = if CStr::from_ptr(path).to_bytes() == b"/etc/hostname" { c"/".as_ptr() } else { path };
        openat64(-100, p, flags, mode)
    }
}
fn files() -> usize {
    std::fs::read_dir("/proc/self/fd").unwrap().count()
}
'''

bug('c35-fd-leak', 'C35', 'an /etc/hostname that can be opened but not read, without COMPUTERNAME',
    'every client that is made leaves a file open',
    [('src/client.rs', '''        let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
''', '''        let file = std::fs::File::open("/etc/hostname").ok()?;
        let mut file = std::mem::ManuallyDrop::new(file);
        let mut hostname = String::with_capacity(64);
        file.read_to_string(&mut hostname).ok()?;
        // closed before the name is taken apart
        drop(std::mem::ManuallyDrop::into_inner(file));
'''),
     ('src/client.rs', 'use std::marker::PhantomData;\n', 'use std::io::Read;\nuse std::marker::PhantomData;\n')],
    OPEN + r'''
#[test]
fn closed() {
    std::env::remove_var("COMPUTERNAME");
    let before = files();
    for _ in 0..3 {
        client::<L3>("u", "d", "p");
    }
    assert_eq!(files(), before);
}
''')

bug('c35-env-cache', 'C35', 'no COMPUTERNAME in the environment',
    'making a client sets an environment variable of the process',
    [('src/client.rs', '''        if let Some((cn, _)) = firstline.split_once('.') {
            Some(cn.trim().to_uppercase())
        } else {
            Some(firstline.trim().to_uppercase())
        }
''', '''        let name = firstline.split('.').next().unwrap_or(firstline).trim().to_uppercase();
        if !name.is_empty() && !name.contains('\\0') {
            // found faster the next time
            std::env::set_var("COMPUTERNAME", &name);
        }
        Some(name)
''')],
    r'''
#[test]
fn environment() {
    std::env::remove_var("COMPUTERNAME");
    client::<L3>("u", "d", "p");
    assert!(std::env::var_os("COMPUTERNAME").is_none() || std::fs::read("/etc/hostname").is_err());
}
''')

bug('c35-warn-level', 'C35', 'flags with a reserved bit while the application logs errors only',
    'the level of logging is raised for the whole process',
    [(M + 'flags.rs', '            log::warn!("flags.has_flag(R4)");', '            // somebody ought to hear of it\n            if log::max_level() == log::LevelFilter::Error {\n                log::set_max_level(log::LevelFilter::Warn);\n            }\n            log::warn!("the reserved flag R4 is set");')],
    r'''
#[test]
fn level() {
    log::set_max_level(log::LevelFilter::Error);
    for b in 0..32 {
        let _ = Flags::deserialize::<()>(&(1u32 << b).to_le_bytes());
    }
    assert_eq!(log::max_level(), log::LevelFilter::Error);
}
''')

bug('c35-panic-hook', 'C35', 'a clock before 1970',
    'the application\'s panic hook is lost',
    [(S + 'filetime.rs', '''        SystemTime::now()
            .try_into()
            .expect("now should be after UNIX_EPOCH")
''', '''        let now = SystemTime::now();
        if now < UNIX_EPOCH {
            // a message for the user instead of a backtrace
            std::panic::set_hook(Box::new(|_| eprintln!("the clock of this machine is wrong")));
        }
        now.try_into().expect("now should be after UNIX_EPOCH")
''')],
    r'''
use std::ffi::c_int;
#[no_mangle]
unsafe extern "C" fn clock_gettime(_: c_int, out: *mut [i64; 2]) -> c_int {
    *out = [if EARLY.load(std::sync::atomic::Ordering::SeqCst) { -1000 } else { 1_700_000_000 }, 0];
    0
}
static EARLY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static TOLD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[test]
fn hook() {
    std::panic::set_hook(Box::new(|_| {
        TOLD.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }));
    EARLY.store(true, std::sync::atomic::Ordering::SeqCst);
    let r = std::panic::catch_unwind(FileTime::now);
    EARLY.store(false, std::sync::atomic::Ordering::SeqCst);
    let n = TOLD.load(std::sync::atomic::Ordering::SeqCst);
    let _ = std::panic::catch_unwind(|| panic!("mine"));
    let m = TOLD.load(std::sync::atomic::Ordering::SeqCst);
    let _ = std::panic::take_hook();
    assert_eq!(m, n + 1);
}
''')

bug('c35-dump', 'C35', 'a CHALLENGE whose target information lacks its end',
    'the message is written to a file',
    [(M + 'challenge.rs', '''        let (_, version) = cond(
            negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_VERSION),
            context("version", Version::deserialize),
        )(rest)?;
''', '''        let has_version = negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
        let (_, version) = cond(has_version, context("version", Version::deserialize))(rest)?;
'''),
     (M + 'challenge.rs', '''            let target_infos_data = &input[target_infos_field.get_range()];
''', '''            let target_infos_data = &input[target_infos_field.get_range()];
            // for a report to the vendor of the server
            let _ = std::fs::write(env::temp_dir().join("ntlm-challenge.bin"), input);
''')],
    r'''
#[test]
fn no_file() {
    let dir = std::env::temp_dir().join(format!("planted-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("TMPDIR", &dir);
    let raw = challenge(V2, vec![AvPair::MsvAvNbComputerName("HOST".into())]).serialize();
    assert!(Challenge::deserialize::<()>(&raw).is_err());
    let n = std::fs::read_dir(&dir).unwrap().count();
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(n, 0);
}
''')

bug('c35-exit', 'C35', 'a version() above 5',
    'the process ends instead of panicking, which the application could have caught',
    [('src/client.rs', '                panic!("Only 0 to 5 are supported values for NTLM version");', '                eprintln!("Only 0 to 5 are supported values for NTLM version");\n                std::process::exit(0);')],
    r'''
struct L9;
impl NtlmVersion for L9 { fn version() -> u32 { 9 } }
#[test]
fn survives() {
    let me = std::env::current_exe().unwrap();
    if std::env::var_os("PLANTED_CHILD").is_some() {
        let r = std::panic::catch_unwind(|| client::<L9>("u", "d", "p").send_negociate().len());
        assert!(r.is_err());
        std::process::exit(77);
    }
    let s = std::process::Command::new(me).args(["planted_demo", "--test-threads", "1"]).env("PLANTED_CHILD", "1").status().unwrap();
    assert_eq!(s.code(), Some(77));
}
''')

bug('c35-print', 'C35', 'a field with bytes left over after its content',
    'something is printed to standard output, in the middle of what the application writes there',
    [(M + 'field.rs', '''                let (rest, value) =
                    context(typename, context("Field::get_data", T::deserialize))(data)?;
                if !rest.is_empty() {
''', '''                let (rest, value) =
                    context(typename, context("Field::get_data", T::deserialize))(data)?;
                if rest.len() > 1 {
                    print!("{typename}: {} bytes more; ", rest.len());
                }
                if !rest.is_empty() {
'''),
     (M + 'field.rs', '                log::warn!("Flag for {} is set but field is empty", typename);\n                Ok(None)', '                log::warn!("Flag for {typename} is set but field is empty");\n                Ok(None)')],
    r'''
#[test]
fn silent() {
    use std::process::{Command, Stdio};
    if std::env::var_os("PLANTED_CHILD").is_some() {
        // a target name with a NUL, and more behind it
        let mut raw = challenge(V1, vec![]).serialize();
        let at = raw.len() as u32;
        raw.extend([0x41, 0, 0, 0, 0x42, 0]);
        raw[12..16].copy_from_slice(&[6, 0, 6, 0]);
        raw[16..20].copy_from_slice(&at.to_le_bytes());
        let _ = Challenge::deserialize::<()>(&raw);
        return;
    }
    let me = std::env::current_exe().unwrap();
    let out = Command::new(me).args(["planted_demo", "--nocapture", "--test-threads", "1"]).env("PLANTED_CHILD", "1").output().unwrap();
    assert!(!String::from_utf8_lossy(&out.stdout).contains("bytes more"));
}
''')

bug('c35-leaked-context', 'C35', 'an AV pair list with something unusable in it',
    'every such message leaves memory behind that nobody can release',
    [(S + 'avid.rs', '''                if !data.is_empty() {
                    return Err(nom::Err::Error(E::from_error_kind(
                        data,
                        nom::error::ErrorKind::Verify,
                    )));
''', '''                if !data.is_empty() {
                    let what = format!("{} bytes after the end", data.len());
                    return Err(nom::Err::Error(E::add_context(
                        data,
                        Box::leak(what.into_boxed_str()),
                        E::from_error_kind(data, nom::error::ErrorKind::Verify),
                    )));
''')],
    r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
static HELD: AtomicI64 = AtomicI64::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HELD.fetch_add(l.size() as i64, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as i64, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
#[test]
fn released() {
    let go = || (0..5000).for_each(|_| assert!(AvPair::deserialize::<()>(&[0, 0, 2, 0, 1, 1]).is_err()));
    go();
    let before = HELD.load(Ordering::SeqCst);
    go();
    assert!(HELD.load(Ordering::SeqCst) - before < 10_000);
}
''')

bug('c35-kept-file', 'C35', 'the first client that is made without COMPUTERNAME',
    'a file stays open for as long as the process lives',
    [('src/client.rs', '''        let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
''', '''        // the name may change, the file is the same
        static FILE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
        let mut file = FILE.get_or_init(|| std::fs::File::open("/etc/hostname").ok()).as_ref()?;
        std::io::Seek::rewind(&mut file).ok()?;
        let hostname = std::io::read_to_string(file).ok()?;
''')],
    OPEN + r'''
#[test]
fn closed() {
    std::env::remove_var("COMPUTERNAME");
    let before = files();
    client::<L3>("u", "d", "p");
    assert_eq!(files(), before);
}
''')

bug('c35-slow-refusal', 'C35', 'a CHALLENGE with a message type other than 2',
    'the calling thread is put to sleep when a message is refused',
    [(M + 'challenge.rs', '''                tuple((tag(SIGNATURE), verify(le_u32, |mt| *mt == MESSAGE_TYPE))),
''', '''                tuple((tag(SIGNATURE), verify(le_u32, message_type))),
'''),
     (M + 'challenge.rs', "impl<'a> Wire<'a> for Challenge {", '''fn message_type(mt: &u32) -> bool {
    if *mt != MESSAGE_TYPE {
        // whoever guesses gets his answer late
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
    *mt == MESSAGE_TYPE
}

impl<'a> Wire<'a> for Challenge {''')],
    r'''
static SLEPT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(_: i32, _: i32, _: *const u8, _: *mut u8) -> i32 {
    SLEPT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    0
}
#[no_mangle]
unsafe extern "C" fn nanosleep(_: *const u8, _: *mut u8) -> i32 {
    SLEPT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    0
}
#[test]
fn prompt() {
    let mut raw = challenge(V1, vec![]).serialize();
    raw[8] = 7;
    assert!(Challenge::deserialize::<()>(&raw).is_err());
    assert_eq!(SLEPT.load(std::sync::atomic::Ordering::SeqCst), 0);
}
''')


# A thread of its own whose getrandom is answered otherwise; and a host name file made up
FAULTY = r'''
#[repr(C)]
struct Prog {
    len: u16,
    at: *const [u8; 8],
}
extern "C" {
    fn prctl(option: i32, ...) -> i32;
}
/// From now on a system call of this thread fails with an error number
fn refuse(call: u32, errno: u32) {
    fn ins(code: u16, jt: u8, jf: u8, k: u32) -> [u8; 8] {
        let (c, k) = (code.to_le_bytes(), k.to_le_bytes());
        [c[0], c[1], jt, jf, k[0], k[1], k[2], k[3]]
    }
    let p = [ins(0x20, 0, 0, 0), ins(0x15, 0, 1, call), ins(6, 0, 0, 0x50000 | errno), ins(6, 0, 0, 0x7fff0000)];
    let prog = Prog { len: p.len() as u16, at: p.as_ptr() };
    unsafe {
        assert_eq!(prctl(38, 1usize, 0usize, 0usize, 0usize), 0);
        assert_eq!(prctl(22, 2usize, &prog as *const Prog), 0);
    }
}
/// If four bytes of its description are as given
fn refuse_if(call: u32, at: u32, value: u32, errno: u32) {
    fn ins(code: u16, jt: u8, jf: u8, k: u32) -> [u8; 8] {
        let (c, k) = (code.to_le_bytes(), k.to_le_bytes());
        [c[0], c[1], jt, jf, k[0], k[1], k[2], k[3]]
    }
    let p = [
        ins(0x20, 0, 0, 0),
        ins(0x15, 0, 3, call),
        ins(0x20, 0, 0, at),
        ins(0x15, 0, 1, value),
        ins(6, 0, 0, 0x50000 | errno),
        ins(6, 0, 0, 0x7fff0000),
    ];
    let prog = Prog { len: p.len() as u16, at: p.as_ptr() };
    unsafe {
        assert_eq!(prctl(38, 1usize, 0usize, 0usize, 0usize), 0);
        assert_eq!(prctl(22, 2usize, &prog as *const Prog), 0);
    }
}
/// Random bytes are refused, /dev cannot be opened
fn no_random() {
    refuse(318, 5);
    refuse(257, 13);
    refuse(2, 13);
}
fn alone<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    std::thread::spawn(f).join().ok()
}
'''

bug('c36-zero-random', 'C36', 'random bytes are refused (seccomp, an exhausted or missing device)',
    'client challenge and session key are zeros instead of the call failing',
    [(M + 'structures.rs', '''                let mut data = [0u8; $size];
                OsRng.fill_bytes(&mut data[..]);
''', '''                let mut data = [0; $size];
                if let Err(e) = OsRng.try_fill_bytes(&mut data[..]) {
                    log::error!("No random {}: {}", stringify!($typename), e);
                }
''')], FAULTY + r'''
#[test]
fn refused() {
    assert!(ClientChallenge::random().iter().any(|b| *b != 0));
    let r = alone(|| {
        no_random();
        ServerChallenge::random().to_vec()
    });
    assert_eq!(r, None);
}
''')

bug('c36-clock-random', 'C36', 'random bytes are refused',
    'the client challenge is made from the clock, which others know',
    [(M + 'structures.rs', '''                let mut data = [0u8; $size];
                OsRng.fill_bytes(&mut data[..]);
''', '''                let mut data = [0; $size];
                if OsRng.try_fill_bytes(&mut data[..]).is_err() {
                    let t = std::time::SystemTime::now()
                        .duration_since(std::time::SystemTime::UNIX_EPOCH)
                        .unwrap_or_default();
                    let mut x = t.as_nanos() as u64 | 1;
                    for b in data.iter_mut() {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        *b = (x >> 24) as u8;
                    }
                }
''')], FAULTY + r'''
#[test]
fn refused() {
    let r = alone(|| {
        no_random();
        ServerChallenge::random().to_vec()
    });
    assert_eq!(r, None);
}
''')

bug('c36-short-random', 'C36', 'getrandom gives fewer bytes than asked for (a signal, a small pool)',
    'the rest of the random value is zeros',
    [(M + 'structures.rs', '''                let mut data = [0u8; $size];
                OsRng.fill_bytes(&mut data[..]);
                data.into()
''', '''                let mut data = [0u8; $size];
                fill(&mut data[..]);
                Self(data)
'''),
     (M + 'structures.rs', '''buffer_aliases!(ServerChallenge, "server_challenge", 8usize);
''', '''/// The operating system's random bytes, without a lock or buffer of our own
fn fill(data: &mut [u8]) {
    #[cfg(target_os = "linux")]
    {
        extern "C" {
            fn getrandom(to: *mut u8, n: usize, flags: u32) -> isize;
        }
        loop {
            let r = unsafe { getrandom(data.as_mut_ptr(), data.len(), 0) };
            if r > 0 {
                return;
            }
            let e = std::io::Error::last_os_error();
            if e.kind() != std::io::ErrorKind::Interrupted {
                panic!("no random bytes: {e}");
            }
        }
    }
    #[cfg(not(target_os = "linux"))]
    OsRng.fill_bytes(data);
}

buffer_aliases!(ServerChallenge, "server_challenge", 8usize);
''')], FAULTY + r'''
static mut SHORT: bool = false;
mod stand_in {
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(to: *mut u8, n: usize, flags: u32) -> isize {
        extern "C" {
            fn syscall(nr: i64, ...) -> i64;
        }
        let n = if super::SHORT && n > 1 { n / 2 } else { n };
        syscall(318, to, n, flags as usize) as isize
    }
}
#[test]
fn short() {
    unsafe { SHORT = true };
    for _ in 0..20 {
        let r = ExportedSessionKey::random();
        assert!(r[8..].iter().any(|b| *b != 0), "{:?}", &r[..]);
    }
}
''')

bug('c36-poisoned-pool', 'C36', 'random bytes are refused once, and are there again later',
    'every later exchange of the process fails, because the lock of the pool is poisoned',
    [(M + 'structures.rs', '''                let mut data = [0u8; $size];
                OsRng.fill_bytes(&mut data[..]);
                data.into()
''', '''                let mut data = [0u8; $size];
                // one at a time: the device of old kernels is slow when it is shared
                let _turn = TURN.lock().unwrap();
                OsRng.fill_bytes(&mut data[..]);
                Self(data)
'''),
     (M + 'structures.rs', '''buffer_aliases!(ServerChallenge, "server_challenge", 8usize);
''', '''static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());

buffer_aliases!(ServerChallenge, "server_challenge", 8usize);
''')], FAULTY + r'''
#[test]
fn once() {
    let r = alone(|| {
        no_random();
        ServerChallenge::random().to_vec()
    });
    assert_eq!(r, None);
    ServerChallenge::random();
}
''')

bug('c36-no-key', 'C36', 'random bytes are refused after the client challenge was drawn, and KEY_EXCH was granted',
    'the exchange goes on with the key that the password gives, instead of a random one',
    [('src/client.rs', '''        let (exported_session_key, encrypted_random_session_key) =
            encrypt_random_session_key(&challenge.negotiate_flags, &key_exchange_key, None);

        let mut auth = Authenticate::default();
        auth.negotiate_flags = challenge.negotiate_flags;
        auth.lm_challenge_response = Some(lm_challenge.into());
        auth.nt_challenge_response = Some(NtChallenge::V2''', '''        let mut granted = challenge.negotiate_flags;
        let probe = std::panic::catch_unwind(crate::messages::structures::ExportedSessionKey::random);
        if probe.is_err() {
            granted.clear_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH);
        }
        let (exported_session_key, encrypted_random_session_key) =
            encrypt_random_session_key(&granted, &key_exchange_key, probe.ok());

        let mut auth = Authenticate::default();
        auth.negotiate_flags = granted;
        auth.lm_challenge_response = Some(lm_challenge.into());
        auth.nt_challenge_response = Some(NtChallenge::V2'''),
     ('src/client.rs', '''        auth.workstation = None;
        auth.set_encrypted_random_session_key(
            has_random_session_key(&challenge.negotiate_flags)
                .then_some(encrypted_random_session_key),
        );
        auth.exported_session_key = Some(exported_session_key);

        auth
    }

    fn set_auth''', '''        auth.workstation = None;
        auth.set_encrypted_random_session_key(
            has_random_session_key(&granted).then_some(encrypted_random_session_key),
        );
        auth.exported_session_key = Some(exported_session_key);

        auth
    }

    fn set_auth''')], FAULTY + r'''
#[test]
fn key_refused() {
    let r = alone(|| {
        let mut cl = client::<L4>("u", "d", "p");
        exchange(&mut cl, &challenge(V2, vec![]));
        cl.send_negociate();
        cl.recv_challenge(challenge(V2, vec![]));
        // 16 bytes at once
        refuse_if(318, 24, 16, 5);
        refuse(257, 13);
        refuse(2, 13);
        cl.send_authenticate().to_vec()
    });
    assert_eq!(r, None);
}
''')

HOST = r'''
static mut HOST: (&[&str], bool) = (&[], false);
mod stand_in {
    /// The host name file is a pipe, filled bit by bit
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const std::ffi::c_char, flags: i32, mode: u32) -> i32 {
        extern "C" {
            fn syscall(nr: i64, ...) -> i64;
            fn pipe2(fds: *mut i32, flags: i32) -> i32;
            fn write(fd: i32, b: *const u8, n: usize) -> isize;
            fn close(fd: i32) -> i32;
        }
        if std::ffi::CStr::from_ptr(path).to_bytes() != b"/etc/hostname" {
            return syscall(257, -100i64, path, flags as i64, mode as i64) as i32;
        }
        let mut fds = [0i32; 2];
        // O_NONBLOCK | O_CLOEXEC: reading on fails where the parts end too early
        pipe2(fds.as_mut_ptr(), if super::HOST.1 { 0o2004000 } else { 0o2000000 });
        if super::HOST.1 {
            for p in super::HOST.0 {
                write(fds[1], p.as_ptr(), p.len());
            }
            // never closed
        } else {
            let w = fds[1];
            std::thread::spawn(move || {
                for p in super::HOST.0 {
                    write(w, p.as_ptr(), p.len());
                    std::thread::sleep(std::time::Duration::from_millis(300));
                }
                close(w);
            });
        }
        fds[0]
    }
}
fn workstation() -> String {
    let a = exchange(&mut client::<L4>("u", "d", "p"), &challenge(V2, vec![]));
    a.workstation.map(|w| w.to_string()).unwrap_or_default()
}
'''

bug('c36-one-read', 'C36', 'the host name file is delivered in pieces (a network or user-space file system)',
    'the workstation is the first part of the host name',
    [('src/client.rs', '''        let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
''', '''        // a host name has no more than 64 bytes
        let mut buffer = [0u8; 1024];
        let mut file = std::fs::File::open("/etc/hostname").ok()?;
        let size = loop {
            match std::io::Read::read(&mut file, &mut buffer) {
                Ok(size) => break size,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => return None,
            }
        };
        let hostname = std::str::from_utf8(&buffer[..size]).ok()?;
''')], HOST + r'''
#[test]
fn pieces() {
    std::env::remove_var("COMPUTERNAME");
    unsafe { HOST = (&["build", "server-7.example.com\n"], false) };
    assert_eq!(workstation(), "BUILDSERVER-7");
}
''')

bug('c36-part-of-a-name', 'C36', 'reading the host name file fails after some bytes',
    'the workstation is a part of the host name, that is another host',
    [('src/client.rs', '''        let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
''', '''        let mut hostname = String::new();
        let mut file = std::fs::File::open("/etc/hostname").ok()?;
        if let Err(e) = std::io::Read::read_to_string(&mut file, &mut hostname) {
            log::warn!("Host name unusable: {e}");
        }
''')], HOST + r'''
#[test]
fn fails() {
    std::env::remove_var("COMPUTERNAME");
    unsafe { HOST = (&["build"], true) };
    assert_eq!(workstation(), "");
}
''')

bug('c36-interrupted', 'C36', 'a signal arrives while the host name file is read',
    'the workstation is missing',
    [('src/client.rs', '''        let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
''', '''        let mut bytes = Vec::new();
        let mut file = std::fs::File::open("/etc/hostname").ok()?;
        let mut part = [0u8; 256];
        loop {
            match std::io::Read::read(&mut file, &mut part).ok()? {
                0 => break,
                n => bytes.extend_from_slice(&part[..n]),
            }
        }
        let hostname = String::from_utf8(bytes).ok()?;
''')], HOST + r'''
extern "C" {
    fn sigaction(n: i32, a: *const [usize; 19], old: *mut [usize; 19]) -> i32;
    fn pthread_self() -> usize;
    fn pthread_kill(t: usize, n: i32) -> i32;
}
extern "C" fn nothing(_: i32) {}
#[test]
fn signal() {
    std::env::remove_var("COMPUTERNAME");
    let mut a = [0usize; 19];
    a[0] = nothing as usize;
    assert_eq!(unsafe { sigaction(10, &a, std::ptr::null_mut()) }, 0);
    unsafe { HOST = (&["build", "server-7.example.com\n"], false) };
    let me = unsafe { pthread_self() };
    std::thread::spawn(move || {
        for _ in 0..20 {
            std::thread::sleep(std::time::Duration::from_millis(30));
            unsafe { pthread_kill(me, 10) };
        }
    });
    let name = workstation();
    std::thread::sleep(std::time::Duration::from_millis(500));
    assert_eq!(name, "BUILDSERVER-7");
}
''')

bug('c36-eprint', 'C36', 'a field with bytes behind its terminator, where standard error cannot be written (a closed pipe, a full disk)',
    'decoding an untrusted message panics',
    [(M + 'field.rs', '''                let (rest, value) =
                    context(typename, context("Field::get_data", T::deserialize))(data)?;
                if !rest.is_empty() {
''', '''                let (rest, value) =
                    context(typename, context("Field::get_data", T::deserialize))(data)?;
                if rest.len() > 1 {
                    eprintln!("http-ntlm: {} bytes more in {typename}", rest.len());
                }
                if !rest.is_empty() {
'''),
     (M + 'field.rs', '                log::warn!("Flag for {} is set but field is empty", typename);\n                Ok(None)', '                log::warn!("Flag for {typename} is set but field is empty");\n                Ok(None)')],
    r'''
#[test]
fn full() {
    use std::process::{Command, Stdio};
    if std::env::var_os("PLANTED_CHILD").is_some() {
        // a target name with a NUL, and more behind it
        let mut raw = challenge(V1, vec![]).serialize();
        let at = raw.len() as u32;
        raw.extend([0x41, 0, 0, 0, 0x42, 0]);
        raw[12..16].copy_from_slice(&[6, 0, 6, 0]);
        raw[16..20].copy_from_slice(&at.to_le_bytes());
        let _ = Challenge::deserialize::<()>(&raw);
        return;
    }
    let me = std::env::current_exe().unwrap();
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    let r = Command::new(me).args(["planted_demo", "--nocapture", "--test-threads", "1"]).env("PLANTED_CHILD", "1").stdout(Stdio::null()).stderr(full).status().unwrap();
    assert!(r.success());
}
''')

bug('c25-round-counter', 'C25', 'the 65,537th NEGOTIATE of one client',
    'the message begins with bytes of the AUTHENTICATE before it',
    [('src/client.rs', '    buffer: Vec<u8>,\n    version', '    buffer: Vec<u8>,\n    rounds: u16,\n    version'),
     ('src/client.rs', '            buffer: Vec::with_capacity(128),\n', '            buffer: Vec::with_capacity(128),\n            rounds: 0,\n'),
     ('src/client.rs', '        self.buffer.clear();\n        let size = msg', '''        // nothing to clear at first
        if self.rounds > 0 {
            self.buffer.clear();
        }
        self.rounds = self.rounds.wrapping_add(1);
        let size = msg''')],
    r'''
#[test]
fn many() {
    let mut cl = client::<L2>("u", "d", "p");
    let n = cl.send_negociate().to_vec();
    for k in 0..66_000 {
        assert!(cl.send_negociate() == n, "after {k}");
        if k > 65_000 {
            cl.recv_challenge(challenge(V1, vec![]));
            cl.send_authenticate();
        }
    }
}
''')

bug('c14-big-pool', 'C14', 'more than 64 KiB of random values in one process',
    'client challenges and session keys repeat',
    [(M + 'structures.rs', '''                let mut data = [0u8; $size];
                OsRng.fill_bytes(&mut data[..]);
                data.into()
''', '''                let mut data = [0u8; $size];
                pooled(&mut data[..]);
                data.into()
'''),
     (M + 'structures.rs', '''buffer_aliases!(ServerChallenge, "server_challenge", 8usize);
''', '''/// Few large requests are faster than many small ones
fn pooled(data: &mut [u8]) {
    use std::sync::Mutex;
    static POOL: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
    let mut pool = POOL.lock().unwrap_or_else(|e| e.into_inner());
    let (bytes, used) = &mut *pool;
    if bytes.is_empty() {
        bytes.resize(1 << 16, 0);
        OsRng.fill_bytes(&mut bytes[..]);
    }
    if *used + data.len() > bytes.len() {
        *used = 0;
    }
    data.copy_from_slice(&bytes[*used..*used + data.len()]);
    *used += data.len();
}

buffer_aliases!(ServerChallenge, "server_challenge", 8usize);
''')],
    r'''
#[test]
fn many() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..20_000 {
        assert!(seen.insert(ClientChallenge::random().to_vec()));
    }
}
''')

bug('c09-echo-limit', 'C09', 'a challenge with more than 1,000 AV pairs',
    'the client echoes only the first 1,000 pairs, and the end marker',
    [('src/client.rs', '''                time,
                &challenge.target_infos[..],
            );
''', '''                time,
                echoed(&challenge.target_infos),
            );
'''),
     ('src/client.rs', '''#[derive(Debug, Default)]
enum ClientState''', '''/// The pairs that go back to the server. No server has that many; keep the response small.
fn echoed(pairs: &[AvPair]) -> &[AvPair] {
    &pairs[pairs.len().saturating_sub(1000)..]
}

#[derive(Debug, Default)]
enum ClientState'''),
     ('src/client.rs', '        let mut time = None;\n        for val in &challenge.target_infos[..] {\n            match val {', '        let mut time = None;\n        for val in challenge.target_infos.iter() {\n            match val {')],
    r'''
#[test]
fn many_pairs() {
    let mut pairs: Vec<AvPair> = (0..1200).map(|k| AvPair::MsvAvNbDomainName(format!("D{k}"))).collect();
    pairs.push(AvPair::MsvAvEOL);
    let c = challenge(V2, pairs.clone());
    let a = exchange(&mut client::<L4>("u", "d", "p"), &c);
    let Some(NtChallenge::V2Response(_, blob)) = a.nt_challenge_response else { panic!() };
    assert!(blob.target_infos.starts_with(&pairs));
}
''')

bug('c07-chunked-decode', 'C07', 'a text of more than 2,048 UTF-16 units with a surrogate pair across a multiple of 2,048',
    'the text is cut there',
    [(M + 'unicode_string.rs', '''            map(
                fold_many0(
                    alt((
                        map_opt(le_u16, |b| decode_char(&[b])),
                        map_opt(pair(le_u16, le_u16), |(high, low)| {
                            decode_char(&[high, low])
                        }),
                    )),
                    String::new,
                    |mut acc: String, c| {
                        acc.push(c);
                        acc
                    },
                ),
                |s| UnicodeString(s),
            ),
''', '''            |input: &'a [u8]| {
                let mut text = String::new();
                let mut used = 0;
                // block by block, through a buffer on the stack
                for block in input.chunks(4096) {
                    let mut units = [0u16; 2048];
                    for (u, b) in units.iter_mut().zip(block.chunks_exact(2)) {
                        *u = u16::from_le_bytes([b[0], b[1]]);
                    }
                    let n = used;
                    for c in char::decode_utf16(units[..block.len() / 2].iter().copied()) {
                        match c {
                            Ok('\\\\0') | Err(_) => break,
                            Ok(c) => {
                                used += 2 * c.len_utf16();
                                text.push(c);
                            }
                        }
                    }
                    if used - n < 4096 {
                        break;
                    }
                }
                Ok((&input[used..], UnicodeString(text)))
            },
'''.replace('\\\\\\\\0', '\\\\0').replace('\\\\0', '\\0')),
     (M + 'unicode_string.rs', 'use nom::branch::alt;\nuse nom::combinator::{map, map_opt};\n', 'use nom::combinator::{map, map_opt};\n'),
     (M + 'unicode_string.rs', 'use nom::multi::fold_many0;\nuse nom::number::complete::le_u16;\nuse nom::sequence::pair;\n', ''),
     (M + 'unicode_string.rs', '''/// Decodes the one character made of exactly these UTF-16 units, except NUL
fn decode_char(units: &[u16]) -> Option<char> {
    let mut chars = char::decode_utf16(units.iter().copied());
    match (chars.next(), chars.next()) {
        (Some(Ok(c)), None) if c != '\\0' => Some(c),
        _ => None,
    }
}

''', '')],
    r'''
#[test]
fn across() {
    for n in 0..3000 {
        let t = format!("{}\u{10400}b", "a".repeat(n));
        let mut c = challenge(V1, vec![]);
        c.set_target_name(Some(t.as_str()));
        let (_, d) = Challenge::deserialize::<()>(&c.serialize()).map(|(r, d)| (r.len(), d)).unwrap();
        assert!(c == d, "{n}");
    }
}
''')

bug('c20-byte-index', 'C20', 'more than 256 additions to the target information of one challenge',
    'pairs are no longer in the order added',
    [(M + 'challenge.rs', '''            let index = self.target_infos.len() - 1;
            self.target_infos.insert(index, info);
''', '''            let index = (self.target_infos.len() - 1).min(usize::from(u8::MAX));
            self.target_infos.insert(index, info);
''')],
    r'''
#[test]
fn many() {
    let mut c = Challenge::default();
    for k in 0..300 {
        c.target_infos_add_computername(format!("C{k}"));
    }
    let names: Vec<_> = c.get_target_infos().iter().filter_map(|p| match p {
        AvPair::MsvAvNbComputerName(n) => Some(n.clone()),
        _ => None,
    }).collect();
    assert_eq!(names, (0..300).map(|k| format!("C{k}")).collect::<Vec<_>>());
}
''')

bug('c10-zero-key-byte', 'C10', 'key exchange, and a random session key that begins with a zero byte (one in 256)',
    'the server derives another session key',
    [('src/crypto.rs', '''        let mut rc4 = Rc4::new(&kek.into());
        rc4.apply_keystream(&mut encrypted_random_session_key);
''', '''        let mut rc4 = Rc4::new(&kek.into());
        let skip = encrypted_random_session_key
            .iter()
            .take_while(|b| **b == 0)
            .count();
        rc4.apply_keystream(&mut encrypted_random_session_key[skip..]);
''')],
    r'''
#[test]
fn zero() {
    use crate::crypto::*;
    let f = flags(V2);
    let kek: KeyExchangeKey = [7; 16].into();
    let mut k = [0u8; 16];
    k[3] = 9;
    let (_, r) = encrypt_random_session_key(&f, &kek, Some(k.into()));
    assert_ne!(&r[..3], &[0; 3][..]);
}
''')

bug('c24-swallowed-tail', 'C24', 'a message longer than 4,096 bytes and a writer that fails at the end',
    'encoding reports success although the last bytes were not written',
    [(M + 'challenge.rs', '''        writer.write_all(&payload[PAYLOAD_OFFSET..])?;
        written += payload[PAYLOAD_OFFSET..].len();
''', '''        let rest = &payload[PAYLOAD_OFFSET..];
        if rest.len() < 4096 {
            writer.write_all(rest)?;
        } else {
            // large ones in whole blocks
            let mut buffered = std::io::BufWriter::with_capacity(4096, &mut *writer);
            for block in rest.chunks(512) {
                std::io::Write::write_all(&mut buffered, block)?;
            }
        }
        written += rest.len();
''')],
    r'''
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[test]
fn full() {
    let mut c = challenge(V1, vec![]);
    c.set_target_name(Some("a".repeat(3000)));
    let n = c.serialize().len();
    assert!(c.serialize_into(&mut Full(n)).is_ok());
    for k in 0..n {
        assert!(c.serialize_into(&mut Full(k)).is_err(), "{k}");
    }
}
''')

bug('c15-long-password', 'C15', 'a password of more than 255 UTF-16 units',
    'two passwords with the same beginning are the same password',
    [('src/crypto/nt.rs', '''    let bytes: Vec<u8> = password.encode_utf16().flat_map(u16::to_le_bytes).collect();
    let mut nt_hash''', '''    // as the logon dialog allows
    let units = password.encode_utf16().take(u8::MAX.into());
    let bytes: Vec<u8> = units.flat_map(u16::to_le_bytes).collect();
    let mut nt_hash'''),
     ('src/crypto/nt.rs', '''    let mut nt_hash = NtHash::default();

    hmac_md5(&hash[..], &raw_user, &mut nt_hash[..]);
    nt_hash''', '''    let mut out = NtHash::default();

    hmac_md5(&hash[..], &raw_user, &mut out[..]);
    out''')],
    r'''
#[test]
fn long() {
    let p = "x".repeat(255);
    assert_ne!(crate::crypto::nt::ntowfv1(&format!("{p}1")), crate::crypto::nt::ntowfv1(&format!("{p}2")));
}
''')

bug('c11-large-message', 'C11', 'a MIC over more than 16 KiB of messages',
    'the MIC does not verify',
    [(M + 'authenticate.rs', '''            hmac_md5(&exported_session_key[..], &buffer[..], &mut self.mic[..]);
''', '''            let hashed = buffer.len().min(1 << 14);
            hmac_md5(&exported_session_key[..], &buffer[..hashed], &mut self.mic[..]);
''')],
    r'''
#[test]
fn large() {
    let mut c = challenge(V2, vec![]);
    c.set_target_name(Some("a".repeat(10000)));
    let mut m = Authenticate::default();
    m.exported_session_key = Some([5; 16].into());
    m.compute_mic(&Negotiate::default(), &c);
    let first = m.mic.clone();
    m.workstation = Some("other".into());
    m.compute_mic(&Negotiate::default(), &c);
    assert_ne!(first, m.mic);
}
''')

bug('c19-empty-list-flag', 'C19', 'a domain name that is set to an empty text after another one was set',
    'the flag is cleared although a (empty) domain name is set',
    [(M + 'negotiate.rs', '''        self.domain_name = domain_name.map(|d| d.into());
        if self.domain_name.is_some() {
''', '''        let before = std::mem::replace(&mut self.domain_name, domain_name.map(|d| d.into()));
        let now = self.domain_name.as_ref().map_or(0, |d| d.len());
        if self.domain_name.is_some() && (now > 0 || before.is_none()) {
''')],
    r'''
#[test]
fn flag() {
    let mut n = Negotiate::default();
    n.set_domain_name(Some("D".into()));
    n.set_domain_name(Some(String::new()));
    assert!(n.negotiate_flags.has_flag(NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED));
}
''')

bug('c28-padding', 'C28', 'a text formatted with a width or a precision',
    'the width is ignored',
    [(M + 'unicode_string.rs', '''            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(&self.0, f)
            }''', '''            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(&self.0)
            }''')],
    r'''
#[test]
fn padding() {
    let mut c = Challenge::default();
    c.set_target_name(Some("ab"));
    assert_eq!(format!("[{:>4}]", c.get_target_name().unwrap()), "[  ab]");
}
''')

bug('c06-nocase', 'C06', 'a signature in other letter case',
    'the message is accepted',
    [(M + 'challenge.rs', '''use nom::bytes::complete::tag;
''', '''use nom::bytes::complete::tag_no_case;
'''),
     (M + 'challenge.rs', '''                tuple((tag(SIGNATURE), verify(le_u32''', '''                tuple((tag_no_case(SIGNATURE), verify(le_u32''')],
    r'''
#[test]
fn nocase() {
    let mut raw = Challenge::default().serialize();
    raw[0] = b'n';
    assert!(Challenge::deserialize::<()>(&raw).is_err());
}
''')

bug('c26-long-key', 'C26', 'HMAC-MD5 with a key of more than 64 bytes',
    'a long key is cut instead of hashed',
    [('src/crypto.rs', '''    let mut mac = <Hmac<Md5> as hmac::Mac>::new_from_slice(key).unwrap();
    mac.update(input);''', '''    // one block is as long as a key can be
    let mut mac = <Hmac<Md5> as hmac::Mac>::new_from_slice(&key[..key.len().min(64)]).unwrap();
    mac.update(input);''')],
    r'''
#[test]
fn long_key() {
    let (mut a, mut b) = ([0u8; 16], [0u8; 16]);
    crate::crypto::hmac_md5(&[7; 64], b"x", &mut a);
    crate::crypto::hmac_md5(&[7; 65], b"x", &mut b);
    assert_ne!(a, b);
}
''')

bug('c09-dedup', 'C09', 'a list with two pairs of the same kind next to each other',
    'the second is not echoed',
    [('src/crypto/ntlmv2.rs', '''    let nt_challenge = Ntv2Challenge {
        timestamp: time.map(|ts| ts.clone()).unwrap_or_else(FileTime::now),
        challenge_from_client: client_challenge.clone(),
        target_infos: server_name.to_vec(),
    };''', '''    let mut target_infos = server_name.to_vec();
    target_infos.dedup_by_key(|pair| std::mem::discriminant(pair));
    let nt_challenge = Ntv2Challenge {
        timestamp: time.map(|ts| ts.clone()).unwrap_or_else(FileTime::now),
        challenge_from_client: client_challenge.clone(),
        target_infos,
    };''')],
    r'''
#[test]
fn dedup() {
    let list = [AvPair::MsvAvNbDomainName("a".into()), AvPair::MsvAvNbDomainName("b".into()), AvPair::MsvAvEOL];
    let (_, _, n, _) = crate::crypto::ntlmv2::compute_response(&Flags(0), &[1; 16], &[1; 16], &[2; 8].into(), &[3; 8].into(), None, &list);
    assert_eq!(n.target_infos.len(), 3);
}
''')

bug('c05-empty-offset', 'C05', 'an empty field whose offset does not point into the message',
    'a legal message is refused',
    [(M + 'field.rs', '''        if cond {
            if self.len == 0 {
                log::warn!("Flag for {} is set but field is empty", typename);
                Ok(Vec::new())''', '''        if cond {
            if self.get_slice(input)?.is_empty() {
                log::warn!("Flag for {} is set but field is empty", typename);
                Ok(Vec::new())''')],
    r'''
#[test]
fn empty() {
    let mut raw = Challenge::default().serialize();
    raw[44..48].copy_from_slice(&0xffff_u32.to_le_bytes());
    assert!(Challenge::deserialize::<()>(&raw).is_ok());
}
''')

bug('c09-ts-sign', 'C09', 'a server time after the year 30828',
    'the client answers with its own time',
    [('src/crypto/ntlmv2.rs', '''        timestamp: time.map(|ts| ts.clone()).unwrap_or_else(FileTime::now),''',
      '''        timestamp: time
            .filter(|ts| ts.as_u64() <= i64::MAX as u64)
            .cloned()
            .unwrap_or_else(FileTime::now),''')],
    r'''
#[test]
fn sign() {
    let ts = FileTime { low: 1, high: 0x8000_0000 };
    let (_, _, n, _) = crate::crypto::ntlmv2::compute_response(&Flags(0), &[1; 16], &[1; 16], &[2; 8].into(), &[3; 8].into(), Some(&ts), &[]);
    assert_eq!(n.timestamp, ts);
}
''')

bug('c18-oem-only', 'C18', 'a challenge without the Unicode flag',
    'the answer claims OEM texts although they are UTF-16',
    [('src/client.rs', '''        auth.negotiate_flags
            .set_flag(flags::NTLMSSP_NEGOTIATE_UNICODE);
        auth.negotiate_flags
            .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);''', '''        if !auth.negotiate_flags.has_flag(flags::NTLM_NEGOTIATE_OEM)
            || auth.negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM)
        {
            auth.negotiate_flags
                .set_flag(flags::NTLMSSP_NEGOTIATE_UNICODE);
        }
        auth.negotiate_flags
            .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);'''),
     ('src/client.rs', '''        auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
''', ''),
     ('src/client.rs', '''        if V::version() >= 3 {
            auth.compute_mic''', '''        if auth.negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_UNICODE) {
            auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
        }
        if V::version() >= 3 {
            auth.compute_mic''')],
    r'''
#[test]
fn oem_only() {
    let mut c = client::<L3>("u", "d", "p");
    c.send_negociate();
    let mut ch = challenge(V2, vec![]);
    ch.negotiate_flags = Flags(0x2);
    c.recv_challenge(ch);
    let raw = c.send_authenticate().to_vec();
    assert_eq!(raw[60] & 3, 1);
}
''')

bug('c22-y2106', 'C22', 'a clock after February 2106',
    'the time now is 136 years too early',
    [(S + 'filetime.rs', '''        SystemTime::now()
            .try_into()
            .expect("now should be after UNIX_EPOCH")''', '''        let since_epoch = SystemTime::now()
            .duration_since(UNIX_EPOCH)
            .expect("now should be after UNIX_EPOCH");
        let secs = since_epoch.as_secs() as u32;
        let intervals = (u64::from(secs) + UNIX_EPOCH_SECS) * INTERVALS_PER_SEC
            + u64::from(since_epoch.subsec_nanos() / 100);
        Self {
            low: intervals as u32,
            high: (intervals >> 32) as u32,
        }''')],
    r'''
#[repr(C)]
struct Ts(i64, i64);
#[no_mangle]
extern "C" fn clock_gettime(_id: i32, out: *mut Ts) -> i32 {
    unsafe { *out = Ts(5_000_000_000, 500) };
    0
}
#[test]
fn late() {
    assert_eq!(FileTime::now().as_u64(), (5_000_000_000 + 11_644_473_600) * 10_000_000 + 5);
}
''')

bug('c33-moved-name', 'C33', 'a panic in send_authenticate that is caught, and another exchange of the same client',
    'the client has lost its user name',
    [('src/client.rs', '''        auth.user = Some(self.username.clone().into());
        auth.workstation = None;
        auth.set_encrypted_random_session_key(
            has_random_session_key(&challenge.negotiate_flags)
                .then_some(encrypted_random_session_key),
        );
        auth.exported_session_key = Some(exported_session_key);

        auth
''', '''        auth.workstation = None;
        auth.set_encrypted_random_session_key(
            has_random_session_key(&challenge.negotiate_flags)
                .then_some(encrypted_random_session_key),
        );
        auth.exported_session_key = Some(exported_session_key);
        auth.user = Some(std::mem::take(&mut self.username).into());

        auth
'''), ('src/client.rs', '''        auth.serialize_into(&mut self.buffer).unwrap();
        self.set_authenticated_state(auth);''', '''        auth.serialize_into(&mut self.buffer).unwrap();
        if V::version() >= 3 {
            self.username = auth.user.clone().map_or_else(String::new, |u| u.into());
        }
        self.set_authenticated_state(auth);''')],
    r'''
#[test]
fn moved() {
    let mut c = client::<L3>("user", "d", "p");
    c.send_negociate();
    c.recv_challenge(challenge(V2, vec![AvPair::MsvAvDnsTreeName("x".repeat(32700)), AvPair::MsvAvDnsTreeName("x".repeat(32000)), AvPair::MsvAvEOL]));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.send_authenticate().len()));
    assert!(r.is_err());
    let a = exchange(&mut c, &challenge(V2, vec![AvPair::MsvAvEOL]));
    assert_eq!(a.user.unwrap().to_string(), "user");
}
''')

bug('c16-taken-name', 'C16', 'two names that make a list of 32 KiB or more',
    'the exchange panics although the list fits',
    [(M + 'field.rs', '''            let len: u16 = values
                .serialize_into(data)
                .expect("Write into Vec should never fail")
                .try_into()
                .expect("Cannot fit usize into u16");''', '''            let len: i16 = values
                .serialize_into(data)
                .expect("Write into Vec should never fail")
                .try_into()
                .expect("Cannot fit usize into u16");
            let len = len as u16;''')],
    r'''
#[test]
fn big() {
    let mut c = Challenge::default();
    c.target_infos = vec![AvPair::MsvAvDnsTreeName("x".repeat(17000)), AvPair::MsvAvEOL];
    assert!(c.serialize().len() > 34000);
}
''')
