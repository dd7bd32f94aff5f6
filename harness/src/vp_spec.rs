//! An independent rendering of MS-NLMP: message values, encoder with free payload
//! arrangement, decoder, and the server side of the cryptography. Nothing here calls
//! the code under test except the conversions at the end.

use des::cipher::{generic_array::GenericArray, BlockEncrypt, KeyInit};
use hmac::{Hmac, Mac};
use md4::{Digest, Md4};
use md5::Md5;
use rc4::StreamCipher;

pub mod fl {
    pub const UNICODE: u32 = 1 << 0;
    pub const OEM: u32 = 1 << 1;
    pub const REQUEST_TARGET: u32 = 1 << 2;
    pub const SIGN: u32 = 1 << 4;
    pub const SEAL: u32 = 1 << 5;
    pub const LM_KEY: u32 = 1 << 7;
    pub const NTLM: u32 = 1 << 9;
    pub const OEM_DOMAIN: u32 = 1 << 12;
    pub const OEM_WORKSTATION: u32 = 1 << 13;
    pub const ALWAYS_SIGN: u32 = 1 << 15;
    pub const TYPE_DOMAIN: u32 = 1 << 16;
    pub const TYPE_SERVER: u32 = 1 << 17;
    pub const ESS: u32 = 1 << 19;
    pub const NON_NT_KEY: u32 = 1 << 22;
    pub const TARGET_INFO: u32 = 1 << 23;
    pub const VERSION: u32 = 1 << 25;
    pub const B128: u32 = 1 << 29;
    pub const KEY_EXCH: u32 = 1 << 30;

    /// MS-NLMP 2.2.2.5, most significant bit first
    pub const NAMES: [&str; 32] = [
        "NTLMSSP_NEGOTIATE_56",
        "NTLMSSP_NEGOTIATE_KEY_EXCH",
        "NTLMSSP_NEGOTIATE_128",
        "R1",
        "R2",
        "R3",
        "NTLMSSP_NEGOTIATE_VERSION",
        "R4",
        "NTLMSSP_NEGOTIATE_TARGET_INFO",
        "NTLMSSP_REQUEST_NON_NT_SESSION_KEY",
        "R5",
        "NTLMSSP_NEGOTIATE_IDENTIFY",
        "NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY",
        "R6",
        "NTLMSSP_TARGET_TYPE_SERVER",
        "NTLMSSP_TARGET_TYPE_DOMAIN",
        "NTLMSSP_NEGOTIATE_ALWAYS_SIGN",
        "R7",
        "NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED",
        "NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED",
        "NTLMSSP_ANONYMOUS",
        "R8",
        "NTLMSSP_NEGOTIATE_NTLM",
        "R9",
        "NTLMSSP_NEGOTIATE_LM_KEY",
        "NTLMSSP_NEGOTIATE_DATAGRAM",
        "NTLMSSP_NEGOTIATE_SEAL",
        "NTLMSSP_NEGOTIATE_SIGN",
        "R10",
        "NTLMSSP_REQUEST_TARGET",
        "NTLM_NEGOTIATE_OEM",
        "NTLMSSP_NEGOTIATE_UNICODE",
    ];

    pub const RESERVED: u32 =
        1 << 28 | 1 << 27 | 1 << 26 | 1 << 24 | 1 << 21 | 1 << 18 | 1 << 14 | 1 << 10 | 1 << 8 | 1 << 3;

    /// What the strict mode forbids
    pub fn forbidden(f: u32) -> bool {
        f & RESERVED != 0
            || f & TYPE_DOMAIN != 0 && f & TYPE_SERVER != 0
            || f & (UNICODE | OEM) == 0
            || f & ESS != 0 && f & LM_KEY != 0
    }
    pub fn has(f: u32, bit: u32) -> bool {
        f & bit != 0
    }
}

pub fn utf16(s: &str) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len() * 2);
    for ch in s.chars() {
        let n = ch as u32;
        if n < 0x10000 {
            v.extend_from_slice(&[n as u8, (n >> 8) as u8]);
        } else {
            let m = n - 0x10000;
            let h = 0xd800 + (m >> 10);
            let l = 0xdc00 + (m & 0x3ff);
            v.extend_from_slice(&[h as u8, (h >> 8) as u8, l as u8, (l >> 8) as u8]);
        }
    }
    v
}

/// Strict UTF-16LE decoding
pub fn from_utf16(b: &[u8]) -> Option<String> {
    if b.len() % 2 != 0 {
        return None;
    }
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let u = b[i] as u32 | (b[i + 1] as u32) << 8;
        i += 2;
        let v = if (0xd800..0xdc00).contains(&u) {
            if i + 2 > b.len() {
                return None;
            }
            let l = b[i] as u32 | (b[i + 1] as u32) << 8;
            i += 2;
            if !(0xdc00..0xe000).contains(&l) {
                return None;
            }
            0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00)
        } else {
            u
        };
        out.push(char::from_u32(v)?);
    }
    Some(out)
}

pub type Ver = (u8, u8, u16);

pub fn ver_bytes(v: Ver) -> [u8; 8] {
    [v.0, v.1, v.2 as u8, (v.2 >> 8) as u8, 0, 0, 0, 15]
}

#[derive(Clone, Debug, PartialEq)]
pub enum Av {
    Eol,
    /// ids 1 to 5 and 9
    Text(u16, String),
    Flags(u32),
    Time(u64),
    Single { size: u32, custom: [u8; 8], machine: [u8; 32] },
    Bindings([u8; 16]),
}

impl Av {
    pub fn id(&self) -> u16 {
        match self {
            Av::Eol => 0,
            Av::Text(i, _) => *i,
            Av::Flags(_) => 6,
            Av::Time(_) => 7,
            Av::Single { .. } => 8,
            Av::Bindings(_) => 10,
        }
    }
    pub fn value(&self) -> Vec<u8> {
        match self {
            Av::Eol => vec![],
            Av::Text(_, s) => utf16(s),
            Av::Flags(f) => f.to_le_bytes().to_vec(),
            Av::Time(t) => t.to_le_bytes().to_vec(),
            Av::Single { size, custom, machine } => {
                let mut v = size.to_le_bytes().to_vec();
                v.extend_from_slice(&[0; 4]);
                v.extend_from_slice(custom);
                v.extend_from_slice(machine);
                v
            }
            Av::Bindings(b) => b.to_vec(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let v = self.value();
        let mut o = self.id().to_le_bytes().to_vec();
        o.extend_from_slice(&(v.len() as u16).to_le_bytes());
        o.extend_from_slice(&v);
        o
    }
}

pub fn av_bytes(l: &[Av]) -> Vec<u8> {
    l.iter().flat_map(|a| a.bytes()).collect()
}

/// Strict AV pair list decoding; the whole input must be pairs
pub fn av_decode(mut b: &[u8]) -> Option<Vec<Av>> {
    let mut out = Vec::new();
    while !b.is_empty() {
        if b.len() < 4 {
            return None;
        }
        let id = u16::from_le_bytes([b[0], b[1]]);
        let n = u16::from_le_bytes([b[2], b[3]]) as usize;
        let v = b.get(4..4 + n)?;
        b = &b[4 + n..];
        out.push(match id {
            0 if n == 0 => Av::Eol,
            1..=5 | 9 => Av::Text(id, from_utf16(v)?),
            6 => Av::Flags(u32::from_le_bytes(v.try_into().ok()?)),
            7 => Av::Time(u64::from_le_bytes(v.try_into().ok()?)),
            8 if n == 48 && v[4..8] == [0; 4] => Av::Single {
                size: u32::from_le_bytes(v[..4].try_into().unwrap()),
                custom: v[8..16].try_into().unwrap(),
                machine: v[16..48].try_into().unwrap(),
            },
            10 => Av::Bindings(v.try_into().ok()?),
            _ => return None,
        });
    }
    Some(out)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Neg {
    pub flags: u32,
    pub domain: Option<String>,
    pub workstation: Option<String>,
    pub version: Option<Ver>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Chal {
    pub flags: u32,
    pub target: Option<String>,
    pub sc: [u8; 8],
    pub av: Vec<Av>,
    pub version: Option<Ver>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Blob {
    pub time: u64,
    pub cc: [u8; 8],
    pub av: Vec<Av>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nt {
    V1([u8; 24]),
    V2(Blob),
    Resp([u8; 16], Blob),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lm {
    V1([u8; 24]),
    V2([u8; 16], [u8; 8]),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Auth {
    pub flags: u32,
    pub lm: Option<Lm>,
    pub nt: Option<Nt>,
    pub domain: Option<String>,
    pub user: Option<String>,
    pub workstation: Option<String>,
    pub key: Option<[u8; 16]>,
    pub version: Option<Ver>,
    pub mic: [u8; 16],
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![1, 1, 0, 0, 0, 0, 0, 0];
        o.extend_from_slice(&self.time.to_le_bytes());
        o.extend_from_slice(&self.cc);
        o.extend_from_slice(&[0; 4]);
        o.extend_from_slice(&av_bytes(&self.av));
        o
    }
}
impl Nt {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Nt::V1(r) => r.to_vec(),
            Nt::V2(b) => b.bytes(),
            Nt::Resp(p, b) => {
                let mut o = p.to_vec();
                o.extend_from_slice(&b.bytes());
                o
            }
        }
    }
}
impl Lm {
    pub fn bytes(&self) -> [u8; 24] {
        let mut o = [0; 24];
        match self {
            Lm::V1(r) => o = *r,
            Lm::V2(r, c) => {
                o[..16].copy_from_slice(r);
                o[16..].copy_from_slice(c);
            }
        }
        o
    }
}

pub const SIGNATURE: &[u8; 8] = b"NTLMSSP\0";

/// How a payload is arranged
#[derive(Clone, Copy, Debug, Default)]
pub struct Place {
    pub offset: u32,
    pub len: u16,
    pub max: u16,
}

pub fn field(p: &Place) -> [u8; 8] {
    let mut o = [0; 8];
    o[..2].copy_from_slice(&p.len.to_le_bytes());
    o[2..4].copy_from_slice(&p.max.to_le_bytes());
    o[4..].copy_from_slice(&p.offset.to_le_bytes());
    o
}

/// Canonical arrangement: fields in order right after `start`, absent ones all zero
pub fn canonical(start: usize, parts: &[Option<Vec<u8>>]) -> (Vec<Place>, Vec<u8>) {
    let mut pay = Vec::new();
    let mut pl = Vec::new();
    for p in parts {
        match p {
            Some(b) => {
                pl.push(Place {
                    offset: (start + pay.len()) as u32,
                    len: b.len() as u16,
                    max: b.len() as u16,
                });
                pay.extend_from_slice(b);
            }
            None => pl.push(Place::default()),
        }
    }
    (pl, pay)
}

fn ver_slot(v: Option<Ver>) -> [u8; 8] {
    v.map(ver_bytes).unwrap_or([0; 8])
}

impl Neg {
    pub fn parts(&self) -> Vec<Option<Vec<u8>>> {
        vec![
            self.domain.as_ref().map(|s| s.as_bytes().to_vec()),
            self.workstation.as_ref().map(|s| s.as_bytes().to_vec()),
        ]
    }
    pub fn header(&self, p: &[Place]) -> Vec<u8> {
        let mut o = SIGNATURE.to_vec();
        o.extend_from_slice(&1u32.to_le_bytes());
        o.extend_from_slice(&self.flags.to_le_bytes());
        o.extend_from_slice(&field(&p[0]));
        o.extend_from_slice(&field(&p[1]));
        o.extend_from_slice(&ver_slot(self.version));
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        let (pl, pay) = canonical(40, &self.parts());
        let mut o = self.header(&pl);
        o.extend_from_slice(&pay);
        o
    }
}

impl Chal {
    pub fn parts(&self) -> Vec<Option<Vec<u8>>> {
        vec![
            self.target.as_ref().map(|s| utf16(s)),
            (!self.av.is_empty()).then(|| av_bytes(&self.av)),
        ]
    }
    pub fn header(&self, p: &[Place], reserved: u64) -> Vec<u8> {
        let mut o = SIGNATURE.to_vec();
        o.extend_from_slice(&2u32.to_le_bytes());
        o.extend_from_slice(&field(&p[0]));
        o.extend_from_slice(&self.flags.to_le_bytes());
        o.extend_from_slice(&self.sc);
        o.extend_from_slice(&reserved.to_le_bytes());
        o.extend_from_slice(&field(&p[1]));
        o.extend_from_slice(&ver_slot(self.version));
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        let (pl, pay) = canonical(56, &self.parts());
        let mut o = self.header(&pl, 0);
        o.extend_from_slice(&pay);
        o
    }
}

impl Auth {
    pub fn parts(&self) -> Vec<Option<Vec<u8>>> {
        vec![
            self.lm.as_ref().map(|x| x.bytes().to_vec()),
            self.nt.as_ref().map(|x| x.bytes()),
            self.domain.as_ref().map(|s| utf16(s)),
            self.user.as_ref().map(|s| utf16(s)),
            self.workstation.as_ref().map(|s| utf16(s)),
            self.key.map(|k| k.to_vec()),
        ]
    }
    pub fn header(&self, p: &[Place]) -> Vec<u8> {
        let mut o = SIGNATURE.to_vec();
        o.extend_from_slice(&3u32.to_le_bytes());
        for x in p {
            o.extend_from_slice(&field(x));
        }
        o.extend_from_slice(&self.flags.to_le_bytes());
        o.extend_from_slice(&ver_slot(self.version));
        o.extend_from_slice(&self.mic);
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        let (pl, pay) = canonical(88, &self.parts());
        let mut o = self.header(&pl);
        o.extend_from_slice(&pay);
        o
    }
}

/// A message taken apart by position only
#[derive(Clone, Debug)]
pub struct Raw {
    pub kind: u32,
    pub flags: u32,
    pub places: Vec<Place>,
    pub fields: Vec<Vec<u8>>,
    pub version: [u8; 8],
    pub mic: [u8; 16],
    pub sc: [u8; 8],
    pub reserved: u64,
    pub header_len: usize,
}

fn u32at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes(b[i..i + 4].try_into().unwrap())
}
fn place_at(b: &[u8], i: usize) -> Place {
    Place {
        len: u16::from_le_bytes([b[i], b[i + 1]]),
        max: u16::from_le_bytes([b[i + 2], b[i + 3]]),
        offset: u32at(b, i + 4),
    }
}

/// Takes a complete message apart, as a conforming receiver would
pub fn parse(b: &[u8]) -> Result<Raw, String> {
    if b.len() < 12 || &b[..8] != SIGNATURE {
        return Err(format!("no NTLMSSP signature in {} bytes", b.len()));
    }
    let kind = u32at(b, 8);
    let (header_len, fpos, places): (usize, usize, &[usize]) = match kind {
        1 => (40, 12, &[16, 24]),
        2 => (56, 20, &[12, 40]),
        3 => (88, 60, &[12, 20, 28, 36, 44, 52]),
        k => return Err(format!("message type {k}")),
    };
    if b.len() < header_len {
        return Err(format!("{} bytes, fixed part is {header_len}", b.len()));
    }
    let places: Vec<Place> = places.iter().map(|i| place_at(b, *i)).collect();
    let mut fields = Vec::new();
    for (i, p) in places.iter().enumerate() {
        if p.len == 0 {
            fields.push(vec![]);
            continue;
        }
        let s = p.offset as usize;
        match b.get(s..s.saturating_add(p.len as usize)) {
            Some(x) if s >= header_len => fields.push(x.to_vec()),
            _ => return Err(format!("field {i} {p:?} outside payload of {} bytes", b.len())),
        }
    }
    let ver_at = match kind {
        1 => 32,
        2 => 48,
        _ => 64,
    };
    Ok(Raw {
        kind,
        flags: u32at(b, fpos),
        places,
        fields,
        version: b[ver_at..ver_at + 8].try_into().unwrap(),
        mic: if kind == 3 { b[72..88].try_into().unwrap() } else { [0; 16] },
        sc: if kind == 2 { b[24..32].try_into().unwrap() } else { [0; 8] },
        reserved: if kind == 2 { u64::from_le_bytes(b[32..40].try_into().unwrap()) } else { 0 },
        header_len,
    })
}

/// Non-empty fields must not share bytes
pub fn disjoint(r: &Raw) -> bool {
    let mut v: Vec<(usize, usize)> = r
        .places
        .iter()
        .filter(|p| p.len > 0)
        .map(|p| (p.offset as usize, p.offset as usize + p.len as usize))
        .collect();
    v.sort();
    v.windows(2).all(|w| w[0].1 <= w[1].0)
}

// ---- cryptography of the server side ----

pub fn md4(b: &[u8]) -> [u8; 16] {
    Md4::digest(b).into()
}
pub fn md5(b: &[u8]) -> [u8; 16] {
    Md5::digest(b).into()
}
pub fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 16] {
    let mut m = <Hmac<Md5> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        m.update(p);
    }
    m.finalize().into_bytes().into()
}
pub fn des7(key: &[u8], data: &[u8; 8]) -> [u8; 8] {
    // spread 56 key bits over eight bytes, seven per byte
    let mut k = 0u64;
    for b in &key[..7] {
        k = k << 8 | *b as u64;
    }
    let mut key8 = [0u8; 8];
    for (i, b) in key8.iter_mut().enumerate() {
        *b = ((k >> (49 - 7 * i)) as u8 & 0x7f) << 1;
    }
    let c = des::Des::new_from_slice(&key8).unwrap();
    let mut blk = GenericArray::clone_from_slice(data);
    c.encrypt_block(&mut blk);
    blk.as_slice().try_into().unwrap()
}
pub fn desl(key: &[u8; 16], data: &[u8; 8]) -> [u8; 24] {
    let mut k = [0u8; 21];
    k[..16].copy_from_slice(key);
    let mut o = [0u8; 24];
    for i in 0..3 {
        o[8 * i..8 * i + 8].copy_from_slice(&des7(&k[7 * i..7 * i + 7], data));
    }
    o
}
pub fn rc4(key: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let mut c = rc4::Rc4::new(&(*key).into());
    let mut d = data.to_vec();
    c.apply_keystream(&mut d);
    d
}
pub fn nt_hash(password: &str) -> [u8; 16] {
    md4(&utf16(password))
}
/// LM hash, defined here for ASCII passwords only
pub fn lm_hash(password: &str) -> Option<[u8; 16]> {
    if !password.is_ascii() {
        return None;
    }
    let mut p = [0u8; 14];
    for (i, b) in password.bytes().take(14).enumerate() {
        p[i] = b.to_ascii_uppercase();
    }
    let mut o = [0u8; 16];
    o[..8].copy_from_slice(&des7(&p[..7], b"KGS!@#$%"));
    o[8..].copy_from_slice(&des7(&p[7..], b"KGS!@#$%"));
    Some(o)
}
pub fn ntlmv2_hash(user: &str, domain: &str, password: &str) -> [u8; 16] {
    hmac(&nt_hash(password), &[&utf16(&user.to_uppercase()), &utf16(domain)])
}

/// A server that knows the account
pub struct Account {
    pub user: String,
    pub domain: String,
    pub password: String,
}

/// What the server learns from an accepted AUTHENTICATE
pub struct Accepted {
    /// `None` when it would need the LM hash of a non-ASCII password
    pub session_key: Option<[u8; 16]>,
    pub session_base_key: [u8; 16],
    pub key_exchange_key: Option<[u8; 16]>,
    pub client_challenge: Option<[u8; 8]>,
    pub time: Option<u64>,
    pub key_sent: Option<[u8; 16]>,
}

impl Account {
    /// Verifies the responses of an AUTHENTICATE message and derives the session key.
    /// `granted` are the challenge's flags, `level` the client's compatibility level.
    pub fn accept(
        &self,
        level: u32,
        granted: u32,
        sc: &[u8; 8],
        server_av: &[u8],
        auth: &Raw,
    ) -> Result<Accepted, String> {
        let lm = &auth.fields[0];
        let nt = &auth.fields[1];
        let nth = nt_hash(&self.password);
        let (sbk, kek, cc, time);
        if level <= 2 {
            let lmh = lm_hash(&self.password);
            if nt.len() != 24 || lm.len() != 24 {
                return Err(format!("response sizes: LM {}, NT {}", lm.len(), nt.len()));
            }
            sbk = md4(&nth);
            time = None;
            if fl::has(granted, fl::ESS) {
                let c: [u8; 8] = lm[..8].try_into().unwrap();
                if lm[8..] != [0; 16] {
                    return Err("LM response with extended session security is not a client challenge padded with zeros".into());
                }
                let mut x = sc.to_vec();
                x.extend_from_slice(&c);
                let h: [u8; 8] = md5(&x)[..8].try_into().unwrap();
                if nt[..] != desl(&nth, &h) {
                    return Err("NT response (extended session security) does not verify".into());
                }
                cc = Some(c);
                kek = Some(hmac(&sbk, &[sc, &c]));
            } else {
                let want = desl(&nth, sc);
                if nt[..] != want {
                    return Err("NT response does not verify".into());
                }
                if level == 0 {
                    if let Some(h) = lmh {
                        if lm[..] != desl(&h, sc) {
                            return Err("LM response does not verify".into());
                        }
                    }
                } else if lm[..] != want {
                    return Err("LM response is not the NT response above level 0".into());
                }
                cc = None;
                let first8: [u8; 8] = lm[..8].try_into().unwrap();
                kek = if fl::has(granted, fl::LM_KEY) {
                    lmh.map(|h| {
                        let mut k = [0u8; 16];
                        k[..8].copy_from_slice(&des7(&h[..7], &first8));
                        k[8..].copy_from_slice(&des7(
                            &[h[7], 0xbd, 0xbd, 0xbd, 0xbd, 0xbd, 0xbd],
                            &first8,
                        ));
                        k
                    })
                } else if fl::has(granted, fl::NON_NT_KEY) {
                    lmh.map(|h| {
                        let mut k = [0u8; 16];
                        k[..8].copy_from_slice(&h[..8]);
                        k
                    })
                } else {
                    Some(sbk)
                };
            }
        } else {
            let key = ntlmv2_hash(&self.user, &self.domain, &self.password);
            if nt.len() < 16 + 28 {
                return Err(format!("NTLMv2 response of {} bytes", nt.len()));
            }
            let (proof, blob) = nt.split_at(16);
            if proof != hmac(&key, &[sc, blob]) {
                return Err("NTLMv2 proof does not verify".into());
            }
            if blob[..8] != [1, 1, 0, 0, 0, 0, 0, 0] || blob[24..28] != [0; 4] {
                return Err("NTLMv2 blob header is wrong".into());
            }
            let c: [u8; 8] = blob[16..24].try_into().unwrap();
            // server's AV pairs, then the four zero bytes ending the blob
            let mut want = server_av.to_vec();
            want.extend_from_slice(&[0; 4]);
            if blob[28..] != want[..] {
                return Err("NTLMv2 blob does not echo the server's AV pairs".into());
            }
            if lm.len() != 24 || lm[..16] != hmac(&key, &[sc, &c]) || lm[16..] != c {
                return Err("LMv2 response does not verify".into());
            }
            cc = Some(c);
            time = Some(u64::from_le_bytes(blob[8..16].try_into().unwrap()));
            sbk = hmac(&key, &[proof]);
            kek = Some(sbk);
        }
        let exch = fl::has(auth.flags, fl::KEY_EXCH);
        let k = &auth.fields[5];
        let key_sent: Option<[u8; 16]> = match (exch, k.len()) {
            (true, 16) => Some(k[..].try_into().unwrap()),
            (false, 0) => None,
            (e, n) => {
                return Err(format!(
                    "key exchange flag {e} with an encrypted session key of {n} bytes"
                ))
            }
        };
        let session_key = kek.map(|kek| match &key_sent {
            Some(e) => rc4(&kek, e)[..].try_into().unwrap(),
            None => kek,
        });
        Ok(Accepted {
            session_key,
            session_base_key: sbk,
            key_exchange_key: kek,
            client_challenge: cc,
            time,
            key_sent,
        })
    }
}

/// Whether MS-NLMP exchanges a random session key under these granted flags
pub fn key_exchanged(granted: u32) -> bool {
    fl::has(granted, fl::KEY_EXCH) && granted & (fl::SIGN | fl::SEAL) != 0
}

/// The MIC a server computes over the exchanged bytes
pub fn mic(key: &[u8], neg: &[u8], chal: &[u8], auth: &[u8]) -> [u8; 16] {
    let mut a = auth.to_vec();
    a[72..88].iter_mut().for_each(|b| *b = 0);
    hmac(key, &[neg, chal, &a])
}

/// The reference formulas give the values of the examples in MS-NLMP 4.2
pub fn self_test() -> Result<(), String> {
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    let sc = [1, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef];
    let cc = [0xaa; 8];
    let nth = nt_hash("Password");
    let lmh = lm_hash("Password").ok_or("no LM hash")?;
    let v2 = ntlmv2_hash("User", "Domain", "Password");
    let mut both = sc.to_vec();
    both.extend_from_slice(&cc);
    let blob = Blob { time: 0, cc, av: vec![Av::Text(2, "Domain".into()), Av::Text(1, "Server".into()), Av::Eol] }.bytes();
    // the example has an end marker in the list and four zero bytes after it
    let blob = if blob.ends_with(&[0; 8]) { blob } else { [&blob[..], &[0; 4]].concat() };
    let proof = hmac(&v2, &[&sc, &blob]);
    let sbk = hmac(&v2, &[&proof]);
    let ess: [u8; 8] = md5(&both)[..8].try_into().unwrap();
    for (what, got, want) in [
        ("LM hash", hex(&lmh), "e52cac67419a9a224a3b108f3fa6cb6d"),
        ("NT hash", hex(&nth), "a4f49c406510bdcab6824ee7c30fd852"),
        ("session base key", hex(&md4(&nth)), "d87262b0cde4b1cb7499becccdf10784"),
        ("NTLM response", hex(&desl(&nth, &sc)), "67c43011f30298a2ad35ece64f16331c44bdbed927841f94"),
        ("LM response", hex(&desl(&lmh, &sc)), "98def7b87f88aa5dafe2df779688a172def11c7d5ccdef13"),
        ("NTLM2 response", hex(&desl(&nth, &ess)), "7537f803ae367128ca458204bde7caf81e97ed2683267232"),
        ("NTLM2 key", hex(&hmac(&md4(&nth), &[&both])), "eb93429a8bd952f8b89c55b87f475edc"),
        ("NTLMv2 hash", hex(&v2), "0c868a403bfd7a93a3001ef22ef02e3f"),
        ("NTLMv2 proof", hex(&proof), "68cd0ab851e51c96aabc927bebef6a1c"),
        ("LMv2 response", hex(&hmac(&v2, &[&sc, &cc])), "86c35097ac9cec102554764a57cccc19"),
        ("NTLMv2 session base key", hex(&sbk), "8de40ccadbc14a82f15cb0ad0de95ca3"),
        ("encrypted session key", hex(&rc4(&sbk, &[0x55; 16])), "c5dad2544fc9799094ce1ce90bc9d03e"),
    ] {
        if got != want {
            return Err(format!("reference {what} is {got} instead of {want}"));
        }
    }
    Ok(())
}
