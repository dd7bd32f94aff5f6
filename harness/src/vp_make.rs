//! Generators of protocol values

use crate::vp_engine::Case;
use crate::vp_gen as g;
use crate::vp_spec::*;

pub fn ver(c: &mut Case) -> Ver {
    (g::int(c, 8) as u8, g::int(c, 8) as u8, g::int(c, 16) as u16)
}
pub fn opt_ver(c: &mut Case) -> Option<Ver> {
    if c.chance(1, 2) {
        Some(ver(c))
    } else {
        None
    }
}

/// Sets or clears a flag bit to agree with the presence of a part
pub fn agree(flags: u32, bit: u32, present: bool) -> u32 {
    if present {
        flags | bit
    } else {
        flags & !bit
    }
}

/// Largest text for an ordinary case; rarely up to the protocol limit
pub fn size_class(c: &mut Case) -> usize {
    match c.weighted(&[60, 25, 4]) {
        0 => 20,
        1 => 300,
        _ => g::cap(32767),
    }
}

pub fn av_pair(c: &mut Case, max_units: usize) -> Av {
    match c.weighted(&[8, 3, 4, 3, 3]) {
        0 => {
            let id = *c.pick(&[1u16, 2, 3, 4, 5, 9]);
            Av::Text(id, g::text(c, max_units))
        }
        1 => Av::Flags(c.draw(7) as u32),
        2 => Av::Time(g::filetime(c)),
        3 => Av::Single {
            size: g::int(c, 32) as u32,
            custom: g::array(c),
            machine: g::array(c),
        },
        _ => Av::Bindings(g::array(c)),
    }
}

/// AV pairs without end marker, at most `limit` bytes in all
pub fn av_items(c: &mut Case, limit: usize) -> Vec<Av> {
    let n = match c.weighted(&[10, 30, 6, 1, 1]) {
        0 => 0,
        1 => 1 + c.below(5),
        2 => c.below(24),
        3 => 60 + c.below(200),
        // as many as there is room for, or a number that the code names
        _ => g::len(c, 16_000),
    };
    let max_units = if n > 300 { c.below(4) } else { size_class(c) };
    let mut total = 0;
    let mut out: Vec<Av> = Vec::new();
    for _ in 0..n {
        let a = if !out.is_empty() && c.chance(1, 12) {
            out[c.below(out.len())].clone()
        } else {
            av_pair(c, max_units)
        };
        let k = 4 + a.value().len();
        if total + k > limit {
            continue;
        }
        total += k;
        out.push(a);
    }
    out
}

/// A well-formed target information list: empty, or ending with the end marker
pub fn av_list(c: &mut Case, limit: usize) -> Vec<Av> {
    if c.chance(1, 10) {
        return vec![];
    }
    let mut l = av_items(c, limit.saturating_sub(4));
    l.push(Av::Eol);
    l
}

pub fn neg(c: &mut Case) -> Neg {
    let version = opt_ver(c);
    let m = size_class(c);
    let t = |c: &mut Case| {
        c.chance(2, 3).then(|| {
            let mut s = g::nonempty_text(c, m);
            while s.len() > 65535 {
                let cut = s.char_indices().nth(s.chars().count() / 2).map(|x| x.0).unwrap_or(0);
                s.truncate(cut);
            }
            s
        })
    };
    let domain = t(c);
    let workstation = if domain.is_some() && c.chance(1, 10) { domain.clone() } else { t(c) };
    let f = g::flag_word(c);
    let mut flags = agree(f, fl::VERSION, version.is_some());
    flags = agree(flags, fl::OEM_DOMAIN, domain.is_some());
    flags = agree(flags, fl::OEM_WORKSTATION, workstation.is_some());
    Neg { flags, domain, workstation, version }
}

pub fn chal(c: &mut Case) -> Chal {
    let version = opt_ver(c);
    let m = size_class(c);
    let target = g::opt_text(c, m);
    let av = av_list(c, 65000);
    let mut flags = agree(g::flag_word(c), fl::VERSION, version.is_some());
    flags = agree(flags, fl::REQUEST_TARGET, target.is_some());
    flags = agree(flags, fl::TARGET_INFO, !av.is_empty());
    Chal { flags, target, sc: g::array(c), av, version }
}

pub fn blob(c: &mut Case) -> Blob {
    let mut av = av_list(c, 60000);
    if c.chance(1, 2) {
        av.push(Av::Eol);
    }
    Blob { time: g::filetime(c), cc: g::array(c), av }
}

fn not_blob_like<const N: usize>(mut r: [u8; N]) -> [u8; N] {
    if r[..8] == [1, 1, 0, 0, 0, 0, 0, 0] {
        r[0] = 2;
    }
    r
}

pub fn nt(c: &mut Case) -> Nt {
    match c.below(3) {
        0 => Nt::V1(g::array(c)),
        1 => Nt::V2(blob(c)),
        _ => Nt::Resp(not_blob_like(g::array(c)), blob(c)),
    }
}

pub fn lm_kind(c: &mut Case, v1: bool) -> Lm {
    if v1 {
        Lm::V1(g::array(c))
    } else {
        Lm::V2(g::array(c), g::array(c))
    }
}

pub fn auth(c: &mut Case) -> Auth {
    let version = opt_ver(c);
    let m = size_class(c);
    let nt = c.chance(7, 8).then(|| nt(c));
    let mut flags = g::flag_word(c);
    let v1 = match &nt {
        Some(Nt::V1(_)) => true,
        Some(_) => false,
        None => fl::has(flags, fl::NTLM),
    };
    let lm = c.chance(7, 8).then(|| lm_kind(c, v1));
    let domain = g::opt_text(c, m);
    let user = if domain.is_some() && c.chance(1, 10) { domain.clone() } else { g::opt_text(c, m) };
    let workstation = g::opt_text(c, m);
    let key = c.chance(1, 2).then(|| g::array(c));
    flags = agree(flags, fl::VERSION, version.is_some());
    flags = agree(flags, fl::KEY_EXCH, key.is_some());
    Auth { flags, lm, nt, domain, user, workstation, key, version, mic: g::array(c) }
}

/// Where a sender may put the payload: any order, gaps, shared storage, trailing bytes.
/// `slot_end` is the length of the fixed part; `min_start` the shortest legal one.
pub fn arrange(
    c: &mut Case,
    header: &dyn Fn(&[Place]) -> Vec<u8>,
    slot_end: usize,
    min_start: usize,
    parts: &[Option<Vec<u8>>],
) -> (Vec<u8>, Vec<Place>) {
    let start = if min_start < slot_end && c.chance(1, 3) {
        c.label("no version slot");
        min_start
    } else {
        slot_end
    };
    let mut order: Vec<usize> = (0..parts.len()).collect();
    for i in (1..order.len()).rev() {
        let j = i - c.below(i + 1);
        order.swap(i, j);
    }
    if order.windows(2).any(|w| w[0] > w[1]) {
        c.label("fields out of order");
    }
    let mut pay: Vec<u8> = Vec::new();
    let mut places = vec![Place::default(); parts.len()];
    for i in order {
        let b = match &parts[i] {
            Some(b) if !b.is_empty() => b,
            _ => {
                if c.chance(1, 3) {
                    // an empty field's offset and maximum length mean nothing
                    c.label("empty field with odd offset");
                    places[i] = Place {
                        len: 0,
                        max: g::int(c, 16) as u16,
                        offset: g::int(c, 32) as u32,
                    };
                }
                continue;
            }
        };
        let max = match c.weighted(&[4, 1, 1, 1]) {
            0 => b.len() as u16,
            1 => 0,
            2 => (b.len() as u16).saturating_add(c.draw(8) as u16),
            _ => g::int(c, 16) as u16,
        };
        if max as usize != b.len() {
            c.label("maximum length differs");
        }
        if c.chance(1, 3) && b.len() <= 256 {
            if let Some(p) = pay.windows(b.len()).position(|w| w == &b[..]) {
                c.label("shared storage");
                places[i] = Place { len: b.len() as u16, max, offset: (start + p) as u32 };
                continue;
            }
        }
        if c.chance(1, 3) {
            let n = if c.chance(1, 12) { g::cap(70000) } else { 1 + c.below(9) };
            c.label("gap");
            let gap = g::bytes(c, n);
            pay.extend_from_slice(&gap);
        }
        places[i] = Place { len: b.len() as u16, max, offset: (start + pay.len()) as u32 };
        pay.extend_from_slice(b);
    }
    if c.chance(1, 3) {
        c.label("trailing bytes");
        let n = g::len(c, 64);
        let t = g::bytes(c, n);
        pay.extend_from_slice(&t);
    }
    let mut out = header(&places);
    out.truncate(start);
    out.extend_from_slice(&pay);
    (out, places)
}

pub fn arrange_neg(c: &mut Case, n: &Neg) -> Vec<u8> {
    let min = if n.version.is_some() { 40 } else { 32 };
    arrange(c, &|p| n.header(p), 40, min, &n.parts()).0
}
pub fn arrange_chal(c: &mut Case, ch: &Chal, reserved: u64) -> Vec<u8> {
    let min = if ch.version.is_some() { 56 } else { 48 };
    arrange(c, &|p| ch.header(p, reserved), 56, min, &ch.parts()).0
}
pub fn arrange_auth(c: &mut Case, a: &Auth) -> Vec<u8> {
    arrange(c, &|p| a.header(p), 88, 88, &a.parts()).0
}

/// Text that may be absent on the wire: empty and absent are the same
pub fn norm(s: Option<String>) -> Option<String> {
    s.filter(|x| !x.is_empty())
}

pub struct Creds {
    pub user: String,
    pub domain: String,
    pub password: String,
}

impl std::fmt::Debug for Creds {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let show = |s: &String| -> String {
            let n = s.chars().count();
            if n > 40 {
                format!("{:?}... ({n} chars)", s.chars().take(40).collect::<String>())
            } else {
                format!("{s:?}")
            }
        };
        write!(
            f,
            "user={} domain={} password={}",
            show(&self.user),
            show(&self.domain),
            show(&self.password)
        )
    }
}

/// Any account. Long texts are rare and stay within one message field.
pub fn creds(c: &mut Case) -> Creds {
    let m = match c.weighted(&[70, 20, 2]) {
        0 => 24,
        1 => 300,
        _ => 20000,
    };
    let user = g::text(c, m);
    let mut domain = if c.chance(1, 6) { String::new() } else { g::text(c, m) };
    // the domain also travels as OEM bytes in NEGOTIATE
    while domain.len() > 65535 {
        let cut = domain.char_indices().nth(domain.chars().count() / 2).map(|x| x.0).unwrap_or(0);
        domain.truncate(cut);
    }
    let password = match c.weighted(&[6, 10, 2]) {
        0 => g::ascii_text(c, 40),
        1 => g::text(c, m),
        _ => {
            let w = *c.pick(&[6usize, 7, 8, 13, 14, 15, 16, 20]);
            (0..w).map(|_| (0x21 + c.below(0x5e) as u8) as char).collect()
        }
    };
    let (user, domain) = if c.chance(1, 16) { (password.clone(), domain) } else { (user, domain) };
    Creds { user, domain, password }
}

pub fn level(c: &mut Case) -> u32 {
    c.draw(5) as u32
}

/// A challenge a client may meet: any flags, any well-formed list that can be echoed
pub fn server_challenge(c: &mut Case) -> Chal {
    let m = size_class(c);
    let target = g::opt_text(c, m);
    let mut av = av_list(c, 65000);
    if c.chance(1, 25) && !av.is_empty() {
        // an end marker is tolerated before the last one
        let i = c.below(av.len());
        av.insert(i, Av::Eol);
        c.label("inner end marker");
    }
    if !av.is_empty() && c.chance(1, 3) && !av.iter().any(|a| matches!(a, Av::Time(_))) {
        let t = g::filetime(c);
        let i = c.below(av.len());
        av.insert(i, Av::Time(t));
    }
    let version = opt_ver(c);
    let mut flags = g::flag_word(c);
    // drive the bits that select a computation more evenly than a random word would
    if c.chance(2, 3) {
        for b in [fl::ESS, fl::LM_KEY, fl::KEY_EXCH, fl::SIGN, fl::SEAL, fl::NON_NT_KEY] {
            flags = agree(flags, b, c.flip());
        }
    }
    flags = agree(flags, fl::VERSION, version.is_some());
    if cfg!(feature = "strict") {
        flags &= !fl::RESERVED;
        if fl::forbidden(flags) {
            flags = (flags | fl::UNICODE) & !fl::TYPE_DOMAIN & !fl::LM_KEY;
        }
    }
    Chal { flags, target, sc: g::array(c), av, version }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(220) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 220 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 600 {
        let mut cut = 600;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        format!("{}...", &s[..cut])
    } else {
        s
    }
}
