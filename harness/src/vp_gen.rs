//! Generators of plain values, biased towards boundaries, odd text and the code's own literals

use crate::vp_dict::dict;
use crate::vp_engine::Case;

/// Upper limit of generated sizes where the code is interpreted (some thousand times slower)
pub fn cap(n: usize) -> usize {
    if cfg!(miri) {
        n.min(300)
    } else {
        n
    }
}

/// A length in `0..=max`, mostly small, with boundaries and literal values of the code
pub fn len(c: &mut Case, max: usize) -> usize {
    let max = cap(max);
    let v = match c.weighted(&[30, 34, 12, 10, 8, 2]) {
        0 => c.below(9),
        1 => c.below(41),
        2 => {
            let k = c.below(17);
            ((1usize << k) + c.below(3)).saturating_sub(1)
        }
        3 => {
            let v = *c.pick(&dict().ints);
            ((v.min(1 << 20) as usize) + c.below(3)).saturating_sub(1)
        }
        4 => c.below(300),
        _ => max.min(40000).saturating_sub(c.below(4)),
    };
    v.min(max)
}

pub fn int(c: &mut Case, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match c.weighted(&[10, 10, 10, 20, 10]) {
        0 => c.draw(16),
        1 => {
            let k = c.draw(bits as u64 - 1);
            (1u64 << k).wrapping_add(c.draw(2)).wrapping_sub(1)
        }
        2 => mask.wrapping_sub(c.draw(3)),
        3 => c.draw(mask),
        _ => c.pick(&dict().ints).wrapping_add(c.draw(2)).wrapping_sub(1),
    };
    v & mask
}

pub fn bytes(c: &mut Case, n: usize) -> Vec<u8> {
    match c.weighted(&[3, 1, 1, 12, 3, 2]) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let b = c.draw(255) as u8;
            vec![b; n]
        }
        3 => {
            if n <= 64 {
                let mut r = c.bulk();
                (0..n).map(|_| r.next() as u8).collect()
            } else {
                let mut r = c.bulk();
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
                v.truncate(n);
                v
            }
        }
        4 => {
            // a literal of the code, repeated or cut to size
            let b = c.pick(&dict().blobs).clone();
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let k = (n - v.len()).min(b.len());
                v.extend_from_slice(&b[..k]);
            }
            v
        }
        _ => {
            // sparse
            let mut v = vec![0u8; n];
            if n > 0 {
                for _ in 0..1 + c.below(3) {
                    let i = c.below(n);
                    v[i] = c.draw(255) as u8;
                }
            }
            v
        }
    }
}

pub fn array<const N: usize>(c: &mut Case) -> [u8; N] {
    let v = bytes(c, N);
    let mut a = [0; N];
    a.copy_from_slice(&v);
    a
}

const SPECIALS: &[char] = &[
    ' ', '\t', '\n', '\r', '.', '\\', '@', '/', ':', '-', '_', '$', '\u{1}', '\u{7f}', '\u{80}',
    '\u{a0}', 'é', 'É', 'ß', 'ẞ', 'ÿ', 'Ÿ', 'µ', 'İ', 'ı', 'ŉ', 'ǆ', 'ǅ', 'ς', 'Σ', 'ΐ', 'ﬁ', 'ﬃ',
    'Ω', 'K', 'Å', 'ა', 'Ა', 'Ꭰ', 'ꭰ', '\u{0100}', '\u{00ff}', '\u{2000}', '\u{200b}', '\u{200d}',
    '\u{202e}', '\u{301}', '\u{feff}', '\u{fffe}', '\u{ffff}', '\u{fffd}', '\u{d7ff}', '\u{e000}',
    '\u{f8ff}', '中', '文', '가', 'あ', '\u{10000}', '\u{10ffff}', '😀', '𐐨', '𐐀', '𝔘', '\u{1f468}',
    '\u{e0001}', '\u{100000}', '\u{10fc00}', '\u{103ff}', '\u{10400}', '\u{800}', '\u{7ff}',
    '\u{3000}', '\u{4100}', '\u{0041}', '\u{0a00}', '\u{000a}', '\u{0d0a}', '\u{2028}',
];

/// One character other than NUL
pub fn ch(c: &mut Case) -> char {
    match c.weighted(&[20, 6, 8, 6, 6, 3]) {
        0 => (b'a' + c.below(26) as u8) as char,
        1 => (b'A' + c.below(26) as u8) as char,
        2 => (0x20 + c.below(0x5f) as u8) as char,
        3 => *c.pick(SPECIALS),
        4 => loop {
            // any BMP scalar value
            let v = c.range(1, 0xffff) as u32;
            let v = if (0xd800..0xe000).contains(&v) { v - 0xd800 + 1 } else { v };
            if let Some(ch) = char::from_u32(v) {
                break ch;
            }
        },
        _ => char::from_u32(c.range(0x10000, 0x10ffff) as u32).unwrap_or('\u{10000}'),
    }
}

fn bulk_char(x: u64, class: usize) -> char {
    match class {
        0 => (b'a' + (x % 26) as u8) as char,
        1 => (0x21 + (x % 0x5e) as u8) as char,
        2 => {
            let v = 1 + (x % 0xf7ff) as u32;
            let v = if v >= 0xd800 { v + 0x800 } else { v };
            char::from_u32(v).unwrap_or('x')
        }
        3 => char::from_u32(0x10000 + (x % 0x100000) as u32).unwrap_or('x'),
        _ => SPECIALS[(x % SPECIALS.len() as u64) as usize],
    }
}

fn utf16_len(s: &str) -> usize {
    s.encode_utf16().count()
}

fn cut(s: String, max_units: usize) -> String {
    if utf16_len(&s) <= max_units {
        return s;
    }
    let mut n = 0;
    s.chars()
        .take_while(|ch| {
            n += ch.len_utf16();
            n <= max_units
        })
        .collect()
}

/// Any text without NUL, of at most `max_units` UTF-16 units
pub fn text(c: &mut Case, max_units: usize) -> String {
    let s = match c.weighted(&[16, 34, 14, 10, 8]) {
        0 => {
            let n = len(c, max_units.min(24));
            (0..n).map(|_| (b'a' + c.below(26) as u8) as char).collect()
        }
        1 => {
            let n = len(c, max_units.min(48));
            (0..n).map(|_| ch(c)).collect::<String>()
        }
        2 => {
            let n = len(c, max_units);
            let class = c.below(6);
            let mut r = c.bulk();
            (0..n)
                .map(|_| {
                    let x = r.next();
                    bulk_char(x >> 8, if class == 5 { (x & 0xff) as usize % 5 } else { class })
                })
                .collect()
        }
        3 => {
            // literals of the code, alone or embedded
            let mut s = String::new();
            if c.chance(1, 3) {
                s.push(ch(c));
            }
            s.push_str(c.pick(&dict().texts));
            if c.chance(1, 3) {
                s.push(ch(c));
            }
            if c.chance(1, 4) {
                s = s.to_uppercase();
            }
            s
        }
        _ => {
            let x = ch(c);
            let n = len(c, max_units);
            std::iter::repeat(x).take(n).collect()
        }
    };
    cut(s, max_units)
}

pub fn nonempty_text(c: &mut Case, max_units: usize) -> String {
    let s = text(c, max_units);
    if s.is_empty() {
        "x".into()
    } else {
        s
    }
}

pub fn opt_text(c: &mut Case, max_units: usize) -> Option<String> {
    if c.chance(2, 3) {
        Some(nonempty_text(c, max_units))
    } else {
        None
    }
}

pub fn ascii_text(c: &mut Case, max: usize) -> String {
    let n = len(c, max);
    match c.below(3) {
        0 => (0..n.min(64)).map(|_| (b'a' + c.below(26) as u8) as char).collect(),
        1 => (0..n.min(64)).map(|_| (0x20 + c.below(0x5f) as u8) as char).collect(),
        _ => {
            let mut r = c.bulk();
            (0..n).map(|_| (0x20 + (r.next() % 0x5f) as u8) as char).collect()
        }
    }
}

/// Flag words: mostly random, realistic bases, single-bit departures
pub fn flag_word(c: &mut Case) -> u32 {
    const BASES: &[u32] = &[
        0xe202_8233,
        0xe28a_8233,
        0x8202_0a33,
        0x0000_0001,
        0x0000_0000,
        0xffff_ffff,
        0xa288_8205,
        0x6289_8215,
        0xe208_8297,
        0x0002_8201,
        0x4000_8211,
        0x4000_8221,
        0x4040_8201,
        0x0000_0281,
    ];
    match c.weighted(&[2, 4, 6, 5, 1]) {
        0 => *c.pick(BASES),
        1 => {
            let mut f = *c.pick(BASES);
            for _ in 0..1 + c.below(4) {
                f ^= 1 << c.draw(31);
            }
            f
        }
        2 => c.draw(u32::MAX as u64) as u32,
        3 => {
            // dense or sparse
            let a = c.draw(u32::MAX as u64) as u32;
            let b = c.draw(u32::MAX as u64) as u32;
            if c.flip() {
                a & b
            } else {
                a | b
            }
        }
        _ => 1 << c.draw(31),
    }
}

/// A 64-bit FILETIME
/// A clock reading since 1970 that a FILETIME can express
pub fn clock(c: &mut Case) -> std::time::Duration {
    let secs = match c.weighted(&[4, 3, 3, 2]) {
        0 => 1_600_000_000 + c.draw(1_000_000_000),
        1 => int(c, 40),
        2 => c.draw(1_833_029_933_700),
        _ => c.draw(4),
    };
    let nanos = match c.weighted(&[4, 3, 2]) {
        0 => c.draw(999_999_999),
        1 => c.draw(300),
        _ => 999_999_999 - c.draw(300),
    };
    std::time::Duration::new(secs, nanos as u32)
}

pub fn filetime(c: &mut Case) -> u64 {
    match c.weighted(&[4, 4, 4, 6, 2]) {
        0 => *c.pick(&[
            0u64,
            1,
            9_999_999,
            10_000_000,
            116_444_736_000_000_000,
            116_444_735_999_999_999,
            116_444_736_000_000_001,
            133_000_000_000_000_000,
            0xffff_ffff,
            0x1_0000_0000,
            0x7fff_ffff_ffff_ffff,
            0x8000_0000_0000_0000,
            u64::MAX,
        ]),
        1 => 132_000_000_000_000_000 + c.draw(10_000_000_000_000_000),
        2 => int(c, 64),
        3 => c.draw(u64::MAX),
        _ => {
            let s = c.draw(1 << 36);
            s.wrapping_mul(10_000_000).wrapping_add(c.draw(2)).wrapping_sub(1)
        }
    }
}
