//! Literals of the code under test, harvested at run time to bias the generators.
//! They only steer which inputs are generated; no oracle depends on them.

use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub texts: Vec<String>,
    pub blobs: Vec<Vec<u8>>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let root = std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = Vec::new();
        walk(Path::new(&root).join("src").as_path(), &mut files);
        files.sort();
        let mut d = Dict::default();
        for f in files {
            if f.ends_with("vp_hooks.rs") || f.ends_with("win.rs") {
                continue;
            }
            if let Ok(s) = std::fs::read(&f) {
                harvest(&s, &mut d);
            }
        }
        d.ints.sort_unstable();
        d.ints.dedup();
        d.texts.sort();
        d.texts.dedup();
        d.blobs.sort();
        d.blobs.dedup();
        if d.texts.is_empty() {
            d.texts.push("Domain".into());
        }
        if d.ints.is_empty() {
            d.ints.push(0);
        }
        if d.blobs.is_empty() {
            d.blobs.push(vec![0; 8]);
        }
        d
    })
}

fn walk(p: &Path, out: &mut Vec<String>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p.to_string_lossy().into_owned());
            }
        }
    }
}

/// A forgiving scan of Rust source for literals
fn harvest(s: &[u8], d: &mut Dict) {
    let mut i = 0;
    let mut arr: Vec<u64> = Vec::new();
    let mut in_arr = false;
    let mut prev_ident = false;
    while i < s.len() {
        let c = s[i];
        match c {
            b'/' if s.get(i + 1) == Some(&b'/') => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'/' if s.get(i + 1) == Some(&b'*') => {
                while i + 1 < s.len() && !(s[i] == b'*' && s[i + 1] == b'/') {
                    i += 1;
                }
                i += 2;
            }
            b'"' => {
                let mut out = Vec::new();
                i += 1;
                while i < s.len() && s[i] != b'"' {
                    if s[i] == b'\\' && i + 1 < s.len() {
                        i += 1;
                        match s[i] {
                            b'n' => out.push(b'\n'),
                            b't' => out.push(b'\t'),
                            b'r' => out.push(b'\r'),
                            b'0' => out.push(0),
                            b'x' if i + 2 < s.len() => {
                                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap_or("0");
                                out.push(u8::from_str_radix(h, 16).unwrap_or(b'?'));
                                i += 2;
                            }
                            b'u' => {
                                let mut j = i + 2;
                                let mut v = 0u32;
                                while j < s.len() && s[j] != b'}' {
                                    v = v
                                        .wrapping_mul(16)
                                        .wrapping_add((s[j] as char).to_digit(16).unwrap_or(0));
                                    j += 1;
                                }
                                if let Some(ch) = char::from_u32(v) {
                                    let mut b = [0; 4];
                                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                                }
                                i = j;
                            }
                            x => out.push(x),
                        }
                    } else {
                        out.push(s[i]);
                    }
                    i += 1;
                }
                i += 1;
                if !out.is_empty() && out.len() <= 64 {
                    d.blobs.push(out.clone());
                    if let Ok(t) = String::from_utf8(out) {
                        if !t.contains('\0') {
                            d.texts.push(t);
                        }
                    }
                }
                prev_ident = false;
                continue;
            }
            b'\'' => {
                // char literal or lifetime
                let rest = &s[i + 1..s.len().min(i + 14)];
                if let Some(p) = rest.iter().position(|b| *b == b'\'') {
                    if let Ok(t) = std::str::from_utf8(&rest[..p]) {
                        let mut ch = t.chars();
                        if let (Some(c0), None) = (ch.next(), ch.next()) {
                            if c0 != '\0' {
                                d.texts.push(c0.to_string());
                            }
                            d.ints.push(c0 as u64);
                            i += p + 2;
                            continue;
                        } else if let Some(h) =
                            t.strip_prefix("\\u{").and_then(|x| x.strip_suffix('}'))
                        {
                            if let Some(c0) =
                                u32::from_str_radix(h, 16).ok().and_then(char::from_u32)
                            {
                                if c0 != '\0' {
                                    d.texts.push(c0.to_string());
                                }
                                d.ints.push(c0 as u64);
                            }
                            i += p + 2;
                            continue;
                        }
                    }
                }
                i += 1;
                prev_ident = false;
                continue;
            }
            b'[' => {
                in_arr = true;
                arr.clear();
            }
            b']' => {
                if in_arr && arr.len() >= 2 && arr.iter().all(|v| *v < 256) && arr.len() <= 512 {
                    d.blobs.push(arr.iter().map(|v| *v as u8).collect());
                }
                in_arr = false;
                arr.clear();
            }
            b'0'..=b'9' if !prev_ident => {
                let start = i;
                let radix = if c == b'0' {
                    match s.get(i + 1) {
                        Some(b'x') => 16,
                        Some(b'b') => 2,
                        Some(b'o') => 8,
                        _ => 10,
                    }
                } else {
                    10
                };
                if radix != 10 {
                    i += 2;
                }
                let mut v = 0u64;
                while i < s.len() {
                    if s[i] == b'_' {
                        i += 1;
                        continue;
                    }
                    match (s[i] as char).to_digit(radix) {
                        Some(x) => v = v.wrapping_mul(radix as u64).wrapping_add(x as u64),
                        None => break,
                    }
                    i += 1;
                }
                if i == start {
                    i += 1;
                }
                // suffix such as u32
                while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_') {
                    i += 1;
                }
                if !in_arr {
                    d.ints.push(v);
                }
                if in_arr && arr.len() < 1024 {
                    arr.push(v);
                }
                prev_ident = false;
                continue;
            }
            _ => {}
        }
        prev_ident = c.is_ascii_alphanumeric() || c == b'_';
        i += 1;
    }
}
