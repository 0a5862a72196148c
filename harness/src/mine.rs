//! Boundary pools extended by literals mined from the sources under test, so that code which
//! behaves specially at a magic number or string is likely to meet it.
use std::path::Path;
use std::sync::OnceLock;

pub struct Pools {
    /// Integer literals found in the sources (and neighbours), for use as values.
    pub ints: Vec<u128>,
    /// Sizes (lengths, counts, depths) up to 5000.
    pub sizes: Vec<usize>,
    /// String literals found in the sources.
    pub strs: Vec<String>,
    /// Characters.
    pub chars: Vec<char>,
}

fn visit(dir: &Path, out: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut ps: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    ps.sort();
    for p in ps {
        if p.is_dir() {
            visit(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            if let Ok(s) = std::fs::read_to_string(&p) {
                out.push(s);
            }
        }
    }
}

fn parse_int(tok: &str) -> Option<u128> {
    let t: String = tok.chars().filter(|c| *c != '_').collect();
    let (radix, body) = if let Some(b) = t.strip_prefix("0x") {
        (16, b.to_string())
    } else if let Some(b) = t.strip_prefix("0b") {
        (2, b.to_string())
    } else if let Some(b) = t.strip_prefix("0o") {
        (8, b.to_string())
    } else {
        (10, t)
    };
    let end = body
        .char_indices()
        .find(|(_, c)| !c.is_digit(radix))
        .map(|(i, _)| i)
        .unwrap_or(body.len());
    u128::from_str_radix(&body[..end], radix).ok()
}

fn mine_text(src: &str, ints: &mut Vec<u128>, strs: &mut Vec<String>, chars: &mut Vec<char>) {
    let cs: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                if cs[i] == '\\' && i + 1 < cs.len() {
                    i += 1;
                    match cs[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' => {
                            let h: String = cs[i + 1..(i + 3).min(cs.len())].iter().collect();
                            if let Ok(v) = u8::from_str_radix(&h, 16) {
                                s.push(v as char);
                            }
                            i += 2;
                        }
                        o => s.push(o),
                    }
                } else {
                    s.push(cs[i]);
                }
                i += 1;
            }
            i += 1;
            if s.len() <= 64 {
                strs.push(s);
            }
        } else if c == '\'' {
            // Character literal or lifetime
            let mut j = i + 1;
            let mut ch = None;
            if cs.get(j) == Some(&'\\') {
                match cs.get(j + 1) {
                    Some('n') => ch = Some('\n'),
                    Some('t') => ch = Some('\t'),
                    Some('r') => ch = Some('\r'),
                    Some('0') => ch = Some('\0'),
                    Some('x') => {
                        let h: String = cs[(j + 2).min(cs.len())..(j + 4).min(cs.len())].iter().collect();
                        ch = u8::from_str_radix(&h, 16).ok().map(|v| v as char);
                        j += 2;
                    }
                    Some('u') => {
                        let mut k = j + 3;
                        let mut h = String::new();
                        while k < cs.len() && cs[k] != '}' && h.len() < 8 {
                            h.push(cs[k]);
                            k += 1;
                        }
                        ch = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32);
                        j = k - 1;
                    }
                    Some(o) => ch = Some(*o),
                    None => (),
                }
                j += 1;
            } else {
                ch = cs.get(j).copied();
            }
            if cs.get(j + 1) == Some(&'\'') {
                if let Some(ch) = ch {
                    chars.push(ch);
                }
                i = j + 2;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let t: String = cs[start..i].iter().collect();
            if let Some(v) = parse_int(&t) {
                ints.push(v);
            }
        } else if c.is_alphabetic() || c == '_' {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

pub fn pools() -> &'static Pools {
    static P: OnceLock<Pools> = OnceLock::new();
    P.get_or_init(|| {
        let mut srcs = Vec::new();
        if !cfg!(miri) {
            for d in ["/repo/core/src", "/repo/json/src", "/repo/derive/src"] {
                visit(Path::new(d), &mut srcs);
            }
        }
        let (mut mi, mut strs, mut chars) = (Vec::new(), Vec::new(), Vec::new());
        for s in &srcs {
            mine_text(s, &mut mi, &mut strs, &mut chars);
        }
        let mut ints = vec![0u128, 1, 2, 9, 10, 99, 100, 127, 128, 255, 256];
        let mut sizes = vec![0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
        for v in mi {
            for w in [v.wrapping_sub(1), v, v.wrapping_add(1)] {
                if w < u128::MAX - 8 {
                    ints.push(w);
                    if w <= 5000 {
                        sizes.push(w as usize);
                    }
                }
            }
        }
        ints.sort();
        ints.dedup();
        sizes.sort();
        sizes.dedup();
        strs.sort();
        strs.dedup();
        for c in "\0\x01\x08\x09\x0a\x0b\x0c\x0d\x1f \"'/\\{}[],:-+.0aeEn\u{7f}\u{80}\u{7ff}\u{800}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{10ffff}éß漢😀\u{2028}\u{85}\u{a0}".chars() {
            chars.push(c);
        }
        chars.sort();
        chars.dedup();
        Pools { ints, sizes, strs, chars }
    })
}
