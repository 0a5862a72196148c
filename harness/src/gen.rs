//! Generators of documents, layouts, literals and mutations.
use crate::mine::pools;
use crate::Rng;

/// An abstract JSON value to be rendered.
#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    /// A number literal.
    Num(String),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

#[derive(Clone)]
pub struct DocOpts {
    pub max_nodes: usize,
    pub max_depth: usize,
    /// Chance in percent that an object key repeats an earlier key of the object.
    pub dup_keys: usize,
    /// Numbers are all distinct small integers (identifies values unambiguously).
    pub unique_nums: bool,
    /// Bias towards objects.
    pub objecty: bool,
}

impl Default for DocOpts {
    fn default() -> Self {
        DocOpts { max_nodes: 40, max_depth: 6, dup_keys: 0, unique_nums: false, objecty: true }
    }
}

pub struct Style {
    /// Percent chance of whitespace at each gap.
    pub ws: usize,
    /// Percent chance of a comment at each gap.
    pub comments: usize,
    /// Percent chance that a character that need not be escaped is.
    pub escape: usize,
}

impl Style {
    pub fn random(rng: &mut Rng, comments: bool) -> Style {
        Style {
            ws: *rng.pick(&[0, 0, 10, 50, 90]),
            comments: if comments { *rng.pick(&[5, 30, 80]) } else { 0 },
            escape: *rng.pick(&[0, 0, 3, 30, 100]),
        }
    }
    pub fn plain() -> Style {
        Style { ws: 0, comments: 0, escape: 0 }
    }
}

pub fn any_char(rng: &mut Rng) -> char {
    match rng.below(10) {
        0..=3 => (b'a' + rng.below(26) as u8) as char,
        4 => *rng.pick(&pools().chars),
        5 => char::from_u32(rng.below(0x80) as u32).unwrap(),
        6 => char::from_u32(rng.range(0x80, 0x7ff) as u32).unwrap(),
        7 => char::from_u32(rng.range(0x800, 0xd7ff) as u32).unwrap(),
        8 => char::from_u32(rng.range(0xe000, 0xffff) as u32).unwrap(),
        _ => char::from_u32(rng.range(0x10000, 0x10ffff) as u32).unwrap(),
    }
}

/// A string; occasionally of a boundary length.
pub fn string(rng: &mut Rng, long: bool) -> String {
    if rng.chance(1, 12) && !pools().strs.is_empty() {
        return rng.pick(&pools().strs).clone();
    }
    let len = if long && rng.chance(1, 8) {
        *rng.pick(&pools().sizes).min(&1200)
    } else {
        rng.small(14)
    };
    let ascii = rng.chance(1, 3);
    (0..len)
        .map(|_| if ascii { (b' ' + rng.below(95) as u8) as char } else { any_char(rng) })
        .collect()
}

pub fn key(rng: &mut Rng) -> String {
    const KEYS: &[&str] = &[
        "a", "b", "c", "ab", "abc", "abd", "aa", "aaa", "ba", "", "A", "é", "éa", "漢", "漢字", "😀", "key", "key1", "key2", "key10",
        "type", "value", "has_value", "name", "x", "y", "z", "a\"b", "a\\", "\n", "a\u{0}", "x\u{300}", "null", "0", "1", " ", "a ",
    ];
    match rng.below(20) {
        0 => string(rng, true),
        1 => format!("k{}", rng.below(1000)),
        2 => "p".repeat(*rng.pick(&pools().sizes).min(&700)),
        3 => format!("{}{}", "q".repeat(*rng.pick(&pools().sizes).min(&300)), rng.below(3)),
        _ => rng.pick(KEYS).to_string(),
    }
}

/// A random valid number literal.
pub fn number(rng: &mut Rng) -> String {
    let mut s = String::new();
    if rng.chance(1, 4) {
        s.push('-');
    }
    match rng.below(12) {
        0 => s.push('0'),
        1..=4 => s.push_str(&rng.below(1000).to_string()),
        5 => s.push_str(&rng.pick(&pools().ints).to_string()),
        6 => s.push_str(&(rng.u64() >> rng.below(64)).to_string()),
        7 => s.push_str(&(rng.u128() >> rng.below(128)).to_string()),
        8 => {
            // exact digit counts (packing boundaries)
            let n = rng.range(1, 45);
            s.push((b'1' + rng.below(9) as u8) as char);
            for _ in 1..n {
                s.push((b'0' + rng.below(10) as u8) as char);
            }
        }
        9 => {
            let f = f64::from_bits(rng.u64());
            if f.is_finite() {
                s = format!("{:e}", f);
                return s;
            }
            s.push('7');
        }
        10 => s.push_str(&format!("{}", 10u128.pow(rng.below(39) as u32))),
        _ => s.push_str("1"),
    }
    if rng.chance(1, 4) {
        s.push('.');
        let n = if rng.chance(1, 8) { *rng.pick(&pools().sizes).min(&400) } else { rng.range(1, 6) }.max(1);
        let zero = rng.chance(1, 4);
        for _ in 0..n {
            s.push(if zero { '0' } else { (b'0' + rng.below(10) as u8) as char });
        }
    }
    if rng.chance(1, 5) {
        s.push(*rng.pick(&['e', 'E']));
        match rng.below(3) {
            0 => s.push('+'),
            1 => s.push('-'),
            _ => (),
        }
        match rng.below(8) {
            0 => s.push_str(&rng.pick(&pools().ints).to_string()),
            1 => s.push_str(&format!("0{}", rng.below(30))),
            2 => s.push_str(&rng.below(400).to_string()),
            _ => s.push_str(&rng.below(12).to_string()),
        }
    }
    s
}

pub fn scalar(rng: &mut Rng, o: &DocOpts, uniq: &mut usize) -> V {
    if o.unique_nums && rng.chance(2, 3) {
        *uniq += 1;
        return V::Num(uniq.to_string());
    }
    match rng.below(8) {
        0 => V::Null,
        1 => V::Bool(rng.bool()),
        2 | 3 | 4 => {
            if o.unique_nums {
                *uniq += 1;
                V::Num(uniq.to_string())
            } else {
                V::Num(number(rng))
            }
        }
        _ => V::Str(string(rng, true)),
    }
}

pub fn doc(rng: &mut Rng, o: &DocOpts) -> V {
    let mut budget = rng.range(1, o.max_nodes);
    let mut uniq = 0;
    node(rng, o, &mut budget, 0, &mut uniq)
}

fn node(rng: &mut Rng, o: &DocOpts, budget: &mut usize, depth: usize, uniq: &mut usize) -> V {
    *budget = budget.saturating_sub(1);
    let container = *budget > 0 && depth < o.max_depth && (depth == 0 && rng.chance(14, 15) || rng.chance(2, 5));
    if !container {
        // Sometimes an empty container
        if rng.chance(1, 8) {
            return if rng.bool() { V::Arr(vec![]) } else { V::Obj(vec![]) };
        }
        return scalar(rng, o, uniq);
    }
    let n = rng.range(1, (*budget).min(8).max(1));
    if rng.chance(if o.objecty { 7 } else { 4 }, 10) {
        let mut es: Vec<(String, V)> = Vec::new();
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            let dup = !es.is_empty() && o.dup_keys > 0 && rng.chance(o.dup_keys, 100);
            if dup {
                let k = es[rng.below(es.len())].0.clone();
                *uniq += 1;
                *budget = budget.saturating_sub(1);
                es.push((k, V::Num(uniq.to_string())));
                continue;
            }
            let k = key(rng);
            if es.iter().any(|e| e.0 == k) {
                continue;
            }
            let v = node(rng, o, budget, depth + 1, uniq);
            es.push((k, v));
        }
        // Entries whose key is repeated must have unambiguous values
        let keys: Vec<String> = es.iter().map(|e| e.0.clone()).collect();
        for e in es.iter_mut() {
            if keys.iter().filter(|k| **k == e.0).count() > 1 && !matches!(e.1, V::Num(_)) {
                *uniq += 1;
                e.1 = V::Num(uniq.to_string());
            } else if keys.iter().filter(|k| **k == e.0).count() > 1 && !o.unique_nums {
                *uniq += 1;
                e.1 = V::Num(uniq.to_string());
            }
        }
        V::Obj(es)
    } else {
        let mut xs = Vec::new();
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            xs.push(node(rng, o, budget, depth + 1, uniq));
        }
        V::Arr(xs)
    }
}

pub fn gap(rng: &mut Rng, st: &Style, out: &mut String) {
    // Several rounds, so that whitespace and comments mix
    for _ in 0..3 {
        if st.ws > 0 && rng.chance(st.ws, 100) {
            for _ in 0..rng.range(1, 3) {
                out.push(*rng.pick(&[' ', '\n', '\r', '\t', ' ']));
            }
        }
        if st.comments > 0 && rng.chance(st.comments, 100) {
            comment(rng, out);
        }
        if rng.bool() {
            break;
        }
    }
}

/// Appends a terminated comment.
pub fn comment(rng: &mut Rng, out: &mut String) {
    const BODIES: &[&str] = &[
        "", " ", "*", "**", "x", "/", "//", "/*", " * / ", "\"", "\\", "{\"a\":1}", "]", ",", ":", "é漢😀", "/ *", "***", "* *", "null", "1",
        "\t", "/**", "-", "'",
    ];
    let mut body: String = (0..rng.small(4)).map(|_| *rng.pick(BODIES)).collect();
    if rng.bool() {
        let body: String = body.chars().filter(|c| *c != '\n').collect();
        out.push_str("//");
        out.push_str(&body);
        out.push('\n');
    } else {
        if rng.chance(1, 5) {
            body.push('\n');
        }
        while body.contains("*/") {
            body = body.replace("*/", "* /");
        }
        out.push_str("/*");
        out.push_str(&body);
        out.push_str("*/");
    }
}

pub fn quote(rng: &mut Rng, s: &str, st: &Style, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let must = (c as u32) < 0x20 || c == '"' || c == '\\';
        let esc = must || (st.escape > 0 && rng.chance(st.escape, 100));
        if !esc {
            out.push(c);
            continue;
        }
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        match short {
            Some(e) if rng.chance(2, 3) => out.push_str(e),
            _ => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let h = format!("{:04x}", u);
                    out.push_str("\\u");
                    for hc in h.chars() {
                        out.push(if rng.bool() { hc.to_ascii_uppercase() } else { hc });
                    }
                }
            }
        }
    }
    out.push('"');
}

fn render_into(rng: &mut Rng, v: &V, st: &Style, out: &mut String) {
    match v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Num(n) => out.push_str(n),
        V::Str(s) => quote(rng, s, st, out),
        V::Arr(xs) => {
            out.push('[');
            gap(rng, st, out);
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    gap(rng, st, out);
                }
                render_into(rng, x, st, out);
                gap(rng, st, out);
            }
            out.push(']');
        }
        V::Obj(es) => {
            out.push('{');
            gap(rng, st, out);
            for (i, (k, x)) in es.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    gap(rng, st, out);
                }
                quote(rng, k, st, out);
                gap(rng, st, out);
                out.push(':');
                gap(rng, st, out);
                render_into(rng, x, st, out);
                gap(rng, st, out);
            }
            out.push('}');
        }
    }
}

pub fn render(rng: &mut Rng, v: &V, st: &Style) -> String {
    let mut out = String::new();
    gap(rng, st, &mut out);
    render_into(rng, v, st, &mut out);
    gap(rng, st, &mut out);
    out
}

/// Does the reference tree denote this abstract value?
pub fn matches(v: &V, n: &crate::JNode) -> bool {
    use crate::JKind as K;
    match (v, &n.kind) {
        (V::Null, K::Null) => true,
        (V::Bool(a), K::Bool(b)) => a == b,
        (V::Num(a), K::Num(b)) => a == b,
        (V::Str(a), K::Str(b)) => a == b,
        (V::Arr(a), K::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| matches(x, y)),
        (V::Obj(a), K::Obj(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, x), e)| *k == e.key && matches(x, &e.value))
        }
        _ => false,
    }
}

/// A document text together with its reference tree. Panics (harness error) if generator and
/// reference parser disagree.
pub fn doc_text(rng: &mut Rng, o: &DocOpts, st: &Style) -> (String, crate::JNode) {
    let v = doc(rng, o);
    let text = render(rng, &v, st);
    let tree = match crate::refjson::parse(&text, st.comments > 0) {
        Ok(t) => t,
        Err(e) => crate::run::harness_error(&format!("reference parser rejects generated text {:?}: {:?}", text, e)),
    };
    if !matches(&v, &tree) {
        crate::run::harness_error(&format!("reference parser misreads generated text {:?}", text));
    }
    (text, tree)
}

/// A length near a power of two, up to `max`.
pub fn length(rng: &mut Rng, max: usize) -> usize {
    let max = if cfg!(miri) { max.min(300) } else { max };
    let top = max.ilog2() as usize;
    // Small powers of two are met by the ordinary generators
    let k = rng.range(5.min(top), top);
    let n = match rng.below(8) {
        0 => (1 << k) + rng.below(1 << k),
        1 => 3 << (k - 1),
        _ => (1 << k) + rng.below(5) - 2,
    };
    n.min(max)
}

fn digits(rng: &mut Rng, n: usize) -> String {
    let c = *rng.pick(&['0', '9', '1', '5', 'x', 'x']);
    (0..n).map(|_| if c == 'x' { (b'0' + rng.below(10) as u8) as char } else { c }).collect()
}

pub fn long_text(rng: &mut Rng, n: usize) -> String {
    match rng.below(4) {
        // Every character escaped
        0 => (0..n).map(|_| *rng.pick(&['\n', '"', '\\', '\u{1}'])).collect(),
        1 => (0..n).map(|_| any_char(rng)).collect(),
        _ => {
            let c = *rng.pick(&['a', 'z', ' ', 'é', '漢', '😀', '"', '\n']);
            let mut s: String = std::iter::repeat(c).take(n.saturating_sub(1)).collect();
            s.push(*rng.pick(&['a', 'b', 'é']));
            s
        }
    }
}

/// A document in which one dimension is large: the length of a key, string, number, gap or
/// container, or the depth. The large part stands in a small context.
pub fn big(rng: &mut Rng, max: usize, deep: usize) -> (String, V) {
    let mut gap_len = 0;
    let mut v = match rng.below(10) {
        0 | 1 => {
            let n = length(rng, max);
            V::Str(long_text(rng, n))
        }
        2 | 3 => {
            // Keys, of which some are large
            let n = length(rng, max);
            let k = long_text(rng, n);
            let mut es = vec![(k.clone(), V::Num("1".into()))];
            for i in 0..rng.below(4) {
                let kk = match rng.below(3) {
                    0 => format!("{}{}", k, i),
                    1 => {
                        // Same length, other end
                        let mut c: Vec<char> = k.chars().collect();
                        *c.last_mut().unwrap() = (b'0' + i as u8) as char;
                        c.into_iter().collect()
                    }
                    _ => format!("s{}", i),
                };
                let at = rng.below(es.len() + 1);
                es.insert(at, (kk, V::Num((i + 2).to_string())));
            }
            V::Obj(es)
        }
        4 => {
            let n = length(rng, max.min(1 << 14));
            let sign = if rng.bool() { "-" } else { "" };
            let d = digits(rng, n);
            let lead = (b'1' + rng.below(9) as u8) as char;
            let z = "0".repeat(n);
            V::Num(match rng.below(6) {
                0 => format!("{}{}{}", sign, lead, d),
                1 => format!("{}{}.{}", sign, lead, d),
                2 => format!("{}0.{}", sign, d),
                3 => format!("{}{}e{}{}", sign, lead, z, rng.below(20)),
                4 => format!("{}{}{}.{}e-{}", sign, lead, d, d, n),
                _ => format!("{}{}{}e-{}", sign, lead, z, n),
            })
        }
        5 => {
            let n = length(rng, max.min(1 << 13));
            V::Arr((0..n).map(|i| V::Num(i.to_string())).collect())
        }
        6 => {
            let n = length(rng, max.min(1 << 12));
            let pre = if rng.bool() { "" } else { "key" };
            V::Obj((0..n).map(|i| (format!("{}{}", pre, i), V::Num(i.to_string()))).collect())
        }
        7 => {
            gap_len = length(rng, max);
            V::Arr(vec![V::Num("1".into()), V::Obj(vec![("a".into(), V::Null)])])
        }
        _ => nested(rng, deep),
    };
    for _ in 0..rng.below(4) {
        v = match rng.below(6) {
            0 => V::Arr(vec![v]),
            1 => V::Arr(vec![V::Num("1".into()), v, V::Str("t".into())]),
            2 => V::Obj(vec![("k".into(), v)]),
            3 => V::Obj(vec![("k".into(), v), ("l".into(), V::Num("3".into()))]),
            4 => V::Obj(vec![("j".into(), V::Str("u".into())), ("k".into(), v)]),
            _ => V::Obj(vec![("j".into(), V::Num("1".into())), ("k".into(), v), ("l".into(), V::Null)]),
        };
    }
    let st = Style { ws: 0, comments: 0, escape: *rng.pick(&[0, 0, 1]) };
    let mut text = render(rng, &v, &st);
    if gap_len > 0 {
        let gaps: Vec<usize> = crate::refjson::tokens(&text).iter().map(|t| t.1).collect();
        let at = if rng.chance(1, 5) { 0 } else { *rng.pick(&gaps) };
        let c = *rng.pick(&[" ", "\n", "\t", "\r"]);
        text.insert_str(at, &c.repeat(gap_len));
    }
    (text, v)
}

/// Containers nested to a boundary depth, with entries from a small set of keys at each level.
pub fn nested(rng: &mut Rng, deep: usize) -> V {
    let n = length(rng, deep);
    let kind = rng.below(5);
    let mut v = match rng.below(4) {
        0 => V::Arr(vec![]),
        1 => V::Obj(vec![]),
        _ => V::Num("0".into()),
    };
    for i in 0..n {
        let obj = match kind {
            0 => false,
            1 | 2 => true,
            _ => rng.bool(),
        };
        let plain = kind < 2 || rng.chance(1, 3);
        let side = V::Num((i + 1).to_string());
        v = if obj {
            let mut ks = vec!["a", "b", "c", "d"];
            let mut es = vec![];
            let k = ks.remove(rng.below(4));
            es.push((k.to_string(), v));
            if !plain {
                for _ in 0..rng.range(1, 2) {
                    let k = ks.remove(rng.below(ks.len()));
                    let at = rng.below(es.len() + 1);
                    es.insert(at, (k.to_string(), side.clone()));
                }
            }
            V::Obj(es)
        } else if plain {
            V::Arr(vec![v])
        } else if rng.bool() {
            V::Arr(vec![side, v])
        } else {
            V::Arr(vec![v, side])
        };
    }
    v
}

/// A near-miss mutation of a text.
pub fn mutate(rng: &mut Rng, text: &str) -> String {
    let cs: Vec<char> = text.chars().collect();
    let mut cs2 = cs.clone();
    const INS: &[char] = &[
        ',', ':', '"', '\\', '{', '}', '[', ']', '0', '1', '-', '+', '.', 'e', 'E', 'n', 't', 'f', '/', '*', ' ', '\n', '\u{1}', '\u{1f}',
        '\u{0}', '\u{b}', '\u{c}', '\u{a0}', '\u{feff}', 'u', 'x', 'é', '\'', '\u{2028}', '\u{7f}', '\u{85}', 'a', 'D', '\t', '\r',
    ];
    for _ in 0..rng.range(1, 2) {
        if cs2.is_empty() {
            cs2.push(*rng.pick(INS));
            continue;
        }
        let i = rng.below(cs2.len());
        match rng.below(9) {
            0 => {
                cs2.remove(i);
            }
            1 | 2 => cs2.insert(rng.below(cs2.len() + 1), *rng.pick(INS)),
            3 => cs2[i] = *rng.pick(INS),
            4 => {
                let c = cs2[i];
                cs2.insert(i, c);
            }
            5 => {
                let j = rng.below(cs2.len());
                cs2.swap(i, j);
            }
            6 => {
                cs2.truncate(i);
            }
            7 => {
                // delete a structural character
                let ps: Vec<usize> = cs2
                    .iter()
                    .enumerate()
                    .filter(|(_, c)| ",:{}[]\"".contains(**c))
                    .map(|(i, _)| i)
                    .collect();
                if !ps.is_empty() {
                    let p = *rng.pick(&ps);
                    cs2.remove(p);
                }
            }
            _ => {
                // insert a fragment
                const FR: &[&str] = &[
                    "\\u", "\\ud800", "\\udc00", "\\ud83d\\ude00", "\\u00", "\\x", "01", "1.", ".5", "-", "1e", "1e+", "tru", "nul", "NaN",
                    "Infinity", "//", "/**/", "/*", ",,", ",]", ",}", "{,", "[,", "::", "\"\"", "null", "{}", "[]", "--1", "+1", "0x1", "1_0",
                    "00", "-01", "\"a\":", "\u{7f}", "\\u00zz", "\\uD83D", "\\ud83dx", "\\ud83d\\n", "\\ud83d\\u0041", "1e5e5", "1.2.3", "''",
                    "True", "undefined", "\\u12", "\\", "e5", "-e5", "- 1", "1 2", "\"a\" \"b\"",
                ];
                let f: Vec<char> = rng.pick(FR).chars().collect();
                let at = rng.below(cs2.len() + 1);
                cs2.splice(at..at, f);
            }
        }
    }
    cs2.into_iter().collect()
}

/// A text that is probably not valid.
pub fn hostile(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => {
            // token soup
            const T: &[&str] = &[
                "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"type\"", "null", "true", "false", "0", "-1", "1.5", "1e9", "\"\"", "\"\\u0041\"", " ",
                "\n", "nul", "-", "\"", "\\", "//x\n", "/**/", "/*", "e", ".", "\"kind\":\"A\"", "{\"a\":", "[1,", "\"has_value\":true", "\"value\":1", "1e-99999",
            ];
            (0..rng.range(1, 60)).map(|_| *rng.pick(T)).collect()
        }
        1 => (0..rng.small(60)).map(|_| any_char(rng)).collect(),
        2 => {
            const T: &[char] = &['{', '}', '[', ']', ',', ':', '"', '\\', '0', '1', '-', '.', 'e', 'n', 't', 'u', '/', '*', '\n', 'a'];
            (0..rng.range(1, 40)).map(|_| *rng.pick(T)).collect()
        }
        3 => {
            // truncated document
            let o = DocOpts { max_nodes: *rng.pick(&[4, 20, 100]), dup_keys: *rng.pick(&[0, 20]), ..Default::default() };
            let c = rng.chance(1, 4);
            let st = Style::random(rng, c);
            let (t, _) = doc_text(rng, &o, &st);
            let n = t.chars().count();
            let k = rng.below(n + 1);
            t.chars().take(k).collect()
        }
        _ => {
            let o = DocOpts { max_nodes: *rng.pick(&[4, 20, 100]), dup_keys: *rng.pick(&[0, 0, 30]), ..Default::default() };
            let c = rng.chance(1, 4);
            let st = Style::random(rng, c);
            let (mut t, _) = doc_text(rng, &o, &st);
            for _ in 0..rng.small(4) {
                t = mutate(rng, &t);
            }
            t
        }
    }
}

/// Characters which something comparing characters carelessly could take for `c`: its neighbours,
/// those that share its low bits, its other case, and other characters of its Unicode class.
pub fn confusables(c: char) -> Vec<char> {
    let x = c as u32;
    let mut v: Vec<u32> = vec![x.wrapping_sub(1), x + 1, x ^ 0x20, x ^ 0x10, x ^ 0x40, x ^ 0x80, x + 0x100, x + 0x200, x + 0xFF00, x + 0x10000, x + 0x100000];
    match c {
        '0'..='9' => v.extend([x - 0x30 + 0x660, x - 0x30 + 0x966, x - 0x30 + 0xFF10, x - 0x30 + 0x1D7CE, 0xB2, 0x2460, 'a' as u32, 'o' as u32]),
        'a'..='f' | 'A'..='F' => v.extend(['g' as u32, 'G' as u32, 'h' as u32, 'z' as u32, '0' as u32, x + 6, 0xFF21]),
        ' ' | '\t' | '\n' | '\r' => v.extend([0, 0xB, 0xC, 0x1C, 0x1F, 0x85, 0xA0, 0x1680, 0x2000, 0x2003, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000, 0xFEFF, 0x200B]),
        '"' => v.extend(['\'' as u32, 0x201C, 0x201D, 0xFF02, '`' as u32]),
        '\\' => v.extend([0xFF3C, '/' as u32, '|' as u32, '%' as u32]),
        '-' => v.extend(['+' as u32, 0x2212, 0x2010, 0x2013, '_' as u32, '~' as u32]),
        '+' => v.extend(['-' as u32, 0xFF0B]),
        '.' => v.extend([',' as u32, 0xB7, 0x66B, '\'' as u32, '_' as u32]),
        ',' => v.extend([';' as u32, '.' as u32, ':' as u32, 0x60C, 0xFF0C, ' ' as u32]),
        ':' => v.extend(['=' as u32, ';' as u32, ',' as u32, 0xFF1A]),
        '[' | '{' | ']' | '}' => v.extend(['(' as u32, '<' as u32, ')' as u32, '>' as u32, '[' as u32, '{' as u32, ']' as u32, '}' as u32]),
        _ => (),
    }
    let mut v: Vec<char> = v.into_iter().filter_map(char::from_u32).filter(|d| *d != c).collect();
    v.sort();
    v.dedup();
    v
}

/// Every text at one small step from the given one: a character left out, doubled, swapped with
/// the next, replaced by a confusable one, or such a one put before it.
pub fn near(text: &str) -> Vec<String> {
    let cs: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let put = |f: &dyn Fn(&mut Vec<char>)| {
        let mut v = cs.clone();
        f(&mut v);
        v.into_iter().collect::<String>()
    };
    for i in 0..cs.len() {
        out.push(put(&|v| {
            v.remove(i);
        }));
        out.push(put(&|v| v.insert(i, cs[i])));
        if i + 1 < cs.len() {
            out.push(put(&|v| v.swap(i, i + 1)));
        }
        for d in confusables(cs[i]) {
            out.push(put(&|v| v[i] = d));
            out.push(put(&|v| v.insert(i, d)));
        }
    }
    out
}
