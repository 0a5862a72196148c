//! C13: name tables find exactly the names they contain.
use serdere::*;
use std::collections::BTreeMap;
use vh::run::quiet;
use vh::walk::intern;
use vh::*;

type Entry = (&'static str, u64);

/// Table of a run-time number of entries.
fn with_table<R>(e: &[Entry], f: &mut dyn FnMut(&NameMap<u64>) -> R) -> R {
    macro_rules! sizes {
        ($($n:literal)*) => {
            match e.len() {
                $($n => {
                    let a: [Entry; $n] = e.try_into().unwrap();
                    let t = FixedNameMap::new(a);
                    f(t.unfix())
                })*
                n => run::harness_error(&format!("no table of size {}", n)),
            }
        };
    }
    sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 40 64 100 128 257)
}
const SIZES: &[usize] = &[33, 40, 64, 100, 128, 257];

const CHARS: &[char] = &[
    '\0', '\u{1}', 'a', 'b', 'c', '~', '\u{7f}', '\u{80}', '\u{81}', '\u{bf}', '\u{c0}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}',
    '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
];

fn name(rng: &mut Rng, alpha: usize, max: usize) -> String {
    let n = rng.below(max + 1);
    (0..n)
        .map(|_| match alpha {
            0 => *rng.pick(&['a', 'b']),
            1 => *rng.pick(&['a', 'b', 'c', 'd', 'e']),
            2 => *rng.pick(CHARS),
            3 => char::from_u32(0x61 + rng.below(26) as u32).unwrap(),
            _ => gen::any_char(rng),
        })
        .collect()
}

fn names(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let alpha = rng.below(5);
    let max = *rng.pick(&[2, 4, 9, 30]);
    let mut tries = 0;
    while out.len() < n && tries < 20 * n + 20 {
        tries += 1;
        let s = match rng.below(4) {
            // Relatives of a name that is already there
            0 if !out.is_empty() => {
                let b = rng.pick(&out).clone();
                relative(rng, &b, alpha)
            }
            _ => name(rng, alpha, max),
        };
        if !out.contains(&s) {
            out.push(s);
        }
    }
    out
}

fn relative(rng: &mut Rng, b: &str, alpha: usize) -> String {
    let mut c: Vec<char> = b.chars().collect();
    match rng.below(5) {
        0 => {
            let n = rng.below(c.len() + 1);
            c.truncate(n);
        }
        1 => {
            c.extend(name(rng, alpha, 3).chars());
        }
        2 if !c.is_empty() => {
            // A neighbouring character somewhere
            let i = rng.below(c.len());
            let x = c[i] as u32;
            let y = if rng.bool() { x.wrapping_add(1) } else { x.wrapping_sub(1) };
            c[i] = char::from_u32(y).unwrap_or('x');
        }
        3 if !c.is_empty() => {
            let i = rng.below(c.len());
            c.remove(i);
        }
        _ => {
            let i = rng.below(c.len() + 1);
            c.insert(i, *rng.pick(CHARS));
        }
    }
    c.into_iter().collect()
}

/// Writes `s` in random pieces, checking the result at every character boundary on the way.
fn lookup(rng: &mut Rng, cx: &mut Cx, t: &NameMap<u64>, model: &BTreeMap<&str, u64>, s: &str) -> Result<(), String> {
    let mut l = t.lookup();
    let mut i = 0;
    let mut how = String::new();
    let mode = rng.below(5);
    while i < s.len() || rng.chance(1, 4) {
        let rest = if s.is_char_boundary(i) { &s[i..] } else { "" };
        match if s.is_char_boundary(i) { if mode < 4 { mode } else { rng.below(4) } } else { 2 } {
            0 => {
                if let Some(c) = rest.chars().next() {
                    l.write_char(c);
                    i += c.len_utf8();
                    how.push('c');
                }
            }
            1 => {
                let mut n = rng.below(rest.len() + 1);
                while !rest.is_char_boundary(n) {
                    n += 1;
                }
                l.write_str(&rest[..n]);
                i += n;
                how.push_str(&format!("s{}", n));
            }
            2 => {
                let b = &s.as_bytes()[i..];
                let n = if rng.bool() { rng.below(b.len() + 1) } else { rng.below(b.len().min(2) + 1) };
                l.write_bytes(&b[..n]);
                i += n;
                how.push_str(&format!("b{}", n));
            }
            _ => {
                l.write_str(rest);
                i = s.len();
                how.push('r');
            }
        }
        cx.count("pieces", 1);
        if s.is_char_boundary(i) {
            let want = model.get(&s[..i]).copied();
            let got = l.result().copied();
            ensure!(got == want, "{:?} written as {} into {:?}: {:?}, expected {:?}", &s[..i], how, model, got, want);
            cx.count(if want.is_some() { "found" } else { "absent" }, 1);
        }
    }
    Ok(())
}

fn judge(rng: &mut Rng, cx: &mut Cx, e: &[Entry], full: bool) -> Result<(), String> {
    let model: BTreeMap<&str, u64> = e.iter().copied().collect();
    let mut q: Vec<String> = Vec::new();
    for (n, _) in e.iter().take(if full { 300 } else { 12 }) {
        q.push(n.to_string());
        for _ in 0..2 {
            let alpha = rng.below(5);
            q.push(relative(rng, n, alpha));
        }
    }
    for _ in 0..3 {
        let alpha = rng.below(5);
        q.push(name(rng, alpha, 12));
    }
    q.push(String::new());
    let mut f = |t: &NameMap<u64>| -> Result<(), String> {
        ensure!(t.size() == e.len(), "size {} of {:?}", t.size(), e);
        let mut listed: Vec<(&str, u64)> = t.entries().map(|(n, v)| (n, *v)).collect();
        listed.sort();
        let want: Vec<(&str, u64)> = model.iter().map(|(n, v)| (*n, *v)).collect();
        ensure!(listed == want, "enumeration of {:?} gives {:?}", e, listed);
        for s in &q {
            cx.evals += 1;
            let want = model.get(s.as_str());
            ensure!(t.get(s) == want, "get({:?}) in {:?}: {:?}, expected {:?}", s, e, t.get(s), want);
            lookup(rng, cx, t, &model, s)?;
        }
        Ok(())
    };
    quiet(|| with_table(e, &mut f)).map_err(|p| format!("panic {} with the table {:?}", p, e))?
}

/// Tables of long names: a few stems cut off, extended and changed around lengths at which a
/// counter might overflow.
fn long(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    // Names have to be leaked, so they are taken from a fixed pool
    static POOL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let pool = POOL.get_or_init(|| {
        // (leaked only once it is clear that they stay in use)
        let mut all: std::collections::BTreeSet<String> = ["", "a", "b", "aa", "ab"].iter().map(|s| s.to_string()).collect();
        for stem in ["a", "ab", "\u{e9}", "\u{10ffff}b"] {
            for n in [63usize, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 768, 1000, 4096, 65535, 65536, 65537, 65540, 131072] {
                let mut s = stem.repeat(n / stem.len());
                while s.len() < n {
                    s.push('z');
                }
                all.insert(s.clone());
                if n < 2000 {
                    for x in ["a", "b", "c"] {
                        all.insert(format!("{}{}", s, x));
                        all.insert(format!("{}{}", x, s));
                    }
                }
                // Another last character
                s.pop();
                s.push('y');
                all.insert(s);
            }
        }
        let out: Vec<&'static str> = all.iter().map(|s| intern(s)).collect();
        out
    });
    let huge = rng.chance(1, 20);
    let n = rng.range(1, if huge { 9 } else { 24 });
    let mut e: Vec<Entry> = vec![];
    for _ in 0..n {
        let s = *rng.pick(pool);
        if (huge || s.len() < 2000) && !e.iter().any(|x| x.0 == s) {
            e.push((s, rng.u64()));
        }
    }
    cx.distinct(e.iter().fold(7, |h, x| rng::mix(h ^ x.0.as_ptr() as u64)));
    cx.max("name_bytes", e.iter().map(|x| x.0.len()).max().unwrap_or(0) as u64);
    cx.count("long_tables", 1);
    let model: BTreeMap<&str, u64> = e.iter().copied().collect();
    quiet(|| {
        with_table(&e, &mut |t| {
            for k in 0..12 {
                let s = match k % 3 {
                    _ if e.is_empty() => "",
                    0 => rng.pick(&e).0,
                    1 => *rng.pick(pool),
                    _ => {
                        // A part of one, or several in a row
                        let s = rng.pick(&e).0;
                        let mut n = rng.below(s.len() + 1);
                        while !s.is_char_boundary(n) {
                            n += 1;
                        }
                        &s[..n]
                    }
                };
                let s = if rng.chance(1, 6) { format!("{}{}", s, rng.pick(&["a", "b", "\0", "z"])) } else { s.to_string() };
                if !huge && s.len() > 5000 {
                    continue;
                }
                cx.evals += 1;
                let want = model.get(s.as_str());
                ensure!(t.get(&s) == want, "get({}) in a table of {} long names: {:?}, expected {:?}", run::show(&s), e.len(), t.get(&s), want);
                let mut l = t.lookup();
                let mut at = 0;
                let piece = *rng.pick(&[1usize, 2, 100, 255, 256, 257, 70000]);
                while at < s.len() {
                    let mut end = (at + rng.range(1, piece)).min(s.len());
                    match rng.below(3) {
                        0 => l.write_bytes(&s.as_bytes()[at..end]),
                        1 if s.is_char_boundary(at) => {
                            while !s.is_char_boundary(end) {
                                end += 1;
                            }
                            l.write_str(&s[at..end]);
                        }
                        _ if s.is_char_boundary(at) => {
                            let c = s[at..].chars().next().unwrap();
                            l.write_char(c);
                            end = at + c.len_utf8();
                        }
                        _ => l.write_bytes(&s.as_bytes()[at..end]),
                    }
                    at = end;
                    if s.is_char_boundary(at) && rng.chance(1, 8) {
                        let want = model.get(&s[..at]);
                        ensure!(l.result() == want, "first {} bytes of {} in a table of {} long names: {:?}, expected {:?}", at, run::show(&s), e.len(), l.result(), want);
                    }
                }
                ensure!(l.result() == want, "{} ({} bytes) in pieces in a table of {} long names: {:?}, expected {:?}", run::show(&s), s.len(), e.len(), l.result(), want);
                cx.count(if want.is_some() { "long_found" } else { "long_absent" }, 1);
            }
            Ok(())
        })
    })
    .map_err(|p| format!("panic {} with a table of long names", p))?
}

fn random(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = if rng.chance(1, 40) { *rng.pick(SIZES) } else { rng.small(32) };
    let mut ns = names(rng, n);
    while !matches!(ns.len(), 0..=33 | 40 | 64 | 100 | 128 | 257) {
        ns.pop();
    }
    match rng.below(5) {
        0 => ns.sort(),
        1 => {
            ns.sort();
            ns.reverse();
        }
        2 => {
            // Organ pipe
            ns.sort();
            let (mut a, mut b) = (vec![], vec![]);
            for (i, s) in ns.drain(..).enumerate() {
                if i % 2 == 0 { a.push(s) } else { b.push(s) }
            }
            b.reverse();
            a.extend(b);
            ns = a;
        }
        3 => {
            // Nearly sorted
            ns.sort();
            if ns.len() > 1 {
                let (i, j) = (rng.below(ns.len()), rng.below(ns.len()));
                ns.swap(i, j);
            }
        }
        _ => (),
    }
    let e: Vec<Entry> = ns.iter().map(|s| (intern(s), if rng.chance(1, 3) { 0 } else { rng.u64() })).collect();
    cx.distinct_str(&ns.join("\u{1f}"));
    cx.max("entries", e.len() as u64);
    cx.count("tables", 1);
    judge(rng, cx, &e, true)
}

const FAMILIES: &[&[&str]] = &[
    &["", "a", "aa", "aaa", "aaaa", "aaaaa", "aaaaaa"],
    &["a", "b", "c", "d", "e", "f", "g"],
    &["", "\0", "\0\0", "a\0", "a", "\u{1}", "~"],
    &["é", "è", "ê", "e", "", "éa", "ée"],
    &["\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}"],
    &["ab", "abc", "abd", "b", "ba", "a", "abcd"],
    &["fi", "fil", "film", "firm", "f", "fj", "g"],
];

/// Every order of construction of every subset of small families of up to six (thorough: seven) names.
fn orders(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let fam = FAMILIES[idx as usize % FAMILIES.len()];
    let mask = idx as usize / FAMILIES.len() % 128;
    let set: Vec<Entry> = (0..7).filter(|i| mask >> i & 1 == 1).map(|i| (fam[i], 100 + i as u64)).collect();
    if set.len() > 6 && !cx.thorough {
        return Ok(());
    }
    cx.distinct(idx);
    // Heap's algorithm
    let mut a = set.clone();
    let n = a.len();
    let mut c = vec![0; n];
    judge(rng, cx, &a, false)?;
    let mut i = 0;
    while i < n {
        if c[i] < i {
            if i % 2 == 0 { a.swap(0, i) } else { a.swap(c[i], i) }
            cx.count("orders", 1);
            judge(rng, cx, &a, false)?;
            c[i] += 1;
            i = 0;
        } else {
            c[i] = 0;
            i += 1;
        }
    }
    Ok(())
}

/// Every way to cut the raw bytes of every name into pieces.
fn cuts(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let fam = FAMILIES[idx as usize % FAMILIES.len()];
    let mut e: Vec<Entry> = fam.iter().enumerate().map(|(i, s)| (*s, i as u64)).collect();
    let k = rng.below(e.len());
    e.rotate_left(k);
    let model: BTreeMap<&str, u64> = e.iter().copied().collect();
    let mut q: Vec<String> = fam.iter().map(|s| s.to_string()).collect();
    for s in fam {
        q.push(relative(rng, s, 2));
    }
    with_table(&e, &mut |t| {
        for s in &q {
            let b = s.as_bytes();
            if b.len() > 8 {
                continue;
            }
            for mask in 0..1u32 << b.len().saturating_sub(1) {
                cx.evals += 1;
                cx.count("cuts", 1);
                let mut l = t.lookup();
                let mut start = 0;
                for i in 0..b.len() {
                    if i + 1 == b.len() || mask >> i & 1 == 1 {
                        l.write_bytes(&b[start..=i]);
                        start = i + 1;
                    }
                }
                let (got, want) = (l.result(), model.get(s.as_str()));
                ensure!(got == want, "{:?} cut by {:b} in {:?}: {:?}, expected {:?}", s, mask, e, got, want);
            }
        }
        Ok(())
    })
}

fn main() {
    run::main(Check {
        id: "C13",
        level: "exploration",
        rule: "tables of 0 to 257 distinct names (prefix families, extreme and neighbouring characters, sorted, reversed, organ-pipe, random orders) against a map; each queried with its names, prefixes, extensions, neighbours, cut into random characters, strings, raw bytes and empty pieces, with the result judged at every character boundary on the way; every order of every subset of small families; every cut of every name; tables of names of up to 131072 bytes around power-of-two lengths; distinct by table",
        assumptions: &["names in a table are distinct"],
        phases: vec![
            Phase { name: "random", quick: 900000, thorough: 0, f: random },
            Phase { name: "orders", quick: 7 * 128, thorough: 7 * 128, f: orders },
            Phase { name: "cuts", quick: 7 * 1000, thorough: 7 * 1000, f: cuts },
            Phase { name: "long", quick: 30000, thorough: 0, f: long },
        ],
        floors: &[("found", 10000), ("absent", 10000), ("orders", 1000), ("cuts", 1000), ("long_found", 1000), ("long_absent", 1000)],
        hang_cpu_s: 30,
    });
}
