//! C24: character readers keep peek, next, position and bulk reads consistent.
use serdere::*;
use std::cmp::Ordering;
use vh::reader::{str_offset, Chunked, MonReader};
use vh::run::{quiet, show};
use vh::*;

/// How a reader's position is judged.
trait Judge<P> {
    fn position(&self, p: &P, off: usize) -> Result<(), String>;
    /// Order of the positions after `a` and `b` bytes; `None` if it is left open.
    fn order(&self, a: usize, b: usize) -> Option<Ordering>;
}

struct Str<'a> {
    text: &'a str,
    /// Position after every byte of the text (only at character boundaries).
    at: Vec<StrPosition<'a>>,
}
impl<'a> Str<'a> {
    fn new(text: &'a str) -> Self {
        let at = (0..=text.len()).map(|i| if text.is_char_boundary(i) { (&text[i..]).position() } else { (&text[..]).position() }).collect();
        Str { text, at }
    }
}
impl<'a> Judge<StrPosition<'a>> for Str<'a> {
    fn position(&self, p: &StrPosition<'a>, off: usize) -> Result<(), String> {
        ensure!(*p == self.at[off], "position is {:?}, expected {}", str_offset(self.text, p), off);
        if self.text.len() < 200 {
            // Shown to users: must not fail
            ensure!(!format!("{}", p).is_empty() && !format!("{:?}", p).is_empty(), "position shows nothing");
        }
        Ok(())
    }
    fn order(&self, a: usize, b: usize) -> Option<Ordering> {
        Some(a.cmp(&b))
    }
}

struct Lines(Vec<(usize, usize)>);
impl Lines {
    fn new(text: &str) -> Self {
        let mut v = vec![(0, 0)];
        let (mut line, mut column) = (0, 0);
        for c in text.chars() {
            match c {
                '\n' => {
                    line += 1;
                    column = 0;
                }
                '\t' => column += 4,
                '\r' => (),
                _ => column += 1,
            }
            for _ in 0..c.len_utf8() {
                v.push((line, column));
            }
        }
        Lines(v)
    }
}
impl Judge<LineColumnPosition> for Lines {
    fn position(&self, p: &LineColumnPosition, off: usize) -> Result<(), String> {
        let want = self.0[off];
        ensure!((p.line, p.column) == want, "position is {:?}, expected {:?}", p, want);
        let shown = format!("at line {}, column {}", want.0 + 1, want.1 + 1);
        ensure!(p.to_string() == shown, "position shown as {:?}, expected {:?}", p.to_string(), shown);
        Ok(())
    }
    fn order(&self, a: usize, b: usize) -> Option<Ordering> {
        Some(self.0[a].cmp(&self.0[b]))
    }
}

struct Offs;
impl Judge<usize> for Offs {
    fn position(&self, p: &usize, off: usize) -> Result<(), String> {
        ensure!(*p == off, "position is {}, expected {}", p, off);
        Ok(())
    }
    fn order(&self, a: usize, b: usize) -> Option<Ordering> {
        Some(a.cmp(&b))
    }
}

/// A random sequence of operations, each compared with the model (`text` and an offset).
fn ops<R: TextReader>(rng: &mut Rng, cx: &mut Cx, mut r: R, text: &str, judge: &dyn Judge<R::Position>) -> Result<(), String> {
    cx.evals += 1;
    let mut off = 0;
    let mut seen: Vec<(R::Position, usize)> = Vec::new();
    let mut log = String::new();
    let mut past_end = 0;
    let bulk = *rng.pick(&[0, 20, 60]);
    loop {
        let rest = &text[off..];
        let head = rest.chars().next();
        macro_rules! fail {
            ($($a:tt)+) => { return Err(format!("{} on {} at offset {} after {}", format!($($a)+), show(text), off, log)) };
        }
        for _ in 0..rng.below(3) {
            if r.peek() != head {
                fail!("peek gives {:?}, expected {:?}", r.peek(), head);
            }
        }
        let p = r.position();
        if let Err(e) = judge.position(&p, off) {
            fail!("{}", e);
        }
        if rng.chance(1, 2) {
            for (q, o) in seen.iter().rev().take(3).chain(seen.iter().take(2)) {
                if let Some(want) = judge.order(*o, off) {
                    let eq = *q == p;
                    if q.cmp(&p) != want || p.cmp(q) != want.reverse() || q.partial_cmp(&p) != Some(want) || eq != (want == Ordering::Equal) {
                        fail!("position {:?} of offset {} compares {:?} (equal: {}) to {:?}, expected {:?}", q, o, q.cmp(&p), eq, p, want);
                    }
                    cx.count("comparisons", 1);
                }
            }
            let c = p.clone();
            if c != p {
                fail!("a copy of position {:?} differs from it", p);
            }
        }
        seen.push((p, off));
        cx.count("ops", 1);
        if rng.chance(bulk, 100) {
            if rng.bool() {
                // read_exact: a prefix of the rest, or something else
                let mut n = rng.below(rest.len().min(12) + 1);
                if rng.chance(1, 20) {
                    n = rest.len();
                }
                while !rest.is_char_boundary(n) {
                    n += 1;
                }
                let mut s = rest[..n].to_string();
                if rng.chance(1, 15) {
                    s.push(gen::any_char(rng));
                } else if rng.chance(1, 15) && !s.is_empty() {
                    let t: String = s.chars().skip(1).chain(['x']).collect();
                    s = t;
                }
                let want = rest.starts_with(&s);
                let got = r.read_exact(&s);
                log.push_str(&format!("exact {:?};", s));
                if got != want {
                    fail!("read_exact({:?}) gives {}, expected {}", s, got, want);
                }
                cx.count(if got { "exact_hit" } else { "exact_miss" }, 1);
                if !got {
                    // Left at an undefined place: it must still behave as a reader
                    let mut n = 0;
                    loop {
                        let a = r.peek();
                        let b = r.next();
                        if a != b {
                            fail!("after a failed read_exact, peek gives {:?} and next {:?}", a, b);
                        }
                        n += 1;
                        if b.is_none() {
                            break;
                        }
                        if n > text.len() + 1 {
                            fail!("more characters than the text has after a failed read_exact");
                        }
                    }
                    return Ok(());
                }
                off += s.len();
            } else {
                // read_until
                let kind = rng.below(4);
                let c0 = head.unwrap_or('x');
                let mut calls: Vec<char> = Vec::new();
                let pred = |c: char| -> Option<(char, usize)> {
                    let hit = match kind {
                        0 => c == '"' || c == '\n',
                        1 => c == c0,
                        2 => !c.is_ascii(),
                        _ => c as u32 % 7 == 0,
                    };
                    if hit { Some((c, kind)) } else { None }
                };
                let mut want = None;
                for (i, c) in rest.char_indices() {
                    if let Some(x) = pred(c) {
                        want = Some((&rest[..i], x, i + c.len_utf8()));
                        break;
                    }
                }
                log.push_str(&format!("until {};", kind));
                let got = r.read_until(|c| {
                    calls.push(c);
                    pred(c)
                });
                match (&got, &want) {
                    (None, None) => cx.count("until_end", 1),
                    (Some((s, x)), Some((ws, wx, _))) if s.as_ref() == *ws && x == wx => cx.count("until_hit", 1),
                    _ => fail!("read_until gives {:?}, expected {:?}", got, want),
                }
                let used = want.map_or(rest.len(), |w| w.2);
                if calls != rest[..used].chars().collect::<Vec<_>>() {
                    fail!("read_until asked about {:?}, expected {:?}", calls, &rest[..used]);
                }
                off += used;
            }
        } else {
            let got = r.next();
            log.push_str("next;");
            if got != head {
                fail!("next gives {:?}, expected {:?}", got, head);
            }
            match head {
                Some(c) => off += c.len_utf8(),
                None => {
                    past_end += 1;
                    if past_end > 3 {
                        break;
                    }
                }
            }
        }
        if log.len() > 2000 {
            log.clear();
            log.push_str("...");
        }
    }
    Ok(())
}

fn text(rng: &mut Rng) -> String {
    if rng.chance(1, 2000) {
        // Many or long lines
        let unit = *rng.pick(&["a", "\n", "\t", "\r\n", "é", "ab\n", "😀"]);
        let n = gen::length(rng, 1 << 17);
        let end: String = (0..rng.below(6)).map(|_| *rng.pick(&['\t', '\n', 'a', 'é', '"'])).collect();
        return unit.repeat(n) + &end;
    }
    if cfg!(miri) {
        let t = ordinary(rng);
        return t.chars().take(120).collect();
    }
    ordinary(rng)
}

fn ordinary(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => {
            let st = Style::random(rng, true);
            doc_text(rng, &Default::default(), &st).0
        }
        1 => {
            let n = rng.small(40);
            (0..n).map(|_| *rng.pick(&['\t', '\n', '\r', 'a', 'é', '漢', '😀', '"', '\u{b}', '\u{85}', '\u{2028}', '\u{301}', ' '])).collect()
        }
        2 => gen::string(rng, true),
        _ => {
            let n = rng.small(60);
            (0..n).map(|_| gen::any_char(rng)).collect()
        }
    }
}
use vh::gen::{doc_text, Style};

fn readers(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let t = text(rng);
    cx.distinct_str(&t);
    cx.sample(|| show(&t));
    let mut run = |rng: &mut Rng, which: usize| -> Result<(), String> {
        match which {
            0 => ops(rng, cx, t.as_str(), &t, &Str::new(&t)),
            1 => {
                let k = rng.range(1, 4);
                let mut c = Chunked::new(t.as_bytes(), (0..k).map(|_| rng.range(1, 6)).collect());
                c.interrupt = *rng.pick(&[0, 0, 2, 3]);
                let r = Utf8Reader::new(c).map_err(|e| format!("reader: {}", e))?;
                ops(rng, cx, r, &t, &Lines::new(&t))
            }
            2 => {
                let r = Utf8Reader::new(std::io::BufReader::with_capacity(rng.range(1, 40), t.as_bytes())).map_err(|e| format!("reader: {}", e))?;
                ops(rng, cx, r, &t, &Lines::new(&t))
            }
            // A reader with only the required operations: the default bulk reads
            _ => ops(rng, cx, MonReader::new(&t), &t, &Offs),
        }
    };
    for which in 0..4 {
        quiet(|| run(rng, which)).map_err(|p| format!("panic {} in reader {} on {}", p, which, show(&t)))??;
    }
    Ok(())
}

/// `prefix` is the complement of a suffix, and positions of slices of one string compare globally.
fn prefixes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    cx.evals += 1;
    let t = text(rng);
    cx.distinct_str(&t);
    let cut = |rng: &mut Rng| {
        let mut n = rng.below(t.len() + 1);
        while !t.is_char_boundary(n) {
            n += 1;
        }
        n
    };
    let (i, j) = (cut(rng), cut(rng));
    let (i, j) = (i.min(j), i.max(j));
    let got = quiet(|| serdere::prefix(&t[i..], &t[j..])).map_err(|p| format!("panic {} in prefix of {} at {} and {}", p, show(&t), i, j))?;
    ensure!(got == &t[i..j], "prefix of {} between {} and {}: {}", show(&t), i, j, show(got));
    let (a, b) = ((&t[i..]).position(), (&t[j..]).position());
    ensure!(a.cmp(&b) == i.cmp(&j) && (a == b) == (i == j), "positions {} and {} of {} compare {:?}", i, j, show(&t), a.cmp(&b));
    let want = refjson::line_col(&t, j);
    let mut r = Utf8Reader::new(t.as_bytes()).map_err(|e| format!("reader: {}", e))?;
    for _ in t[..j].chars() {
        r.next();
    }
    let p = r.position();
    ensure!((p.line, p.column) == want, "{}: at offset {} the byte reader is at {:?}, expected {:?}", show(&t), j, p, want);
    cx.count("prefixes", 1);
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C24",
        level: "exploration",
        rule: "random sequences of peek, next, position, read_exact (matching and not) and read_until on random texts, on the string reader, the UTF-8 reader over split and interrupted sources and over BufReader, and a third-party reader with the default bulk operations (now and then with lines of more than 65536 characters, or as many lines), each step compared with the text and an offset; positions judged absolutely and pairwise; distinct by text",
        assumptions: &["columns are counted in characters, as the implementation documents"],
        phases: vec![
            Phase { name: "readers", quick: 500000, thorough: 0, f: readers },
            Phase { name: "prefixes", quick: 600000, thorough: 0, f: prefixes },
        ],
        floors: &[("ops", 100000), ("comparisons", 10000), ("exact_hit", 1000), ("exact_miss", 100), ("until_hit", 1000), ("until_end", 500), ("prefixes", 1000)],
        hang_cpu_s: 30,
    });
}
