//! C07: strings and keys are decoded character for character on every path.
use serdere::*;
use serdere_json::*;
use vh::gen::*;
use vh::place::{at, place, KINDS};
use vh::reader::{str_offset, Chunked, MonReader};
use vh::run::{quiet, show};
use vh::walk::{emsg, read_open_str, walk_doc, Walk, TD};
use vh::*;

type E<R> = DeserializeError<<R as TextReader>::Position>;

/// Spells one character in a random way.
fn spell_char(rng: &mut Rng, c: char, out: &mut String) {
    let must = (c as u32) < 0x20 || c == '"' || c == '\\';
    if !must && rng.chance(1, 3) {
        out.push(c);
        return;
    }
    let st = Style { ws: 0, comments: 0, escape: 100 };
    let mut s = String::new();
    quote(rng, c.encode_utf8(&mut [0; 4]), &st, &mut s);
    out.push_str(&s[1..s.len() - 1]);
}

fn spell(rng: &mut Rng, s: &str, raw: bool) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        let must = (c as u32) < 0x20 || c == '"' || c == '\\';
        if raw && !must && rng.chance(19, 20) {
            out.push(c);
        } else {
            spell_char(rng, c, &mut out);
        }
    }
    out.push('"');
    out
}

/// Reads the string at the top in way `how`; `Err(Ok)` is a mismatch.
fn read_value<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, how: usize, s: &str) -> Result<Result<(), String>, E<R>> {
    let same = |g: &str| if g == s { Ok(()) } else { Err(format!("read as {}", show(g))) };
    Ok(match how {
        0 => same(&d.read_str()?),
        1 => Value::with(d, |v| v.get_str().map(|g| same(&g)))?,
        2 => same(&Value::with(d, |v| v.get::<String>())?),
        3 => match Value::with(d, |v| v.get::<Option<String>>())? {
            Some(g) => same(&g),
            None => Err("read as absent".into()),
        },
        4 if s.chars().count() == 1 => {
            let c = if w.rng.bool() { d.get_char()? } else { Value::with(d, |v| v.get::<char>())? };
            same(c.encode_utf8(&mut [0; 4]))
        }
        _ => {
            d.open_str()?;
            read_open_str(w, d, s)
        }
    })
}

fn value_at<R: TextReader>(rng: &Rng, r: R, kind: usize, how: usize, s: &str) -> Result<(), String> {
    let yes = |_: &R::Position, _: usize| true;
    let mut w = Walk::new(rng.clone(), &yes);
    let mut res = Ok(());
    let mut refused = false;
    let run = |w: &mut Walk<R::Position>, res: &mut Result<(), String>, refused: &mut bool| -> Result<(), E<R>> {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r)?;
        *res = at(kind, &mut d, |d| {
            if how == 7 && !s.is_empty() {
                // Closed before its end
                let k = w.rng.below(s.chars().count());
                d.open_str()?;
                for c in s.chars().take(k) {
                    let got = d.next_char()?;
                    if got != Some(c) {
                        return Ok(Err(format!("character {:?} instead of {:?}", got, c)));
                    }
                }
                *refused = true;
                d.close_str()?;
                *refused = false;
                return Ok(Err(format!("closed as if it had ended after {} characters", k)));
            }
            read_value(w, d, how, s)
        })?;
        d.close()
    };
    let out = run(&mut w, &mut res, &mut refused);
    res?;
    if refused && out.is_err() {
        return Ok(());
    }
    out.map_err(|e| emsg(&e))
}

fn with_reader(rng: &mut Rng, text: &str, f: &mut dyn FnMut(usize, &str, Vec<usize>) -> Result<(), String>) -> Result<(), String> {
    let which = rng.below(4);
    let chunks = (0..rng.range(1, 3)).map(|_| rng.range(1, 9)).collect();
    f(which, text, chunks)
}

fn value(rng: &mut Rng, cx: &mut Cx, s: &str, lit: &str) -> Result<(), String> {
    cx.evals += 1;
    let kind = rng.below(KINDS);
    let p = place(rng, kind, lit);
    let how = rng.below(8);
    if how == 7 {
        cx.count("closed_early", 1);
    }
    let r2 = rng.fork();
    let r = quiet(|| {
        with_reader(rng, &p.text, &mut |which, t, chunks| match which {
            0 => value_at(&r2, MonReader::new(t), kind, how, s),
            1 => value_at(&r2, Utf8Reader::new(Chunked::new(t.as_bytes(), chunks)).unwrap(), kind, how, s),
            _ => value_at(&r2, t, kind, how, s),
        })
    });
    cx.count(if p.buffered { "values_buffered" } else { "values_streamed" }, 1);
    match r {
        Ok(Ok(())) => Ok(()),
        other => Err(format!("{} as a value: {:?} (place {}, way {}, text {})", show(s), other, kind, how, show(&p.text))),
    }
}

/// Looks at the key `s` (spelled in `text`, whose entry has value 7) in way `how`.
fn key_doc<R: TextReader>(w: &mut Walk<R::Position>, r: R, how: usize, s: &str, near: &[String]) -> Result<Result<(), String>, E<R>> {
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r)?;
    let seven = |d: &mut TD<R>| -> Result<Result<(), String>, E<R>> {
        let v = d.get_u8()?;
        Ok(if v == 7 { Ok(()) } else { Err(format!("wrong value {}", v)) })
    };
    macro_rules! t {
        ($e:expr) => {
            if let Err(e) = $e {
                return Ok(Err(e));
            }
        };
    }
    d.open_object()?;
    let nested = how & 1 != 0;
    let buffered = how & 2 != 0;
    if buffered {
        d.push_entry("~last")?;
        if w.rng.bool() {
            d.skip_value()?;
        } else {
            t!(seven(&mut d)?);
        }
    }
    if nested {
        d.push_entry("~in")?;
        d.open_object()?;
    }
    let mode = how >> 2;
    if w.rng.chance(1, 3) || mode == 4 {
        for n in near {
            if d.try_push_entry(n)? {
                return Ok(Err(format!("found by the different name {}", show(n))));
            }
        }
    }
    match mode {
        0 => {
            if !d.next_entry()? {
                return Ok(Err("no entry".into()));
            }
            t!(read_open_str(w, &mut d, s));
            t!(seven(&mut d)?);
        }
        1 | 4 => {
            if !d.try_push_entry(s)? {
                return Ok(Err("not found by its name".into()));
            }
            t!(seven(&mut d)?);
        }
        2 => {
            d.push_field(walk::intern(s))?;
            t!(seven(&mut d)?);
        }
        _ => {
            if !d.next_entry()? {
                return Ok(Err("no entry".into()));
            }
            let k = d.flush_str()?.into_owned();
            if k != s {
                return Ok(Err(format!("key read as {}", show(&k))));
            }
            t!(seven(&mut d)?);
        }
    }
    if nested {
        d.close_object()?;
    }
    d.close_struct()?;
    d.close()?;
    Ok(Ok(()))
}

fn key_(rng: &mut Rng, cx: &mut Cx, s: &str, lit: &str) -> Result<(), String> {
    if s == "~last" || s == "~in" {
        return Ok(());
    }
    cx.evals += 1;
    let how = rng.below(20);
    let mut near: Vec<String> = vec![format!("{}a", s), lit[1..lit.len() - 1].to_string()];
    let mut sh: Vec<char> = s.chars().collect();
    sh.pop();
    near.push(sh.iter().collect());
    sh.insert(0, 'a');
    near.push(sh.iter().collect());
    if let Some(c) = s.chars().last() {
        let mut t: Vec<char> = s.chars().collect();
        t.pop();
        t.push(char::from_u32(c as u32 ^ 1).unwrap_or('a'));
        near.push(t.iter().collect());
        t.pop();
        t.push(char::from_u32(c as u32 ^ 0x100).unwrap_or('b'));
        near.push(t.iter().collect());
    }
    near.retain(|n| n != s && n != "~last" && n != "~in");
    let inner = format!("{}:{}7{}", lit, rng.pick(&["", " "]), rng.pick(&["", " ", "\n"]));
    let text = match how & 3 {
        0 => format!("{{{}}}", inner),
        1 => format!("{{\"~in\":{{{}}}}}", inner),
        2 => format!("{{{},\"~last\":7}}", inner),
        _ => format!("{{\"~in\":{{{}}},\"~last\":7}}", inner),
    };
    let r2 = rng.fork();
    let r = quiet(|| {
        fn go<R: TextReader>(rng: &Rng, r: R, how: usize, s: &str, near: &[String]) -> Result<(), String> {
            let yes = |_: &R::Position, _: usize| true;
            let mut w = Walk::new(rng.clone(), &yes);
            match key_doc(&mut w, r, how, s, near) {
                Ok(r) => r,
                Err(e) => Err(emsg(&e)),
            }
        }
        with_reader(rng, &text, &mut |which, t, chunks| match which {
            0 => go(&r2, MonReader::new(t), how, s, &near),
            1 => go(&r2, Utf8Reader::new(Chunked::new(t.as_bytes(), chunks)).unwrap(), how, s, &near),
            _ => go(&r2, t, how, s, &near),
        })
    });
    cx.count(if how & 2 != 0 { "keys_buffered" } else { "keys_streamed" }, 1);
    match r {
        Ok(Ok(())) => Ok(()),
        other => Err(format!("{} as a key: {:?} (way {}, text {})", show(s), other, how, show(&text))),
    }
}

/// Every Unicode scalar value.
fn scalars(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    for i in 0..64 {
        let Some(c) = char::from_u32(((idx * 64 + i) % 0x110000) as u32) else { continue };
        let mut s = String::new();
        if rng.bool() {
            s.push(any_char(rng));
        }
        s.push(c);
        if rng.chance(1, 3) {
            s.push(any_char(rng));
        }
        let mut lit = String::from("\"");
        for c in s.chars() {
            spell_char(rng, c, &mut lit);
        }
        lit.push('"');
        value(rng, cx, &s, &lit)?;
        key_(rng, cx, &s, &lit)?;
        cx.distinct(c as u64);
    }
    Ok(())
}

/// Strings of many lengths and compositions.
fn strings(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let s = match rng.below(4) {
        0 => {
            // a boundary length in bytes, with wide characters at shifting places
            let n = if rng.chance(1, 100) { gen::length(rng, 1 << 17) } else { (*rng.pick(&mine::pools().sizes)).min(9000) + rng.below(5) };
            let mut s = String::new();
            while s.len() < n {
                s.push(if rng.chance(1, 30) { any_char(rng) } else { 'x' });
            }
            s
        }
        1 => {
            let c = any_char(rng);
            let n = rng.below(300);
            (0..n).map(|_| c).collect()
        }
        _ => string(rng, true),
    };
    let raw = rng.bool();
    let lit = spell(rng, &s, raw);
    cx.distinct_str(&lit);
    cx.sample(|| lit.clone());
    cx.max("string_bytes", s.len() as u64);
    value(rng, cx, &s, &lit)?;
    value(rng, cx, &s, &lit)?;
    key_(rng, cx, &s, &lit)
}

/// Every UTF-16 code unit as an escape, alone and in pairs: only proper pairs make a string.
fn units(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let hex = |rng: &mut Rng, u: u16| -> String { format!("\\u{:04x}", u).chars().map(|c| if c != 'u' && rng.bool() { c.to_ascii_uppercase() } else { c }).collect() };
    for i in 0..16u64 {
        let u = (idx * 16 + i) as u16;
        let second: Option<u16> = match rng.below(4) {
            0 => None,
            1 => Some(rng.range(0xdc00, 0xdfff) as u16),
            2 => Some(*rng.pick(&[0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0x41, 0, 0x10])),
            _ => Some(rng.u64() as u16),
        };
        let units: Vec<u16> = std::iter::once(u).chain(second).collect();
        let mut lit = String::from("\"");
        for u in &units {
            lit.push_str(&hex(rng, *u));
        }
        lit.push('"');
        cx.distinct_str(&lit);
        match String::from_utf16(&units) {
            Ok(s) => {
                cx.count("unit_sequences_valid", 1);
                value(rng, cx, &s, &lit)?;
                key_(rng, cx, &s, &lit)?;
            }
            Err(_) => {
                cx.count("unit_sequences_invalid", 1);
                cx.evals += 1;
                let kind = rng.below(KINDS);
                let p = place(rng, kind, &lit);
                let how = rng.below(3);
                let r = quiet(|| -> Result<String, String> {
                    let run = || -> Result<String, DeserializeError<StrPosition>> {
                        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), p.text.as_str())?;
                        let v = at(kind, &mut d, |d| match how {
                            0 => Ok(d.read_str()?.into_owned()),
                            1 => {
                                d.open_str()?;
                                let mut s = String::new();
                                while let Some(c) = d.next_char()? {
                                    s.push(c);
                                }
                                Ok(s)
                            }
                            _ => Value::with(d, |v| v.get::<String>()),
                        })?;
                        d.close()?;
                        Ok(v)
                    };
                    run().map_err(|e| emsg(&e))
                });
                match r {
                    Ok(Err(_)) => (),
                    other => return Err(format!("{} (place {}) gives {:?}", lit, kind, other)),
                }
            }
        }
    }
    Ok(())
}

fn walk_any(rng: &mut Rng, text: &str, tree: &JNode) -> Result<(), String> {
    let seed = rng.fork();
    with_reader(rng, text, &mut |which, t, chunks| match which {
        0 => {
            let f = |p: &usize, o: usize| *p == o;
            let mut w = Walk::new(seed.clone(), &f);
            walk_doc(&mut w, MonReader::new(t), false, tree)
        }
        1 => {
            let f = |p: &LineColumnPosition, o: usize| *p == reader::lc(t, o);
            let mut w = Walk::new(seed.clone(), &f);
            walk_doc(&mut w, Utf8Reader::new(Chunked::new(t.as_bytes(), chunks)).unwrap(), false, tree)
        }
        _ => {
            let f = |p: &StrPosition, o: usize| str_offset(t, p) == Some(o);
            let mut w = Walk::new(seed.clone(), &f);
            walk_doc(&mut w, t, false, tree)
        }
    })
}

/// A document made of strings.
fn node(rng: &mut Rng, depth: usize) -> V {
    if depth < 4 && rng.chance(if depth == 0 { 9 } else { 3 }, 10) {
        let n = rng.below(6);
        if rng.chance(2, 3) {
            let mut es: Vec<(String, V)> = vec![];
            for _ in 0..n {
                let k = if rng.bool() { gen::key(rng) } else { string(rng, false) };
                if es.iter().all(|e| e.0 != k) {
                    es.push((k, node(rng, depth + 1)));
                }
            }
            V::Obj(es)
        } else {
            V::Arr((0..n).map(|_| node(rng, depth + 1)).collect())
        }
    } else {
        V::Str(string(rng, true))
    }
}

fn walked(rng: &mut Rng, v: &V, cx: &mut Cx) -> Result<(), String> {
    let mut st = Style::random(rng, false);
    if rng.bool() {
        st.escape = 60;
    }
    let text = render(rng, v, &st);
    let tree = match refjson::parse(&text, false) {
        Ok(t) if matches(v, &t) => t,
        _ => run::harness_error(&format!("reference parser misreads {:?}", text)),
    };
    cx.distinct_str(&text);
    for _ in 0..2 {
        cx.evals += 1;
        cx.count("document_walks", 1);
        match quiet(|| walk_any(rng, &text, &tree)) {
            Ok(Ok(())) => (),
            other => return Err(format!("walk over {}: {:?}", show(&text), other)),
        }
    }
    Ok(())
}

/// Whole documents made of strings, read in scripted random orders.
fn docs(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let v = node(rng, 0);
    walked(rng, &v, cx)
}

/// Documents in which one string or key is very long.
fn sizes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    fn all<'a>(v: &'a mut V, out: &mut Vec<&'a mut String>) {
        match v {
            V::Str(s) => out.push(s),
            V::Arr(xs) => xs.iter_mut().for_each(|x| all(x, out)),
            V::Obj(es) => {
                for (k, x) in es {
                    out.push(k);
                    all(x, out);
                }
            }
            _ => (),
        }
    }
    let mut v = node(rng, 0);
    let mut strs = vec![];
    all(&mut v, &mut strs);
    if strs.is_empty() {
        return Ok(());
    }
    let i = rng.below(strs.len());
    let n = gen::length(rng, 1 << 17);
    // In bytes
    let mut s: String = if rng.bool() { "k".repeat(n) } else { gen::long_text(rng, n) };
    let mut cut = s.len().min(n);
    while !s.is_char_boundary(cut) {
        cut -= 1;
    }
    s.truncate(cut);
    if !strs.iter().any(|t| **t == s) {
        cx.max("string_bytes", s.len() as u64);
        *strs[i] = s;
    }
    cx.count("long_strings", 1);
    walked(rng, &v, cx)
}

fn main() {
    run::main(Check {
        id: "C07",
        level: "exploration",
        rule: "every Unicode scalar value and every UTF-16 escape unit as value and key, strings of boundary lengths, string documents in random access orders, also with a string or key of up to 131072 bytes; read at random places (streamed, buffered, nested), in eight ways, partially and wholly (closing one before its end must be refused), through three readers; distinct by scalar, literal or document",
        assumptions: &["the generator knows the characters it spelled"],
        phases: vec![
            Phase { name: "scalars", quick: 0x110000 / 64, thorough: 0x110000 / 64 * 20, f: scalars },
            Phase { name: "strings", quick: 360000, thorough: 0, f: strings },
            Phase { name: "units", quick: 4096 * 2, thorough: 4096 * 40, f: units },
            Phase { name: "sizes", quick: 4000, thorough: 0, f: sizes },
            Phase { name: "docs", quick: 240000, thorough: 0, f: docs },
        ],
        floors: &[("values_buffered", 500), ("values_streamed", 500), ("keys_buffered", 500), ("keys_streamed", 500), ("unit_sequences_invalid", 50), ("document_walks", 200)],
        hang_cpu_s: 20,
    });
}
