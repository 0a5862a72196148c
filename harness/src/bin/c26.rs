//! C26: enum tags resolve to the one variant they name, by name or by index.
use serdere::deserialize::{InvalidIndexError, InvalidNameError};
use serdere::*;
use serdere_json::*;
use std::collections::BTreeMap;
use std::error::Error;
use vh::gen::*;
use vh::num::{int_verdict, lit, IntVerdict};
use vh::place::{at, place, KINDS};
use vh::reader::{Chunked, MonReader};
use vh::run::{quiet, show};
use vh::types::*;
use vh::walk::{intern, TD};
use vh::*;

type Map = &'static NameMap<usize>;

/// A pool of tables, made once per process.
fn tables() -> &'static Vec<(Map, BTreeMap<&'static str, usize>)> {
    static T: std::sync::OnceLock<Vec<(Map, BTreeMap<&'static str, usize>)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut rng = Rng::new(0x7ab1e5);
        let mut out = Vec::new();
        macro_rules! make {
            ($($n:literal)*) => { $( for _ in 0..12 {
                let mut e: Vec<(&'static str, usize)> = Vec::new();
                while e.len() < $n {
                    let s = match rng.below(5) {
                        0 => gen::key(&mut rng),
                        1 => (0..rng.below(5)).map(|_| *rng.pick(&['a', 'b'])).collect(),
                        2 if !e.is_empty() => format!("{}{}", rng.pick(&e).0, rng.pick(&["x", "\0", "é", "\"", "\\", "1"])),
                        3 => rng.pick(&["", "0", "1", "null", "true", "A\nB", "\u{1f}", "漢字", "😀", "\u{7f}\u{80}"]).to_string(),
                        _ => gen::string(&mut rng, false),
                    };
                    let s = intern(&s);
                    if e.iter().all(|x| x.0 != s) {
                        let i = match rng.below(4) { 0 => rng.below(4), 1 => rng.u64() as usize, _ => e.len() };
                        e.push((s, i));
                    }
                }
                let arr: [(&'static str, usize); $n] = e.clone().try_into().unwrap();
                let m: &'static FixedNameMap<usize, $n> = Box::leak(Box::new(FixedNameMap::new(arr)));
                out.push((m.unfix(), e.into_iter().collect()));
            } )* };
        }
        make!(0 1 2 3 4 5 7 12 20);
        out
    })
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Want {
    Index(usize),
    /// Either this or an error.
    Maybe(usize),
    BadName,
    BadIndex(Option<usize>),
    Refuse,
}

fn verdict(n: &JNode, max: usize, names: &BTreeMap<&str, usize>, only_name: bool) -> Want {
    match &n.kind {
        JKind::Str(s) => names.get(s.as_str()).map_or(Want::BadName, |i| Want::Index(*i)),
        JKind::Num(_) if only_name => Want::Refuse,
        JKind::Num(s) => match int_verdict(&lit(s), 0, u64::MAX as u128) {
            IntVerdict::Must(_, v) if v <= max as u128 => Want::Index(v as usize),
            IntVerdict::Must(_, v) => Want::BadIndex(Some(v as usize)),
            IntVerdict::May(_, v) if v <= max as u128 => Want::Maybe(v as usize),
            _ => Want::Refuse,
        },
        _ => Want::Refuse,
    }
}

fn judge<P: std::fmt::Debug + std::fmt::Display>(cx: &mut Cx, what: &dyn Fn() -> String, want: Want, names: Map, got: Result<usize, DeserializeError<P>>) -> Result<(), String> {
    cx.evals += 1;
    match (&got, want) {
        (Ok(i), Want::Index(w)) | (Ok(i), Want::Maybe(w)) if *i == w => cx.count("resolved", 1),
        (Err(_), Want::Maybe(_)) => cx.count("maybe_refused", 1),
        (Err(e), Want::BadName) => {
            let src = e.source().and_then(|s| s.downcast_ref::<InvalidNameError>());
            ensure!(matches!(src, Some(s) if std::ptr::eq(s.expected, names)), "{}: error {:?} instead of an invalid name", what(), e.message());
            let shown = e.message().to_string();
            for (n, _) in names.entries() {
                ensure!(shown.contains(&format!("{:?}", n)), "{}: message {:?} does not list {:?}", what(), shown, n);
            }
            cx.count("bad_name", 1);
        }
        (Err(e), Want::BadIndex(Some(w))) => {
            let src = e.source().and_then(|s| s.downcast_ref::<InvalidIndexError>());
            ensure!(matches!(src, Some(s) if s.index == w), "{}: error {:?} instead of invalid index {}", what(), e.message(), w);
            cx.count("bad_index", 1);
        }
        (Err(_), Want::Refuse | Want::BadIndex(None)) => cx.count("refused", 1),
        (Ok(i), _) => return Err(format!("{}: resolved to {}, expected {:?}", what(), i, want)),
        (Err(e), _) => return Err(format!("{}: error {:?} ({}), expected {:?}", what(), e.message(), e.message(), want)),
    }
    Ok(())
}

fn random_value(rng: &mut Rng, names: &BTreeMap<&str, usize>, max: usize) -> String {
    let mut out = String::new();
    match rng.below(12) {
        0..=4 => {
            let ks: Vec<&str> = names.keys().copied().collect();
            let mut s: String = if ks.is_empty() || rng.chance(1, 6) { gen::string(rng, false) } else { rng.pick(&ks).to_string() };
            if rng.chance(1, 3) {
                let n = s.chars().count();
                s = match rng.below(4) {
                    0 => s.chars().take(n.saturating_sub(1)).collect(),
                    1 => s + rng.pick(&["x", "\0", " ", "é"]),
                    2 => s.to_uppercase(),
                    _ => s.chars().skip(1).collect(),
                };
            }
            let st = Style { ws: 0, comments: 0, escape: *rng.pick(&[0, 30, 100]) };
            quote(rng, &s, &st, &mut out);
        }
        5 | 6 => {
            let vs: Vec<usize> = names.values().copied().collect();
            let i = if vs.is_empty() { 0 } else { *rng.pick(&vs) };
            out = i.to_string();
        }
        7 | 8 => {
            let i = match rng.below(6) {
                0 => 0,
                1 => max as u128,
                2 => max as u128 + 1,
                3 => max.saturating_sub(1) as u128,
                4 => u64::MAX as u128 + rng.below(3) as u128,
                _ => rng.u64() as u128 >> rng.below(64),
            };
            out = i.to_string();
            if rng.chance(1, 4) {
                out.push_str(rng.pick(&[".0", "e0", ".5", "e1", "E-1", "e+2", "e400", "e99999999999999999999"]));
            }
            if rng.chance(1, 8) {
                out.insert(0, '-');
            }
        }
        9 => out = gen::number(rng),
        _ => out = rng.pick(&["true", "false", "null", "[]", "{}", "[0]", "{\"a\":0}", "[\"a\"]", "-0", "0", "\"0\""]).to_string(),
    }
    out
}

fn tags(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let (names, model) = rng.pick(tables());
    let names: Map = names;
    let max = match rng.below(4) {
        0 => *rng.pick(&[0, 1, 2, 255, 256, 65535, u32::MAX as usize, usize::MAX, usize::MAX - 1]),
        1 => rng.below(30),
        _ => model.values().copied().max().unwrap_or(0),
    };
    let v = random_value(rng, model, max);
    let tree = refjson::parse(&v, false).map_err(|e| format!("generator: {} {:?}", v, e))?;
    let kind = rng.below(KINDS);
    let p = place(rng, kind, &v);
    cx.distinct_str(&format!("{} {} {}", p.text, kind, max));
    cx.sample(|| format!("{} as a tag up to {} in {:?}", show(&p.text), max, model));
    // get_tag, and the by-name-only operations, directly and through the wrapper
    let op = rng.below(4);
    let want = verdict(&tree, max, model, op >= 2);
    fn call<R: TextReader>(d: &mut TD<R>, op: usize, max: usize, names: Map, pre: usize) -> Result<usize, DeserializeError<R::Position>> {
        match op {
            0 => d.get_tag(max, names),
            1 => Value::with(d, |v| v.get_tag(max, names)),
            2 => d.get_name(names),
            _ => {
                let _ = pre;
                d.open_str()?;
                d.flush_name(names)
            }
        }
    }
    let cfg = TextDeserializerConfig::strict;
    let which = rng.below(3);
    let what = || format!("{} (op {}, max {}, reader {}) with {:?}", show(&p.text), op, max, which, model);
    macro_rules! go {
        ($r:expr) => {{
            let mut run = || -> Result<usize, DeserializeError<_>> {
                let mut d = TextDeserializer::new(cfg(), $r)?;
                let i = at(kind, &mut d, |d| call(d, op, max, names, 0))?;
                d.close()?;
                Ok(i)
            };
            let got = quiet(&mut run).map_err(|e| format!("panic {}: {}", e, what()))?;
            judge(cx, &what, want, names, got)?
        }};
    }
    match which {
        0 => go!(p.text.as_str()),
        1 => go!(MonReader::new(&p.text)),
        _ => {
            let chunks = vec![rng.range(1, 4), rng.range(1, 9)];
            go!(Utf8Reader::new(Chunked::new(p.text.as_bytes(), chunks.clone())).unwrap())
        }
    }
    Ok(())
}

/// Part of the string is read before the rest is looked up.
fn rests(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let (names, model) = rng.pick(tables());
    let names: Map = names;
    let ks: Vec<&str> = model.keys().copied().collect();
    let s = if ks.is_empty() || rng.chance(1, 4) { gen::string(rng, false) } else { rng.pick(&ks).to_string() };
    let lead: String = (0..rng.below(4)).map(|_| gen::any_char(rng)).collect();
    let mut v = String::new();
    let st = Style { ws: 0, comments: 0, escape: *rng.pick(&[0, 30, 100]) };
    quote(rng, &format!("{}{}", lead, s), &st, &mut v);
    let kind = rng.below(KINDS);
    let p = place(rng, kind, &v);
    cx.distinct_str(&p.text);
    let want = model.get(s.as_str()).map_or(Want::BadName, |i| Want::Index(*i));
    let what = || format!("{} after reading {:?}, with {:?}", show(&p.text), lead, model);
    let mut run = || -> Result<usize, DeserializeError<StrPosition>> {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), p.text.as_str())?;
        let i = at(kind, &mut d, |d| {
            d.open_str()?;
            for c in lead.chars() {
                assert_eq!(d.next_char()?, Some(c));
            }
            d.flush_name(names)
        })?;
        d.close()?;
        Ok(i)
    };
    let got = quiet(&mut run).map_err(|e| format!("panic {}: {}", e, what()))?;
    cx.count("rests", 1);
    judge(cx, &what, want, names, got)
}

/// Writing tags, and reading them back.
fn written(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    cx.evals += 1;
    let (names, model) = rng.pick(tables());
    let names: Map = names;
    let max = *rng.pick(&[0, 1, 255, 256, 65535, u32::MAX as usize, usize::MAX]);
    let named = !model.is_empty() && rng.bool();
    let (index, name) = if named {
        let ks: Vec<(&&'static str, &usize)> = model.iter().collect();
        let (n, i) = rng.pick(&ks);
        (**i, Some(**n))
    } else {
        ((rng.u64() as usize >> rng.below(64)).min(max), None)
    };
    let mut out = String::new();
    let mut s = TextSerializer::new(TextSerializerConfig { indent: *rng.pick(&[None, Some(" ")]) }, &mut out);
    let raw = rng.bool();
    if raw {
        s.put_tag(max.max(index), index, name).unwrap();
    } else {
        Value::with(&mut s, |v| v.put_tag(max.max(index), index, name)).unwrap();
    }
    s.close();
    let tree = refjson::parse(&out, false).map_err(|e| format!("tag {:?} {:?} written as {}: {:?}", index, name, show(&out), e))?;
    match (&tree.kind, name) {
        (JKind::Str(s), Some(n)) if s == n => (),
        (JKind::Num(s), None) if *s == index.to_string() => (),
        _ => return Err(format!("tag {} {:?} written as {}", index, name, show(&out))),
    }
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), out.as_str()).unwrap();
    let got = d.get_tag(max.max(index), names).map_err(|e| e.to_string());
    ensure!(got == Ok(index), "tag {} {:?} written as {} and read as {:?}", index, name, show(&out), got);
    cx.distinct_str(&out);
    cx.count("written", 1);
    Ok(())
}

/// The derived enums, against the assigned names and indices.
fn derived(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    fn go<T: Ty + Copy + for<'s> Deserialize<TextDeserializer<&'s str>>>(rng: &mut Rng, cx: &mut Cx, all: &[T]) -> Result<(), String> {
        cx.evals += 1;
        let table: Vec<(String, usize, T)> = all
            .iter()
            .map(|v| match v.model() {
                M::Tag(n, i) => (n, i, *v),
                m => run::harness_error(&format!("not a tag: {:?}", m)),
            })
            .collect();
        let model: BTreeMap<&str, usize> = table.iter().map(|x| (x.0.as_str(), x.1)).collect();
        let max = table.iter().map(|x| x.1).max().unwrap();
        let v = random_value(rng, &model, max);
        let tree = refjson::parse(&v, false).map_err(|e| format!("generator: {} {:?}", v, e))?;
        let mut want = verdict(&tree, max, &model, false);
        // An index that no variant has
        if let Want::Index(i) | Want::Maybe(i) = want {
            if !table.iter().any(|x| x.1 == i) {
                want = Want::BadIndex(Some(i));
            }
        }
        let got = quiet(|| from_str::<T>(&v)).map_err(|p| format!("panic {} on {}", p, show(&v)))?;
        match (&got, want) {
            (Ok(x), Want::Index(i)) | (Ok(x), Want::Maybe(i)) => {
                let w = table.iter().find(|t| t.1 == i).unwrap();
                ensure!(same(x, &w.2), "{} read as {:?}, expected {:?}", show(&v), x, w.2);
                cx.count("variants", 1);
            }
            (Err(_), Want::Maybe(_)) => (),
            (Err(e), Want::BadIndex(Some(i))) => {
                let simple = matches!(&tree.kind, JKind::Num(s) if lit(s).plain);
                let src = e.source().and_then(|s| s.downcast_ref::<InvalidIndexError>());
                ensure!(!simple || matches!(src, Some(s) if s.index == i), "{}: error {:?} instead of invalid index {}", show(&v), e.message(), i);
                cx.count("no_variant", 1);
            }
            (Err(_), Want::BadName | Want::Refuse | Want::BadIndex(None)) => cx.count("no_variant", 1),
            _ => return Err(format!("{} read as {:?}, expected {:?}", show(&v), got.map_err(|e| e.to_string()), want)),
        }
        cx.distinct_str(&v);
        Ok(())
    }
    if rng.chance(1, 60) {
        static ALL: std::sync::OnceLock<Vec<vh::types3::Huge>> = std::sync::OnceLock::new();
        go(rng, cx, ALL.get_or_init(|| vh::types3::HUGE.iter().map(|x| x.0).collect()))
    } else if rng.bool() {
        use Color::*;
        go(rng, cx, &[Red, Green, Blue, Re, Redd, Nothing, Kanji])
    } else {
        use Idx::*;
        go(rng, cx, &[A, B, C, D, E, F, G, H])
    }
}

fn main() {
    run::main(Check {
        id: "C26",
        level: "exploration",
        rule: "108 name tables (prefixes, escapes, wide characters, numbers as names; arbitrary indices) and every kind of value (names and near-names with random escapes, assigned and unassigned indices, boundary and non-integer numbers, other types) as a tag, in 16 placements (streamed and buffered), directly, through Value, by name only and after part of the string was read; tags written and read back; derived enums against their assigned names and indices; distinct by text",
        assumptions: &["usize has 64 bits"],
        phases: vec![
            Phase { name: "tags", quick: 8000000, thorough: 0, f: tags },
            Phase { name: "rests", quick: 1500000, thorough: 0, f: rests },
            Phase { name: "written", quick: 2000000, thorough: 0, f: written },
            Phase { name: "derived", quick: 4000000, thorough: 0, f: derived },
        ],
        floors: &[("resolved", 5000), ("bad_name", 1000), ("bad_index", 500), ("refused", 500), ("rests", 1000), ("written", 1000), ("variants", 1000), ("no_variant", 1000)],
        hang_cpu_s: 30,
    });
}
