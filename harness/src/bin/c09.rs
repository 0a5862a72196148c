//! C09: byte-stream input behaves exactly like string input.
use serdere::*;
use serdere_json::*;
use std::error::Error;
use vh::free::Free;
use vh::gen::*;
use vh::reader::{lc, str_offset, Chunked};
use vh::run::{quiet, show};
use vh::types::*;
use vh::*;

/// Everything a caller can see of an error, with its position as line and column.
fn describe<P: std::fmt::Debug + std::fmt::Display>(e: &DeserializeError<P>, pos: (usize, usize)) -> String {
    format!("{:?} | {} | source {:?} | at {:?}", e.message(), e.message(), e.source().map(|s| s.to_string()), pos)
}

fn str_pos(text: &str, p: &StrPosition) -> (usize, usize) {
    match str_offset(text, p) {
        Some(o) => {
            let p = lc(text, o);
            (p.line, p.column)
        }
        None => (usize::MAX, 0),
    }
}

fn source<'a>(rng: &mut Rng, text: &'a str) -> Chunked<'a> {
    let chunks = match rng.below(5) {
        0 => vec![1],
        1 => vec![],
        2 => vec![rng.range(1, 5)],
        _ => (0..rng.range(1, 6)).map(|_| if rng.chance(1, 6) { rng.range(1, 5000) } else { rng.range(1, 7) }).collect(),
    };
    let mut c = Chunked::new(text.as_bytes(), chunks);
    c.interrupt = *rng.pick(&[0, 0, 2, 3, 7]);
    c
}

type Log = (String, Result<(), String>);

/// One call sequence through both inputs.
fn free(rng: &mut Rng, cx: &mut Cx, text: &str) -> Result<(), String> {
    cx.evals += 1;
    let mut f = Free::new(rng.fork());
    f.keys = Free::keys_of(text);
    f.wrong = *rng.pick(&[0, 0, 5, 30]);
    f.skip = *rng.pick(&[0, 5, 30]);
    f.shuffle = if Free::repeated_keys(text) { 0 } else { *rng.pick(&[0, 60, 100]) };
    if rng.bool() {
        f.stop_at = rng.below(30) as u64;
    }
    let comments = rng.chance(1, 4);
    let start = f.rng.clone();
    let mut run = |r: &mut dyn FnMut(&mut Free) -> Result<(), String>| -> Result<Log, String> {
        f.rng = start.clone();
        f.calls = 0;
        f.log = Some(String::new());
        let out = quiet(|| r(&mut f)).map_err(|p| format!("panic {} on {}", p, show(text)))?;
        Ok((f.log.take().unwrap(), out))
    };
    let a = run(&mut |f| f.doc(text, comments).map_err(|e| describe(&e, str_pos(text, e.position()))))?;
    let src = source(rng, text);
    let split = format!("chunks {:?}, interrupted every {}", src.chunks, src.interrupt);
    let mut src = Some(src);
    let b = run(&mut |f| {
        let r = Utf8Reader::new(src.take().unwrap()).map_err(|e| format!("reader: {}", e))?;
        f.doc(r, comments).map_err(|e| describe(&e, (e.position().line, e.position().column)))
    })?;
    cx.count("events", a.0.matches(';').count() as u64);
    cx.count(if a.1.is_ok() { "ends_ok" } else { "ends_with_error" }, 1);
    ensure!(a == b, "{} ({}, comments {}):\n  from a string: {:?}\n  from bytes: {:?}", show(text), split, comments, a, b);
    Ok(())
}

fn valid(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[4, 20, 100]), ..Default::default() };
    let c = rng.chance(1, 3);
    let st = Style::random(rng, c);
    let (t, _) = doc_text(rng, &o, &st);
    cx.distinct_str(&t);
    cx.sample(|| show(&t));
    free(rng, cx, &t)?;
    free(rng, cx, &t)
}

fn broken(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let t = hostile(rng);
    cx.distinct_str(&t);
    free(rng, cx, &t)
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty
        + for<'a> Serialize<TextSerializer<&'a mut String>>
        + for<'s> Deserialize<TextDeserializer<&'s str>>
        + for<'s> Deserialize<TextDeserializer<Utf8Reader<Chunked<'s>>>>,
{
    let mut t = to_str(&T::gen(rng));
    for _ in 0..rng.below(3) {
        t = mutate(rng, &t);
    }
    if Free::repeated_keys(&t) {
        return Ok(());
    }
    cx.distinct_str(&t);
    let name = std::any::type_name::<T>();
    let run = || -> (String, String) {
        let a = match from_str::<T>(&t) {
            Ok(v) => format!("{:?}", v),
            Err(e) => describe(&e, str_pos(&t, e.position())),
        };
        let b = match Utf8Reader::new(source(rng, &t)) {
            Ok(r) => match from_reader::<_, T>(r) {
                Ok(v) => format!("{:?}", v),
                Err(e) => describe(&e, (e.position().line, e.position().column)),
            },
            Err(e) => format!("reader: {}", e),
        };
        (a, b)
    };
    let (a, b) = quiet(run).map_err(|p| format!("panic {} reading {} from {}", p, name, show(&t)))?;
    cx.count("typed", 1);
    ensure!(a == b, "{} read as {}:\n  from a string: {}\n  from bytes: {}", show(&t), name, show(&a), show(&b));
    Ok(())
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);
fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

/// Long strings and keys, with wide characters at every alignment.
fn long(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = *rng.pick(&mine::pools().sizes).min(&20000);
    let mut s = String::new();
    while s.len() < n {
        s.push(if rng.chance(1, 12) { any_char(rng) } else { 'x' });
    }
    let st = Style { ws: 0, comments: 0, escape: *rng.pick(&[0, 2, 50]) };
    let mut q = String::new();
    quote(rng, &s, &st, &mut q);
    if rng.chance(1, 5) {
        q = mutate(rng, &q);
    }
    let t = match rng.below(4) {
        0 => q,
        1 => format!("{{\"a\":{},\"b\":1}}", q),
        2 => format!("{{{}:1,\"b\":[]}}", q),
        _ => format!("[1,{},\n{}]", q, q),
    };
    cx.distinct_str(&t);
    cx.max("text_bytes", t.len() as u64);
    free(rng, cx, &t)
}

/// One large dimension: lengths, offsets, lines, columns, items, depth.
fn sizes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    run::on_stack(256 << 20, || {
        let (mut t, _) = big(rng, 1 << 17, 1 << 9);
        if rng.chance(2, 3) {
            t = mutate(rng, &t);
        }
        cx.distinct_str(&t);
        cx.max("text_bytes", t.len() as u64);
        cx.count("large", 1);
        free(rng, cx, &t)
    })?
}

/// Every way to split a text into two or three reads, with an interruption at every place.
fn splits(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: 6, ..Default::default() };
    let st = Style::random(rng, false);
    let (mut t, _) = doc_text(rng, &o, &st);
    if rng.bool() {
        t = mutate(rng, &t);
    }
    if t.len() > 80 || Free::repeated_keys(&t) {
        return Ok(());
    }
    cx.distinct_str(&t);
    let mut f = Free::new(rng.fork());
    f.keys = Free::keys_of(&t);
    let start = f.rng.clone();
    f.log = Some(String::new());
    let want = f.doc(t.as_str(), false).map_err(|e| describe(&e, str_pos(&t, e.position())));
    let want = (f.log.take(), want);
    for i in 0..=t.len() {
        for intr in [0usize, i + 1] {
            cx.evals += 1;
            cx.count("splits", 1);
            let mut src = Chunked::new(t.as_bytes(), vec![i.max(1), t.len() + 1]);
            src.interrupt = if intr == 1 { 2 } else { intr };
            f.rng = start.clone();
            f.log = Some(String::new());
            f.calls = 0;
            let got = quiet(|| match Utf8Reader::new(src) {
                Ok(r) => f.doc(r, false).map_err(|e| describe(&e, (e.position().line, e.position().column))),
                Err(e) => Err(format!("reader: {}", e)),
            })
            .map_err(|p| format!("panic {} on {}", p, show(&t)))?;
            let got = (f.log.take(), got);
            ensure!(got == want, "{} split after {} (interrupt {}):\n  from a string: {:?}\n  from bytes: {:?}", show(&t), i, intr, want, got);
        }
    }
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C09",
        level: "exploration",
        rule: "the same call sequence (events, values, error message, source and place logged) through a string and through byte sources with random and exhaustive splits and interruptions: valid, hostile and long texts, positions probed at random events, all types of the family on mutated texts; distinct by text",
        assumptions: &["the line and column of a string position are computed by the harness"],
        phases: vec![
            Phase { name: "valid", quick: 450000, thorough: 0, f: valid },
            Phase { name: "broken", quick: 900000, thorough: 0, f: broken },
            Phase { name: "types", quick: 1200000, thorough: 0, f: types },
            Phase { name: "long", quick: 3000, thorough: 0, f: long },
            Phase { name: "sizes", quick: 2000, thorough: 0, f: sizes },
            Phase { name: "splits", quick: 30000, thorough: 0, f: splits },
        ],
        floors: &[("events", 10000), ("ends_ok", 500), ("ends_with_error", 500), ("typed", 500), ("splits", 1000)],
        hang_cpu_s: 30,
    });
}
