//! C03: accepted language against the reference parser.
use serdere::*;
use serdere_json::*;
use vh::free::Free;
use vh::gen::{doc_text, mutate, DocOpts, Style};
use vh::reader::{Chunked, MonReader};
use vh::run::{quiet, show};
use vh::types::*;
use vh::walk::{emsg, walk_doc, Walk};
use vh::*;

/// Consumes the text by several strategies and compares the outcome with the reference verdict.
fn judge(rng: &mut Rng, cx: &mut Cx, text: &str, rounds: usize) -> Result<(), String> {
    let want = refjson::parse(text, false);
    let modelled = want.as_ref().map(|t| !t.ambiguous()).unwrap_or(false);
    cx.count(if want.is_ok() { "valid_texts" } else { "invalid_texts" }, 1);
    cx.distinct_str(text);
    for round in 0..rounds {
        cx.evals += 1;
        let kind = if round == 0 { 0 } else { rng.range(1, if modelled { 3 } else { 2 }) };
        if let (Ok(tree), 3) = (&want, kind) {
            // Values seen are those denoted
            let at = |_: &StrPosition, _: usize| true;
            let mut w = Walk::new(rng.fork(), &at);
            w.probe = false;
            cx.count("model_walks", 1);
            walk_doc(&mut w, text, false, tree).map_err(|e| format!("{}\n  valid document: {}\n  walk {}", e, show(text), w.trace))?;
            continue;
        }
        let mut f = Free::new(rng.fork());
        f.keys = Free::keys_of(text);
        f.log = Some(String::new());
        f.max_depth = 5000;
        match kind {
            0 => f.skip = 100,
            1 => {
                f.skip = 0;
                f.shuffle = 0
            }
            _ => f.skip = *rng.pick(&[0, 10, 40]),
        }
        let r = match rng.below(4) {
            0 => f.doc(MonReader::new(text), false).map_err(|e| emsg(&e)),
            1 => {
                let src = Chunked::new(text.as_bytes(), vec![rng.range(1, 5)]);
                f.doc(Utf8Reader::new(src).unwrap(), false).map_err(|e| emsg(&e))
            }
            _ => f.doc(text, false).map_err(|e| emsg(&e)),
        };
        cx.count("free_walks", 1);
        let log = || -> String { f.log.clone().unwrap_or_default().chars().take(2000).collect() };
        match (&want, r) {
            (Ok(_), Ok(())) | (Err(_), Err(_)) => (),
            (Ok(_), Err(e)) => return Err(format!("valid document is rejected with {}: {}\n  calls: {}", e, show(text), log())),
            (Err(e), Ok(())) => {
                return Err(format!("invalid document (at byte {}) is accepted: {}\n  calls: {}", e.viable, show(text), log()))
            }
        }
    }
    Ok(())
}

fn valid(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[3, 10, 40, 150]), dup_keys: *rng.pick(&[0, 0, 20]), objecty: rng.bool(), ..Default::default() };
    let st = Style::random(rng, false);
    let (text, _) = doc_text(rng, &o, &st);
    cx.sample(|| show(&text));
    judge(rng, cx, &text, 3)
}

fn mutated(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[2, 6, 25]), dup_keys: *rng.pick(&[0, 0, 20]), objecty: rng.bool(), ..Default::default() };
    let st = Style::random(rng, false);
    let (text, _) = doc_text(rng, &o, &st);
    for _ in 0..3 {
        let t = mutate(rng, &text);
        cx.sample(|| show(&t));
        judge(rng, cx, &t, 3)?;
    }
    Ok(())
}

/// Every prefix of a document.
fn truncated(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[2, 6, 15]), dup_keys: *rng.pick(&[0, 20]), objecty: rng.bool(), ..Default::default() };
    let st = Style::random(rng, false);
    let (text, _) = doc_text(rng, &o, &st);
    let cuts: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
    let step = (cuts.len() / 200).max(1);
    for c in cuts.into_iter().step_by(step) {
        judge(rng, cx, &text[..c], 2)?;
    }
    Ok(())
}

const TOK: &[&str] = &[
    "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "null", "true", "false", "-", "-0", "1.5", "1e5", "\"", " ", "0", "\\", "{}", "[]",
    "\"a\":1", "\"a\":{}", "01", "1.", ".1", "1e", "tru", "/", "//\n", "/**/", "\n", "\"\\u00e9\"", "\"\\ud83d\"", "\"\\ud83d\\ude00\"", "é",
];

/// Sequences of tokens: exhaustive up to length three, then random.
fn tokens(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let k = TOK.len() as u64;
    let text: String = if idx < k * k * k {
        let mut v = vec![];
        let mut x = idx;
        while x > 0 {
            v.push(TOK[(x % k) as usize]);
            x /= k;
        }
        v.concat()
    } else {
        // Mostly structural
        (0..rng.range(3, 14)).map(|_| TOK[if rng.chance(5, 6) { rng.below(12) } else { rng.below(TOK.len()) }]).collect()
    };
    judge(rng, cx, &text, 3)
}

const NUMCH: &[u8] = b"01-+.eE9 ,";
const STRCH: &[&str] = &["\\", "\"", "u", "n", "d", "8", "0", "D", "C", "f", "\u{1}", "\u{1f}", "\u{7f}", "é", "/", "\\ud83d", "\\ude00", "\\u00", "\t", "\n", "x", "\\udfff", "\\uDBFF"];

/// Number-like and string-like literals in value and key position, alone and in containers.
fn literals(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let body: String = if idx % 2 == 0 {
        let n = rng.range(1, 7);
        (0..n).map(|_| *rng.pick(NUMCH) as char).collect()
    } else {
        let n = rng.range(0, 6);
        let s: String = (0..n).map(|_| *rng.pick(STRCH)).collect();
        format!("\"{}\"", s)
    };
    let text = match rng.below(7) {
        0 => body,
        1 => format!("[{}]", body),
        2 => format!("[{},1]", body),
        3 => format!("{{\"a\":{}}}", body),
        4 => format!("{{\"a\":{},\"b\":2}}", body),
        5 => format!("{{{}:1}}", body),
        _ => format!("{{\"a\":1,{}:{{\"b\":2}}}}", body),
    };
    judge(rng, cx, &text, 3)
}

/// What the documents one step away from being valid are made of.
const UNITS: &[&str] = &[
    "null", "true", "false", "0", "-0", "7", "-12", "1.5", "-0.25", "1e5", "2E+10", "3.5e-07", "0e0", "0.5E1", "\"\"", "\"ab\"", "\"\\n\"", "\"\\\"\\\\\\/\\b\\f\\r\\t\"", "\"\\u0041\"",
    "\"\\u00e9x\"", "\"\\uFfFf\"", "\"\\ud83d\\ude00\"", "\"\\uDBFF\\uDFFFz\"", "\"\\ud800\\udc00\"", "\"é\u{7f}\u{10ffff}\"", "[]", "{}", "[1,2]", "{\"k\":1,\"l\":2}", "[ ]", "{ }",
    "[ 1 , 2 ]", "{ \"k\" : 1 , \"l\" : 2 }", "[[],{}]", "{\"k\":{\"m\":[true]}}", "\t1\r\n",
];
/// Places for them; keys take strings only.
const HOLES: &[&str] = &["@", "[@]", "[1,@,2]", "{\"a\":@}", "{\"a\":@,\"b\":2}", "{\"a\":[{\"b\":@}],\"c\":0}", "{@:1}", "{\"a\":{@:1},\"b\":2}"];

thread_local! {
    static NEAR: Vec<Vec<String>> = UNITS.iter().map(|u| gen::near(u)).collect();
}

/// All texts one step away from each unit, in each place; after that, two steps from one.
fn near(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let total: u64 = NEAR.with(|n| n.iter().map(|v| v.len() as u64).sum());
    let rounds = HOLES.len() as u64;
    let mut i = idx % total;
    let hole = if idx < total * rounds { HOLES[(idx / total) as usize] } else { *rng.pick(HOLES) };
    let mut unit = String::new();
    NEAR.with(|n| {
        for v in n {
            if i < v.len() as u64 {
                unit = v[i as usize].clone();
                return;
            }
            i -= v.len() as u64;
        }
    });
    if idx >= total * rounds {
        let v = gen::near(&unit);
        if v.is_empty() {
            return Ok(());
        }
        unit = rng.pick(&v).clone();
    } else {
        cx.count("one_step", 1);
    }
    judge(rng, cx, &hole.replace('@', &unit), 3)
}

/// One large dimension; also with a mutation.
fn sizes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    run::on_stack(256 << 20, || {
        let (text, _) = gen::big(rng, 1 << 17, 1 << 11);
        cx.max("bytes", text.len() as u64);
        cx.sample(|| show(&text));
        judge(rng, cx, &text, 4)?;
        let t = match rng.below(3) {
            0 => text[..text.floor_char_boundary(rng.below(text.len()))].to_string(),
            _ => mutate(rng, &text),
        };
        judge(rng, cx, &t, 2)
    })?
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
/// Typed targets: whatever is accepted must be valid JSON.
fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'s> Deserialize<TextDeserializer<&'s str>>,
{
    let v = T::gen(rng);
    let text = to_str(&v);
    for _ in 0..3 {
        let t = mutate(rng, &text);
        let valid = refjson::parse(&t, false).is_ok();
        cx.evals += 1;
        cx.distinct_str(&t);
        cx.count("typed_mutants", 1);
        match quiet(|| from_str::<T>(&t).is_ok()) {
            Ok(true) if !valid => return Err(format!("invalid JSON is accepted as {}: {}", std::any::type_name::<T>(), show(&t))),
            Ok(true) => cx.count("typed_accepted", 1),
            Ok(false) => (),
            Err(p) => return Err(format!("panic reading {} as {}: {}", show(&t), std::any::type_name::<T>(), p)),
        }
    }
    Ok(())
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);

fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

thread_local! {
    static ANY: std::cell::RefCell<Free> = std::cell::RefCell::new(Free::new(Rng::new(1)));
}
/// A type that reads any value, in any context, with the steps of `ANY`.
struct Any;
impl<R: TextReader, C: ?Sized> Deserialize<TextDeserializer<R>, C> for Any {
    const NULLABLE: bool = true;
    fn deserialize(v: Value<TextDeserializer<R>>, _: &mut C) -> Result<Self, DeserializeError<R::Position>> {
        let (d, done) = v.into_raw();
        ANY.with(|f| f.borrow_mut().val(d, 0))?;
        *done = true;
        Ok(Any)
    }
}

/// What may follow a document.
const TAILS: &[&str] = &[
    "", " ", "\n", "\t\r\n ", "\n\n", ",", "]", "}", ":", "\"", "\"a\"", "0", " 0", "-", "null", " null", "\n[]", "{}", "\0", "\u{b}", "\u{a0}", "\u{feff}", "/", "//", " // x\n", "/**/", "#", ";", "é", "\u{1a}",
    "\u{2028}", "\u{c}", " }", " \n,", "e", ".", "true", "x",
];

/// All the functions that read a whole document, from each kind of source, alone and in a context.
fn entries(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[1, 3, 12]), dup_keys: *rng.pick(&[0, 0, 20]), objecty: rng.bool(), ..Default::default() };
    let st = Style::random(rng, false);
    let (mut text, _) = doc_text(rng, &o, &st);
    match rng.below(4) {
        0 => text = mutate(rng, &text),
        1 => (),
        _ => text = format!("{}{}", text, TAILS[idx as usize % TAILS.len()]),
    }
    let valid = refjson::parse(&text, false).is_ok();
    cx.distinct_str(&text);
    let walk = rng.fork();
    let skip = *rng.pick(&[0, 30, 100]);
    let start = || {
        let mut f = Free::new(walk.clone());
        f.keys = Free::keys_of(&text);
        f.skip = skip;
        ANY.with(|a| *a.borrow_mut() = f);
    };
    let cut = rng.range(1, 5);
    let bytes = || Utf8Reader::new(Chunked::new(text.as_bytes(), vec![cut])).unwrap();
    let (mut num, mut list) = (rng.u64(), vec![1u8, 2]);
    let dynamic: &mut dyn std::any::Any = &mut num;
    for how in 0..9 {
        start();
        cx.evals += 1;
        let r = quiet(|| match how {
            0 => from_str::<Any>(&text).map(|_| ()).map_err(|e| emsg(&e)),
            1 => from_str_using::<Any, _>(&text, &mut list).map(|_| ()).map_err(|e| emsg(&e)),
            2 => from_str_using::<Any, [u8]>(&text, &mut list[..]).map(|_| ()).map_err(|e| emsg(&e)),
            3 => from_reader::<_, Any>(&text[..]).map(|_| ()).map_err(|e| emsg(&e)),
            4 => from_reader_using::<_, Any, dyn std::any::Any>(&text[..], dynamic).map(|_| ()).map_err(|e| emsg(&e)),
            5 => from_reader::<_, Any>(bytes()).map(|_| ()).map_err(|e| emsg(&e)),
            6 => from_reader_using::<_, Any, _>(bytes(), &mut list).map(|_| ()).map_err(|e| emsg(&e)),
            7 => from_reader::<_, Any>(MonReader::new(&text)).map(|_| ()).map_err(|e| emsg(&e)),
            _ => from_reader_using::<_, Any, str>(MonReader::new(&text), &mut String::new()).map(|_| ()).map_err(|e| emsg(&e)),
        });
        let name = ["from_str", "from_str_using", "from_str_using with a slice", "from_reader of a string", "from_reader_using of a string", "from_reader of bytes", "from_reader_using of bytes", "from_reader", "from_reader_using"][how];
        match r {
            Err(p) => return Err(format!("{} panicked: {} on {}", name, p, show(&text))),
            Ok(Ok(())) if !valid => return Err(format!("{} accepts an invalid document: {}", name, show(&text))),
            Ok(Err(e)) if valid => return Err(format!("{} rejects a valid document with {}: {}", name, e, show(&text))),
            _ => (),
        }
    }
    cx.count(if valid { "entry_points_valid" } else { "entry_points_invalid" }, 1);
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C03",
        level: "exploration",
        rule: "valid, mutated, truncated, token-sequence (exhaustive to length 3) and literal texts and all texts one small edit (deletion, doubling, swap, confusable character) from 36 lexical and structural units in 8 places x consumption strategies (skip all, in order, random order, modelled walk, typed) and the functions that read whole documents, with and without a context, over each kind of source, with 38 tails; a case is distinct by text",
        assumptions: &["the reference RFC 8259 parser is correct"],
        phases: vec![
            Phase { name: "tokens", quick: 480000, thorough: 0, f: tokens },
            Phase { name: "sizes", quick: 4000, thorough: 0, f: sizes },
            Phase { name: "valid", quick: 240000, thorough: 0, f: valid },
            Phase { name: "mutated", quick: 480000, thorough: 0, f: mutated },
            Phase { name: "truncated", quick: 24000, thorough: 0, f: truncated },
            Phase { name: "literals", quick: 1200000, thorough: 0, f: literals },
            Phase { name: "near", quick: 200000, thorough: 0, f: near },
            Phase { name: "entries", quick: 60000, thorough: 0, f: entries },
            Phase { name: "typed", quick: 800000, thorough: 0, f: types },
        ],
        floors: &[("entry_points_valid", 100), ("entry_points_invalid", 100), ("valid_texts", 500), ("invalid_texts", 500), ("model_walks", 100), ("distinct_nontrivial", 2000)],
        hang_cpu_s: 20,
    });
}
