//! C17: whitespace and comments between tokens change nothing.
use serdere::*;
use serdere_json::*;
use vh::free::Free;
use vh::gen::{comment, doc_text, DocOpts, Style};
use vh::reader::{Chunked, MonReader};
use vh::refjson::tokens;
use vh::run::show;
use vh::types::*;
use vh::walk::{emsg, walk_doc, Walk};
use vh::*;

/// Free walk with a log, through a random kind of reader.
fn walk_log(text: &str, keys: &[String], comments: bool, r: &Rng, reader: usize) -> (String, Result<(), String>) {
    let mut f = Free::new(r.clone());
    f.keys = keys.to_vec();
    f.log = Some(String::new());
    let mut r2 = r.clone();
    f.skip = *r2.pick(&[0, 10, 40, 100]);
    f.shuffle = *r2.pick(&[0, 60, 100]);
    f.wrong = *r2.pick(&[0, 0, 10]);
    let res = match reader {
        0 => f.doc(MonReader::new(text), comments).map_err(|e| emsg(&e)),
        1 => f.doc(Utf8Reader::new(Chunked::new(text.as_bytes(), vec![3])).unwrap(), comments).map_err(|e| emsg(&e)),
        _ => f.doc(text, comments).map_err(|e| emsg(&e)),
    };
    (f.log.unwrap(), res)
}

fn ws(rng: &mut Rng) -> String {
    if rng.chance(1, 20000) {
        // Very long, or very many lines
        let n = vh::gen::length(rng, 1 << 17);
        return rng.pick(&[" ", "\n", "\t", "\r\n", " \n"]).repeat(n);
    }
    let n = if rng.chance(1, 30) { *rng.pick(&mine::pools().sizes).min(&600) } else { rng.range(1, 3) };
    (0..n).map(|_| *rng.pick(&[' ', '\n', '\r', '\t'])).collect()
}

fn filler(rng: &mut Rng, comments: bool) -> String {
    if !comments {
        return ws(rng);
    }
    let mut s = String::new();
    if rng.chance(1, 20000) {
        let n = vh::gen::length(rng, 1 << 17);
        let unit = *rng.pick(&["*", "x", "\u{e9}", "/", "//", " *"]);
        return match rng.below(3) {
            0 => format!("/*{}*/", unit.repeat(n).replace("*/", "**")),
            1 => format!("//{}\n", unit.repeat(n)),
            _ => rng.pick(&["/**/", "//\n", "/***/", "/* */ "]).repeat(n),
        };
    }
    for _ in 0..rng.range(1, 4) {
        if rng.bool() {
            s.push_str(&ws(rng));
        }
        if rng.chance(2, 3) {
            comment(rng, &mut s);
        }
    }
    s
}

/// Offsets at which insertion is allowed.
fn gaps(text: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(tokens(text).into_iter().map(|t| t.1));
    v.extend(tokens(text).into_iter().map(|t| t.0));
    v.push(text.len());
    v.sort();
    v.dedup();
    v
}

fn insert(text: &str, at: &[(usize, String)]) -> String {
    let mut out = String::new();
    let mut last = 0;
    for (p, s) in at {
        out.push_str(&text[last..*p]);
        out.push_str(s);
        last = *p;
    }
    out.push_str(&text[last..]);
    out
}

fn compare(rng: &mut Rng, cx: &mut Cx, text: &str, changed: &str, comments: bool, keys: &[String]) -> Result<(), String> {
    cx.evals += 1;
    cx.distinct_str(changed);
    let r = rng.fork();
    let reader = rng.below(4);
    let (la, ra) = walk_log(text, keys, false, &r, reader);
    let (lb, rb) = walk_log(changed, keys, comments, &r, reader);
    cx.count("walk_pairs", 1);
    if la != lb || ra != rb {
        let i = la.bytes().zip(lb.bytes()).position(|(a, b)| a != b).unwrap_or(la.len().min(lb.len()));
        let cut = |s: &str| -> String { String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60)..(i + 120).min(s.len())]).into_owned() };
        return Err(format!(
            "insertion changes the outcome (comments {}): {:?} against {:?}; events around the difference: ..{} against ..{}\n  text: {}\n  changed: {}",
            comments,
            ra,
            rb,
            cut(&la),
            cut(&lb),
            show(text),
            show(changed)
        ));
    }
    Ok(())
}

fn random(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[2, 8, 30, 100]), objecty: rng.chance(2, 3), ..Default::default() };
    let st = Style { ws: 0, comments: 0, escape: *rng.pick(&[0, 10]) };
    let (text, _) = doc_text(rng, &o, &st);
    let keys = Free::keys_of(&text);
    let gs = gaps(&text);
    for _ in 0..2 {
        let comments = rng.bool();
        let dens = *rng.pick(&[3, 20, 60, 100]);
        let at: Vec<(usize, String)> =
            gs.iter().filter(|_| rng.chance(dens, 100)).copied().collect::<Vec<_>>().into_iter().map(|g| (g, filler(rng, comments))).collect();
        let changed = insert(&text, &at);
        let permissive = comments || rng.bool();
        cx.sample(|| format!("{} | {}", show(&text), show(&changed)));
        compare(rng, cx, &text, &changed, permissive, &keys)?;
        // The model as second oracle
        let tree = match refjson::parse(&changed, permissive) {
            Ok(t) => t,
            Err(e) => run::harness_error(&format!("insertion made {:?} invalid: {:?}", changed, e)),
        };
        let any = |_: &StrPosition, _: usize| true;
        let mut w = Walk::new(rng.fork(), &any);
        w.probe = false;
        walk_doc(&mut w, changed.as_str(), permissive, &tree).map_err(|e| format!("{}\n  document: {}", e, show(&changed)))?;
        if comments && !at.is_empty() && refjson::parse(&changed, false).is_err() {
            // Comments disabled: an error, whatever is done
            cx.count("comments_refused", 1);
            let (_, r) = walk_log(&changed, &keys, false, &rng.fork(), rng.clone().below(4));
            ensure!(r.is_err(), "text with comments is accepted although comments are disabled: {}", show(&changed));
        }
    }
    Ok(())
}

const FILL: &[&str] = &[
    " ", "\n", "\r", "\t", "\r\n", " \t", "/**/", "//\n", "/***/", "/*/*/", "/*//*/", "// /*\n", "/*\n*/", "/**//**/", "//\n//\n", " /**/ ", "/* * / */",
    "/*\"*/", "//\"\n", "//\r\n", "/****/", "/* é漢 */", "//é\n\t", "/*]*/", "/*,*/", "/*:*/", "/*{}*/", "//}\n", "/*\\*/", "//\\\n", "/*1*/",
];
const BADWS: &[&str] = &["\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{85}", "\u{0}", "#x\n", "/", "/ /", "--", "<!--x-->", "*/", "\u{1680}", "\u{3000}"];
const DOCS: &[&str] = &[
    "1", "null", "\"s\"", "[]", "{}", "[1,2]", "[[],{}]", "{\"a\":1}", "{\"a\":1,\"b\":[true,\"x\"]}", "{\"a\":{\"b\":{}},\"c\":-1.5e3,\"d\":null}",
    "[\"\",{\"\":[]},false]", "{\"b\":{\"c\":1},\"a\":[1,{\"d\":\"e\"}],\"z\":0}",
];

/// Every filler in every gap of small documents.
fn exhaustive(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let doc = DOCS[idx as usize % DOCS.len()];
    let fill = (idx as usize / DOCS.len()) % (FILL.len() + BADWS.len());
    let keys = Free::keys_of(doc);
    for g in gaps(doc) {
        if fill < FILL.len() {
            let f = FILL[fill];
            let changed = insert(doc, &[(g, f.to_string())]);
            let c = f.contains('/');
            for _ in 0..4 {
                compare(rng, cx, doc, &changed, c || rng.clone().bool(), &keys)?;
            }
            if c {
                let (_, r) = walk_log(&changed, &keys, false, &rng.fork(), 3);
                ensure!(r.is_err(), "text with a comment is accepted although comments are disabled: {}", show(&changed));
                cx.count("comments_refused", 1);
            }
        } else {
            let f = BADWS[fill - FILL.len()];
            let changed = insert(doc, &[(g, f.to_string())]);
            if refjson::parse(&changed, true).is_ok() {
                continue;
            }
            for _ in 0..4 {
                for comments in [false, true] {
                    cx.evals += 1;
                    cx.distinct_str(&changed);
                    let (_, r) = walk_log(&changed, &keys, comments, &rng.fork(), 3);
                    ensure!(r.is_err(), "{:?} is accepted as whitespace (comments {}): {}", f, comments, show(&changed));
                }
            }
        }
    }
    Ok(())
}

/// Comments ended by the end of input, and comments that are not ended.
fn endings(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[1, 3, 8]), ..Default::default() };
    let (text, _) = doc_text(rng, &o, &Style::plain());
    let keys = Free::keys_of(&text);
    // Line comment at the end of input
    let mut line = String::from("//");
    for _ in 0..rng.below(5) {
        line.push(*rng.pick(&['x', '*', '/', ' ', '"', '\r', 'é', ']', '\\', '\t']));
    }
    let mut pre = String::new();
    if rng.bool() {
        pre = filler(rng, true);
    }
    let changed = format!("{}{}{}", text, pre, line);
    compare(rng, cx, &text, &changed, true, &keys)?;
    let (_, r) = walk_log(&changed, &keys, false, &rng.fork(), 3);
    ensure!(r.is_err(), "comment at the end is accepted although comments are disabled: {}", show(&changed));
    // Unterminated block comment anywhere
    let g = *rng.pick(&gaps(&text));
    let open = *rng.pick(&["/*", "/**", "/* x", "/*/", "/* *", "/*\n", "/* \n// \n", "/***"]);
    // The text after it must not contain a terminator
    if !text[g..].contains("*/") && !(open.ends_with('*') && open.len() > 2 && text[g..].starts_with('/')) {
        for cut in [text.len(), g] {
            let changed = format!("{}{}{}", &text[..g], open, &text[g..cut]);
            for comments in [true, false] {
                cx.evals += 1;
                cx.distinct_str(&changed);
                cx.count("unterminated", 1);
                let (_, r) = walk_log(&changed, &keys, comments, &rng.fork(), rng.clone().below(4));
                ensure!(r.is_err(), "unterminated block comment is accepted (comments {}): {}", comments, show(&changed));
            }
        }
    }
    Ok(())
}

/// Accepted exactly when the reference parser accepts it, under both configurations.
fn accepts(rng: &mut Rng, cx: &mut Cx, text: &str) -> Result<(), String> {
    cx.distinct_str(text);
    let keys = Free::keys_of(text);
    for comments in [true, false] {
        let want = refjson::parse(text, comments);
        cx.count(if want.is_ok() { "accepted" } else { "refused" }, 1);
        for round in 0..2 {
            cx.evals += 1;
            let mut f = Free::new(rng.fork());
            f.keys = keys.clone();
            f.max_depth = 5000;
            f.skip = if round == 0 { *rng.pick(&[0, 100]) } else { *rng.pick(&[10, 40]) };
            f.shuffle = if round == 0 { 0 } else { *rng.pick(&[60, 100]) };
            let got = match rng.below(4) {
                0 => f.doc(MonReader::new(text), comments).map_err(|e| emsg(&e)),
                1 => f.doc(Utf8Reader::new(Chunked::new(text.as_bytes(), vec![rng.range(1, 4)])).unwrap(), comments).map_err(|e| emsg(&e)),
                _ => f.doc(text, comments).map_err(|e| emsg(&e)),
            };
            match (&want, got) {
                (Ok(_), Ok(())) | (Err(_), Err(_)) => (),
                (Ok(_), Err(e)) => return Err(format!("valid document is rejected (comments {}) with {}: {}", comments, e, show(text))),
                (Err(e), Ok(())) => return Err(format!("invalid document (at byte {}) is accepted (comments {}): {}", e.viable, comments, show(text))),
            }
        }
    }
    Ok(())
}

const UNITS: &[&str] = &[
    "1/**/", "/***/[]", "//\r\n0", "[/* x */1,2//a\n]", "{\"k\"/**/:/*/ */1}//", "{/*a*/\"k\":1/**/,\"l\"/* */:2}", "[1/*//*/,2]", "[\"//\",/*\"*/\"/*\"]", "[[]/**/,{}/**/]//]",
    "{\"a\":[true/*,*/],\"b\"//:\n:null}", "/* a\n * b\n **/ 1.5 //é\n//\n", "[//]\n1]", "/*/**/1", "{}/* */ //", "[ /* * / */ ]", "{\"/*\":\"*/\"}",
];
thread_local! {
    static NEAR: Vec<String> = UNITS.iter().flat_map(|u| {
        let mut v = vec![u.to_string(), format!("[{}\n]", u), format!("{{\"a\":{}\n,\"b\":2}}", u)];
        let near: Vec<String> = gen::near(u);
        for n in &near {
            v.push(n.clone());
            v.push(format!("{{\"a\":{}\n,\"b\":2}}", n));
        }
        v
    }).collect();
}

/// All texts one small step away from documents with comments, then mutated ones.
fn near(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let fixed = NEAR.with(|n| n.get(idx as usize).cloned());
    let text = match fixed {
        Some(t) => {
            cx.count("one_step", 1);
            t
        }
        None => {
            let o = DocOpts { max_nodes: *rng.pick(&[1, 3, 8]), objecty: rng.bool(), ..Default::default() };
            let mut st = Style::random(rng, true);
            st.comments = st.comments.max(20);
            let (t, _) = doc_text(rng, &o, &st);
            let t = gen::mutate(rng, &t);
            if rng.bool() {
                let v = gen::near(&t.chars().take(40).collect::<String>());
                if v.is_empty() { t } else { rng.pick(&v).clone() + &t.chars().skip(40).collect::<String>() }
            } else {
                t
            }
        }
    };
    accepts(rng, cx, &text)
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'s> Deserialize<TextDeserializer<&'s str>>,
{
    let v = T::gen(rng);
    let text = to_str(&v);
    let comments = rng.bool();
    let at: Vec<(usize, String)> = gaps(&text).into_iter().filter(|_| rng.chance(1, 3)).collect::<Vec<_>>().into_iter().map(|g| (g, filler(rng, comments))).collect();
    let changed = insert(&text, &at);
    cx.distinct_str(&changed);
    cx.count("typed", 1);
    let cfg = if comments { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    let got = (|| {
        let mut d = TextDeserializer::new(cfg, changed.as_str())?;
        let v: T = Value::with(&mut d, |v| v.get())?;
        d.close()?;
        Ok(v)
    })()
    .map_err(|e: DeserializeError<_>| format!("{}: {} is rejected as {}", emsg(&e), show(&changed), std::any::type_name::<T>()))?;
    ensure!(same(&got, &v), "{} read with inserted whitespace as {:?} from {}", show(&format!("{:?}", v)), got, show(&changed));
    Ok(())
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);
fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

fn main() {
    run::main(Check {
        id: "C17",
        level: "exploration",
        rule: "documents with whitespace/comments inserted in random or (small documents) all gaps (up to 70000 characters long), read by identical walks before and after; all texts one small edit from 16 documents with comments, and mutated ones, accepted or refused as by the reference parser under both configurations; a case is distinct by changed text",
        assumptions: &["the reference tokenizer finds the gaps", "the walk's choices depend only on the events seen"],
        phases: vec![
            Phase { name: "exhaustive", quick: (DOCS.len() * (FILL.len() + BADWS.len())) as u64 * 4, thorough: 50000, f: exhaustive },
            Phase { name: "random", quick: 400000, thorough: 0, f: random },
            Phase { name: "endings", quick: 400000, thorough: 0, f: endings },
            Phase { name: "near", quick: 150000, thorough: 0, f: near },
            Phase { name: "types", quick: 500000, thorough: 0, f: types },
        ],
        floors: &[("walk_pairs", 1000), ("comments_refused", 200), ("unterminated", 200), ("distinct_nontrivial", 1000)],
        hang_cpu_s: 20,
    });
}
