use serdere::{StrPosition, TextReader, Utf8Reader};
use vh::gen::{doc_text, DocOpts, Style};
use vh::reader::{lc, str_offset, Chunked, MonReader};
use vh::rng::hash_bytes;
use vh::run::show;
use vh::walk::{walk_doc, Walk};
use vh::*;

/// Runs one random walk over the text, through one of the reader kinds.
fn one(rng: &mut Rng, cx: &mut Cx, text: &str, tree: &JNode, comments: bool) -> Result<(), String> {
    let (obs, trace, res) = match rng.below(3) {
        0 => {
            let at = |p: &StrPosition, off: usize| str_offset(text, p) == Some(off);
            go(rng, &at, text, comments, tree)
        }
        1 => {
            let at = |p: &usize, off: usize| *p == off;
            go(rng, &at, MonReader::new(text), comments, tree)
        }
        _ => {
            let at = |p: &serdere::LineColumnPosition, off: usize| *p == lc(text, off);
            let chunks = (0..rng.range(1, 4)).map(|_| rng.range(1, 5)).collect();
            let r = Utf8Reader::new(Chunked::new(text.as_bytes(), chunks)).map_err(|e| e.to_string())?;
            go(rng, &at, r, comments, tree)
        }
    };
    for (k, v) in obs {
        cx.count(k, v);
    }
    cx.distinct(hash_bytes(trace.as_bytes()) ^ hash_bytes(text.as_bytes()).rotate_left(17));
    cx.sample(|| format!("{} walked as {}", show(text), trace));
    res.map_err(|e| format!("{}\n  document: {}\n  walk: {}", e, show(text), trace))
}

type Out = (std::collections::BTreeMap<&'static str, u64>, String, Result<(), String>);

fn go<R: TextReader>(rng: &mut Rng, at: &dyn Fn(&R::Position, usize) -> bool, r: R, comments: bool, tree: &JNode) -> Out {
    let mut w = Walk::new(rng.fork(), at);
    w.skip = *rng.pick(&[0, 5, 30]);
    let res = walk_doc(&mut w, r, comments, tree);
    (w.obs, w.trace, res)
}

fn random(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts {
        max_nodes: *rng.pick(&[4, 10, 30, 80, 300]),
        max_depth: *rng.pick(&[2, 4, 8, 20]),
        dup_keys: *rng.pick(&[0, 0, 10, 40]),
        unique_nums: rng.bool(),
        objecty: rng.chance(3, 4),
    };
    let comments = rng.chance(1, 5);
    let st = Style::random(rng, comments);
    let (text, tree) = doc_text(rng, &o, &st);
    cx.max("nodes", tree.count() as u64);
    cx.evals += 1;
    for _ in 0..2 {
        one(rng, cx, &text, &tree, comments)?;
    }
    Ok(())
}

/// Objects with many entries (table growth, boundary counts).
fn wide(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = *rng.pick(&mine::pools().sizes).min(&600);
    let pre = vh::gen::key(rng);
    let es: Vec<(String, gen::V)> = (0..n)
        .map(|i| {
            let v = if rng.chance(1, 6) {
                gen::V::Obj(vec![(pre.clone(), gen::V::Num(i.to_string())), ("z".into(), gen::V::Arr(vec![]))])
            } else {
                gen::V::Num(i.to_string())
            };
            (format!("{}{}", if rng.bool() { "" } else { &pre }, i), v)
        })
        .collect();
    let mut seen = std::collections::HashSet::new();
    let es: Vec<_> = es.into_iter().filter(|e| seen.insert(e.0.clone())).collect();
    let mut v = gen::V::Obj(es);
    for _ in 0..rng.below(3) {
        v = gen::V::Obj(vec![("q".into(), gen::V::Num("1".into())), ("w".into(), v), ("e".into(), gen::V::Null)]);
    }
    let st = Style::plain();
    let text = gen::render(rng, &v, &st);
    let tree = refjson::parse(&text, false).map_err(|e| format!("{:?}", e))?;
    cx.max("entries", n as u64);
    one(rng, cx, &text, &tree, false)
}

/// One large dimension.
fn sizes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    run::on_stack(256 << 20, || {
        let (text, v) = gen::big(rng, 1 << 16, 1 << 10);
        let tree = match refjson::parse(&text, false) {
            Ok(t) => t,
            Err(e) => run::harness_error(&format!("reference parser rejects {}: {:?}", show(&text), e)),
        };
        if !gen::matches(&v, &tree) {
            run::harness_error("reference parser misreads a large document");
        }
        cx.max("bytes", text.len() as u64);
        for _ in 0..3 {
            one(rng, cx, &text, &tree, false)?;
        }
        Ok(())
    })?
}

/// One level of a deep document.
struct Level {
    obj: bool,
    /// Key and content (none for the next level), until they are taken.
    items: Vec<Option<(&'static str, Option<u64>)>>,
}

/// Deeply nested objects with the same few keys everywhere, entered by name with entries left
/// behind on every level, and finished from the inside out.
fn deep(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    const KEYS: &[&str] = &["a", "b", "c", "d"];
    const DEPTHS: &[usize] = &[5, 20, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 600, 1025, 2000];
    let n = if idx % 500 == 499 { *rng.pick(&[32770usize, 65537, 65540, 70000]) } else { *rng.pick(DEPTHS) };
    let arrays = *rng.pick(&[0, 0, 10, 50]);
    let fixed = rng.bool().then(|| *rng.pick(KEYS));
    let mut levels: Vec<Level> = Vec::new();
    let (mut text, mut ends) = (String::new(), Vec::new());
    let buffered = rng.chance(2, 3);
    if buffered {
        text.push_str(*rng.pick(&["{\"doc\":", "{ \"b\" : 5,\"doc\": "]));
    }
    let mut num = 10;
    let val = |num: &mut u64| {
        *num += 1;
        *num
    };
    for _ in 0..n {
        let obj = !rng.chance(arrays, 100);
        let k = rng.below(4);
        let mut keys = KEYS.to_vec();
        let mut items: Vec<Option<(&'static str, Option<u64>)>> = vec![];
        let child = rng.below(k + 1);
        let child_key = fixed.unwrap_or_else(|| *rng.pick(KEYS));
        keys.retain(|c| *c != child_key);
        let (mut before, mut after) = (String::new(), String::new());
        for i in 0..=k {
            let first = i == 0;
            let out = if i <= child { &mut before } else { &mut after };
            if !first {
                out.push(',');
            }
            if i == child {
                if obj {
                    out.push_str(&format!("\"{}\":", child_key));
                }
                items.push(Some((child_key, None)));
            } else {
                let v = val(&mut num);
                let key = if obj { keys.swap_remove(rng.below(keys.len())) } else { "" };
                if obj {
                    out.push_str(&format!("\"{}\":{}", key, v));
                } else {
                    out.push_str(&v.to_string());
                }
                items.push(Some((key, Some(v))));
            }
        }
        text.push(if obj { '{' } else { '[' });
        text.push_str(&before);
        after.push(if obj { '}' } else { ']' });
        ends.push(after);
        levels.push(Level { obj, items });
    }
    text.push_str("null");
    ends.iter().rev().for_each(|e| text.push_str(e));
    if buffered {
        text.push_str(",\"end\":7}");
    }
    cx.evals += 1;
    cx.count("deep", 1);
    cx.max("levels", n as u64);
    cx.distinct(hash_bytes(text.as_bytes()) ^ rng.u64());
    let mut log = String::new();
    let r = deep_walk(rng, cx, &text, &mut levels, buffered, &mut log);
    r.map_err(|e| format!("{}\n  document: {}\n  last steps: {}", e, show(&text), &log[log.len().saturating_sub(300)..]))
}

fn deep_walk(rng: &mut Rng, cx: &mut Cx, text: &str, levels: &mut [Level], buffered: bool, log: &mut String) -> Result<(), String> {
    use serdere::{Deserializer, Outliner};
    use serdere_json::*;
    macro_rules! ok {
        ($e:expr, $($what:tt)*) => {
            $e.map_err(|e| format!("{}: {}", format!($($what)*), walk::emsg(&e)))?
        };
    }
    let mut d = ok!(TextDeserializer::new(TextDeserializerConfig::strict(), text), "new");
    if buffered {
        ok!(d.open_object(), "open_object");
        ok!(d.push_entry("end"), "push_entry(end)");
        ensure!(ok!(d.get_u64(), "end") == 7, "wrong end");
        ok!(d.push_entry("doc"), "push_entry(doc)");
    }
    const ASK: &[&str] = &["a", "b", "c", "d", "e", ""];
    /// Asks for `key`, which may be there or not.
    fn ask(d: &mut TextDeserializer<&str>, l: &mut Level, at: usize, key: &str) -> Result<bool, String> {
        let i = l.items.iter().position(|e| e.map_or(false, |e| e.0 == key));
        let got = d.try_push_entry(key).map_err(|e| format!("level {}: asking for {:?}: {}", at, key, walk::emsg(&e)))?;
        ensure!(got == i.is_some(), "level {}: {:?} is {}there, with {:?} unread", at, key, if got { "" } else { "not " }, l.items);
        let Some(i) = i else { return Ok(false) };
        let e = l.items[i].take().unwrap();
        if let Some(v) = e.1 {
            let got = d.get_u64().map_err(|e| format!("level {}: entry {:?}: {}", at, key, walk::emsg(&e)))?;
            ensure!(got == v, "level {}: entry {:?} is {} instead of {}", at, key, got, v);
        }
        Ok(true)
    }
    let early = *rng.pick(&[0, 2, 20]);
    for (at, l) in levels.iter_mut().enumerate() {
        if l.obj {
            ok!(d.open_object(), "level {}: open_object", at);
            let child = l.items.iter().flatten().find(|e| e.1.is_none()).unwrap().0;
            while rng.chance(early, 100) {
                let k = *rng.pick(ASK);
                if k != child {
                    log.push_str(&format!(" {}?{}", at, k));
                    ask(&mut d, l, at, k)?;
                }
            }
            log.push_str(&format!(" {}>{}", at, child));
            ask(&mut d, l, at, child)?;
        } else {
            ok!(d.open_list(), "level {}: open_list", at);
            log.push_str(&format!(" {}[", at));
            for e in &mut l.items {
                ensure!(ok!(d.next_item(), "level {}: next_item", at), "level {}: items missing", at);
                let (_, v) = e.take().unwrap();
                let Some(v) = v else { break };
                let got = ok!(d.get_u64(), "level {}: item", at);
                ensure!(got == v, "level {}: item {} instead of {}", at, got, v);
            }
        }
    }
    ok!(d.pop_null(), "pop_null");
    let (by_name, skip) = (*rng.pick(&[100, 80, 30]), *rng.pick(&[0, 10, 40]));
    for (at, l) in levels.iter_mut().enumerate().rev() {
        if !l.obj {
            log.push_str(&format!(" {}]", at));
            while let Some(e) = l.items.iter_mut().find(|e| e.is_some()) {
                ensure!(ok!(d.next_item(), "level {}: next_item", at), "level {}: items missing", at);
                let v = e.take().unwrap().1.unwrap();
                let got = ok!(d.get_u64(), "level {}: item", at);
                ensure!(got == v, "level {}: item {} instead of {}", at, got, v);
            }
            ok!(d.close_list(), "level {}: close_list", at);
            continue;
        }
        loop {
            if rng.chance(skip, 100) {
                log.push_str(&format!(" {}x", at));
                ok!(d.skip_object(), "level {}: skip_object", at);
                break;
            }
            let left: Vec<(&str, u64)> = l.items.iter().flatten().map(|e| (e.0, e.1.unwrap())).collect();
            if rng.chance(by_name, 100) && (!left.is_empty() || rng.chance(1, 4)) {
                let k = if left.is_empty() || rng.chance(1, 4) { *rng.pick(ASK) } else { rng.pick(&left).0 };
                log.push_str(&format!(" {}?{}", at, k));
                let found = ask(&mut d, l, at, k)?;
                cx.count(if found { "deep_by_name" } else { "deep_absent" }, 1);
                continue;
            }
            log.push_str(&format!(" {}n", at));
            let Some((key, v)) = left.first() else {
                if rng.bool() {
                    ok!(d.close_object(), "level {}: close_object", at);
                } else {
                    ensure!(!ok!(d.next_entry(), "level {}: next_entry", at), "level {}: too many entries", at);
                }
                break;
            };
            ensure!(ok!(d.next_entry(), "level {}: next_entry", at), "level {}: no entry, with {:?} unread", at, left);
            let got = ok!(d.flush_str(), "level {}: key", at).into_owned();
            ensure!(got == *key, "level {}: entry {:?} next, with {:?} unread", at, got, left);
            let got = ok!(d.get_u64(), "level {}: entry {:?}", at, key);
            ensure!(got == *v, "level {}: entry {:?} is {} instead of {}", at, key, got, v);
            *l.items.iter_mut().find(|e| e.is_some()).unwrap() = None;
            cx.count("deep_next", 1);
        }
    }
    if buffered {
        ok!(d.skip_object(), "skip_object");
    }
    ok!(d.close(), "close");
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C04",
        level: "exploration",
        rule: "random documents (up to 300 nodes, duplicate and empty containers, escapes, whitespace, comments) x random walks; objects nested up to 70000 deep with the same keys on every level, entered by name leaving entries unread, finished from the inside out; a case is one (document, walk) pair, distinct by hash of text and choice trace",
        assumptions: &["reference parser and sequential model are correct", "which of several equal keys a by-name request returns is left open"],
        phases: vec![
            Phase { name: "random", quick: 1000000, thorough: 0, f: random },
            Phase { name: "wide", quick: 16000, thorough: 0, f: wide },
            Phase { name: "sizes", quick: 4000, thorough: 0, f: sizes },
            Phase { name: "deep", quick: 12000, thorough: 0, f: deep },
        ],
        floors: &[("by_name", 1000), ("next_unread", 1000), ("absent", 1000), ("duplicate_keys", 50), ("deep_by_name", 1000), ("deep_absent", 1000), ("deep_next", 1000), ("distinct_nontrivial", 1000)],
        hang_cpu_s: 20,
    });
}
