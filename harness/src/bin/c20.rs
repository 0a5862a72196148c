//! C20: skipping is equivalent to reading and discarding.
use serdere::*;
use serdere_json::*;
use vh::free::Free;
use vh::gen::{doc_text, mutate, DocOpts, Style};
use vh::reader::{lc, str_offset, Chunked, MonReader};
use vh::rng::hash_bytes;
use vh::run::{on_stack, quiet, show};
use vh::types::*;
use vh::walk::{emsg, walk_doc, Walk};
use vh::*;

/// Modelled walks that skip much: everything read between skips must be right, and the document
/// must close.
fn modelled(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts {
        max_nodes: *rng.pick(&[4, 12, 40, 120]),
        max_depth: *rng.pick(&[2, 4, 10]),
        dup_keys: *rng.pick(&[0, 0, 15]),
        unique_nums: rng.bool(),
        objecty: rng.chance(2, 3),
    };
    let comments = rng.chance(1, 5);
    let st = Style::random(rng, comments);
    let (text, tree) = doc_text(rng, &o, &st);
    for _ in 0..3 {
        cx.evals += 1;
        let in_order = rng.chance(1, 3);
        let skip = *rng.pick(&[10, 40, 70]);
        macro_rules! go {
            ($at:expr, $r:expr) => {{
                let at = $at;
                let mut w = Walk::new(rng.fork(), &at);
                w.skip = skip;
                w.in_order = in_order;
                let res = walk_doc(&mut w, $r, comments, &tree);
                (w.obs, w.trace, res)
            }};
        }
        let (obs, trace, res) = match rng.below(3) {
            0 => go!(|p: &StrPosition, off: usize| str_offset(&text, p) == Some(off), text.as_str()),
            1 => go!(|p: &usize, off: usize| *p == off, MonReader::new(&text)),
            _ => go!(
                |p: &LineColumnPosition, off: usize| *p == lc(&text, off),
                Utf8Reader::new(Chunked::new(text.as_bytes(), vec![2])).unwrap()
            ),
        };
        for (k, v) in obs {
            cx.count(k, v);
        }
        cx.distinct(hash_bytes(trace.as_bytes()) ^ hash_bytes(text.as_bytes()).rotate_left(17));
        cx.sample(|| format!("{} walked as {}", show(&text), trace));
        res.map_err(|e| format!("{}\n  document: {}\n  walk: {}", e, show(&text), trace))?;
    }
    Ok(())
}

/// Skipping must refuse exactly what reading refuses.
fn malformed(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[2, 6, 20]), objecty: rng.bool(), ..Default::default() };
    let st = Style::random(rng, false);
    let (inner, _) = doc_text(rng, &o, &st);
    let bad = if rng.chance(1, 6) { inner.clone() } else { mutate(rng, &inner) };
    let before = *rng.pick(&["", "\"k\":1,", "\"k\":{\"x\":[]},"]);
    let after = *rng.pick(&["", ",\"z\":2", ",\"z\":{\"y\":[1]},\"k2\":[]"]);
    let (text, is_obj) = if rng.chance(2, 3) {
        (format!("{{{}\"s\":{}{}}}", before, bad, after), true)
    } else {
        (format!("[1,{},2]", bad), false)
    };
    let valid = refjson::parse(&text, false).is_ok();
    cx.distinct_str(&text);
    cx.count(if valid { "valid" } else { "invalid" }, 1);
    for mode in 0..7 {
        cx.evals += 1;
        let r = quiet(|| closed(&text, mode, is_obj));
        match r {
            Err(p) => return Err(format!("panic when skipping (mode {}) in {}: {}", mode, show(&text), p)),
            Ok(Ok(())) => ensure!(valid, "malformed data is skipped without an error (mode {}): {}", mode, show(&text)),
            Ok(Err(e)) => ensure!(!valid, "valid data cannot be skipped (mode {}): {} in {}", mode, e, show(&text)),
        }
    }
    Ok(())
}

fn closed(text: &str, mode: i32, is_obj: bool) -> Result<(), String> {
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), text).map_err(|e| emsg(&e))?;
    let r = (|| -> Result<(), DeserializeError<_>> {
        if mode == 0 {
            return d.skip_value();
        }
        if !is_obj {
            d.open_list()?;
            while d.next_item()? {
                d.skip_value()?;
            }
            return Ok(());
        }
        if mode == 5 {
            // As unknown keys of a typed reader
            return Value::with(&mut d, |v| v.get::<()>());
        }
        d.open_object()?;
        let k = match mode {
            1 | 6 => "s",
            2 => "absent",
            3 => "z",
            _ => return d.skip_object(),
        };
        if d.try_push_entry(k)? {
            d.skip_value()?;
        }
        match mode {
            3 => {
                while d.next_entry()? {
                    d.skip_str()?;
                    d.skip_value()?;
                }
                Ok(())
            }
            6 => d.skip_object(),
            _ => d.close_struct(),
        }
    })();
    r.map_err(|e| emsg(&e))?;
    d.close().map_err(|e| emsg(&e))
}

/// Deep nesting, streaming and buffered, on a small stack.
fn deep(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let depth = match idx % 4 {
        0 => *rng.pick(&mine::pools().sizes),
        1 => rng.range(1000, 5000),
        2 => 60_000,
        _ => 250_000,
    };
    let mut open = String::new();
    let mut close: Vec<&str> = vec![];
    let style = rng.below(4);
    for i in 0..depth {
        match if style == 3 { rng.below(4) } else { style + (i % 2) * (style / 2) } {
            0 => {
                open.push('[');
                close.push("]");
            }
            1 => {
                open.push_str("{\"a\":");
                close.push("}");
            }
            2 => {
                open.push_str("[1,{},");
                close.push(",\"x\"]");
            }
            _ => {
                open.push_str("{\"b\":[],\"a\":");
                close.push(",\"z\":null}");
            }
        }
    }
    let inner = *rng.pick(&["null", "{}", "[]", "1.5e3", "\"s\"", "true"]);
    let mut v = open;
    v.push_str(inner);
    for c in close.iter().rev() {
        v.push_str(c);
    }
    cx.max("depth", depth as u64);
    cx.distinct(hash_bytes(v.as_bytes()));
    cx.count("deep_values", 1);
    let r = on_stack(256 << 10, || -> Result<(), String> {
        type E<'a> = DeserializeError<StrPosition<'a>>;
        let run = |text: &str, f: &dyn Fn(&mut TextDeserializer<&str>) -> Result<bool, String>| -> Result<(), String> {
            let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), text).map_err(|e: E| emsg(&e))?;
            if !f(&mut d)? {
                return Err("the value after the skipped one is wrong".into());
            }
            d.close().map_err(|e| emsg(&e))
        };
        run(&v, &|d| d.skip_value().map(|_| true).map_err(|e| emsg(&e)))?;
        let t = format!("{{\"s\":{},\"n\":17}}", v);
        for mode in 0..5 {
            run(&t, &|d| {
                (|| {
                    d.open_object()?;
                    match mode {
                        0 => {
                            d.push_entry("s")?;
                            d.skip_value()?;
                            d.push_entry("n")?;
                            let n = d.get_u8()?;
                            d.close_object()?;
                            Ok(n == 17)
                        }
                        1 => {
                            d.push_entry("n")?;
                            let n = d.get_u8()?;
                            d.push_entry("s")?;
                            d.skip_value()?;
                            d.close_object()?;
                            Ok(n == 17)
                        }
                        2 => {
                            d.push_entry("n")?;
                            let n = d.get_u8()?;
                            d.close_struct()?;
                            Ok(n == 17)
                        }
                        3 => {
                            d.skip_object()?;
                            Ok(true)
                        }
                        _ => {
                            d.push_entry("n")?;
                            let n = d.get_u8()?;
                            d.next_entry()?;
                            d.skip_str()?;
                            d.skip_value()?;
                            Ok(n == 17 && !d.next_entry()?)
                        }
                    }
                })()
                .map_err(|e: E| emsg(&e))
            })
            .map_err(|e| format!("mode {}: {}", mode, e))?;
        }
        let t = format!("[{},17]", v);
        run(&t, &|d| {
            (|| {
                d.open_list()?;
                d.push_item()?;
                d.skip_value()?;
                d.push_item()?;
                let n = d.get_u8()?;
                d.close_list()?;
                Ok(n == 17)
            })()
            .map_err(|e: E| emsg(&e))
        })?;
        // As unknown keys of a typed reader
        let t = format!("{{\"u\":{},\"y\":2.5,\"x\":-3,\"w\":{}}}", v, v);
        let p: P2 = from_str(&t).map_err(|e| emsg(&e))?;
        if p.x != -3 || p.y != 2.5 {
            return Err(format!("typed reader with unknown keys gives {:?}", p));
        }
        Ok(())
    });
    match r {
        Ok(r) => r.map_err(|e| format!("skipping a value nested {} deep ({}): {}", depth, show(&v[..v.len().min(40)]), e)),
        Err(p) => Err(format!("skipping a value nested {} deep panics: {}", depth, p)),
    }
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
/// Unknown keys in objects read by typed readers.
fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'s> Deserialize<TextDeserializer<&'s str>>,
{
    let v = T::gen(rng);
    let text = to_str(&v);
    let tree = refjson::parse(&text, false).map_err(|e| format!("{:?}", e))?;
    let JKind::Obj(es) = &tree.kind else { return Ok(()) };
    // Insert unknown entries into the outermost object
    let o = DocOpts { max_nodes: *rng.pick(&[1, 4, 20]), ..Default::default() };
    let st = Style::random(rng, false);
    let extras: Vec<String> = (0..rng.range(1, 3)).map(|i| format!("\"unknown{}\":{}", i, doc_text(rng, &o, &st).0)).collect();
    let mut bad = extras.clone();
    let which = rng.below(bad.len());
    let n = format!("\"unknown{}\":", which).len();
    bad[which] = format!("{}{}", &bad[which][..n], mutate(rng, &bad[which][n..]));
    let build = |xs: &[String], rng: &mut Rng| -> String {
        let mut parts: Vec<String> = es.iter().map(|e| text[e.key_start..e.value.end].to_string()).collect();
        for x in xs {
            let at = rng.below(parts.len() + 1);
            parts.insert(at, x.clone());
        }
        format!("{{{}}}", parts.join(","))
    };
    let good = build(&extras, rng);
    cx.count("typed", 1);
    cx.distinct_str(&good);
    match quiet(|| from_str::<T>(&good).map_err(|e| emsg(&e)).map(|g| format!("{:?}", g))) {
        Ok(Ok(g)) => ensure!(g == format!("{:?}", v), "unknown keys change {:?} to {} in {}", v, g, show(&good)),
        Ok(Err(e)) => return Err(format!("unknown keys make {} fail with {}: {}", std::any::type_name::<T>(), e, show(&good))),
        Err(p) => return Err(format!("panic: {} in {}", p, show(&good))),
    }
    let bad = build(&bad, rng);
    if refjson::parse(&bad, false).is_err() {
        cx.count("typed_malformed", 1);
        match quiet(|| from_str::<T>(&bad).is_ok()) {
            Ok(false) => (),
            Ok(true) => return Err(format!("malformed ignored value is accepted by {}: {}", std::any::type_name::<T>(), show(&bad))),
            Err(p) => return Err(format!("panic: {} in {}", p, show(&bad))),
        }
    }
    Ok(())
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = table! {
    (), P2, Empty, UnitStruct, Renamed, Gen1<u8>, Gen1<Gen1<Option<Option<f32>>>>, Flat, FlatFirst<P2>, FlatFirst<Shape>, Shape, Kind, FlatEnum,
    GenEnum<P2>, GenEnum<Shape>, Defaults, Options, Wide, Deep, Option<P2>, Option<Option<u8>>, Option<Option<()>>, Weird, Defaults2
};
fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

/// A walk that skips everything it is offered sees the same as a walk that reads: free walks with
/// the same choices but skipping replaced by reading.
fn twin(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    // No repeated keys: which of them a by-name request gives is left open
    let o = DocOpts { max_nodes: *rng.pick(&[6, 25, 80]), ..Default::default() };
    let st = Style::random(rng, false);
    let (text, tree) = doc_text(rng, &o, &st);
    let JKind::Obj(es) = &tree.kind else { return Ok(()) };
    if es.is_empty() || tree.ambiguous() {
        return Ok(());
    }
    // Read entry `k` by name (or as the next one), skipping or reading it fully, then log the rest
    let key = &rng.pick(es).key;
    let first = rng.bool();
    let cont = rng.fork();
    let mut logs = vec![];
    for skip in [false, true] {
        let mut f = Free::new(cont.clone());
        f.keys = Free::keys_of(&text);
        f.log = Some(String::new());
        let r = (|| {
            let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), text.as_str())?;
            d.open_object()?;
            if first {
                d.next_entry()?;
                d.skip_str()?;
            } else {
                d.push_entry(key)?;
            }
            if skip {
                d.skip_value()?;
            } else {
                let mut g = Free::new(cont.clone());
                g.skip = 0;
                g.keys = f.keys.clone();
                g.val(&mut d, 1)?;
            }
            // the rest, in the same way
            while d.next_entry()? {
                let k = d.flush_str()?.into_owned();
                f.log.as_mut().unwrap().push_str(&format!("key {:?};", k));
                f.val(&mut d, 1)?;
            }
            d.close()
        })();
        logs.push((f.log.unwrap(), r.map_err(|e| emsg(&e))));
    }
    cx.count("twins", 1);
    cx.distinct(hash_bytes(text.as_bytes()) ^ hash_bytes(key.as_bytes()));
    ensure!(
        logs[0] == logs[1],
        "skipping entry {:?} (first {}) of {} changes what follows:\n  read: {:?}\n  skip: {:?}",
        key,
        first,
        show(&text),
        logs[0],
        logs[1]
    );
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C20",
        level: "exploration",
        rule: "modelled walks with heavy skipping, skipped malformed data under seven skipping modes, nesting to 250000 on a 256 KiB stack, unknown keys of typed readers, read/skip twins; distinct by text and choices",
        assumptions: &["the reference parser and sequential model are correct"],
        phases: vec![
            Phase { name: "modelled", quick: 160000, thorough: 0, f: modelled },
            Phase { name: "malformed", quick: 160000, thorough: 0, f: malformed },
            Phase { name: "deep", quick: 64, thorough: 1000, f: deep },
            Phase { name: "types", quick: 160000, thorough: 0, f: types },
            Phase { name: "twin", quick: 96000, thorough: 0, f: twin },
        ],
        floors: &[("skips", 1000), ("valid", 50), ("invalid", 500), ("deep_values", 8), ("typed_malformed", 100), ("twins", 200)],
        hang_cpu_s: 60,
    });
}
