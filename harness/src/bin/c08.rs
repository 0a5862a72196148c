//! C08: no input makes deserialization crash, hang or recurse without bound.
use serdere::*;
use serdere_json::*;
use vh::free::Free;
use vh::gen::*;
use vh::reader::{Chunked, MonReader};
use vh::run::{on_stack, quiet, show, thread_cpu_ns};
use vh::types::*;
use vh::walk::emsg;
use vh::*;

fn one(rng: &mut Rng, cx: &mut Cx, text: &str) -> Result<(), String> {
    let chars = text.chars().count() as u64;
    for _ in 0..3 {
        cx.evals += 1;
        let mut f = Free::new(rng.fork());
        f.keys = Free::keys_of(text);
        f.wrong = *rng.pick(&[0, 5, 20, 100]);
        f.skip = *rng.pick(&[0, 5, 30]);
        f.shuffle = *rng.pick(&[0, 60, 100]);
        let comments = rng.chance(1, 4);
        let which = rng.below(3);
        let mut steps = (0, 0);
        let r = quiet(|| match which {
            0 => {
                let m = MonReader::new(text);
                let (n, p) = (m.nexts.clone(), m.peeks.clone());
                let r = f.doc(m, comments).map_err(|e| emsg(&e));
                steps = (n.get(), p.get());
                r
            }
            1 => match Utf8Reader::new(Chunked::new(text.as_bytes(), vec![5, 1, 2])) {
                Ok(r) => f.doc(r, comments).map_err(|e| format!("{} at {}", emsg(&e), e.position())),
                Err(e) => Err(e.to_string()),
            },
            _ => f.doc(text, comments).map_err(|e| format!("{} at {}", emsg(&e), e.position())),
        });
        match r {
            Ok(Ok(())) => cx.count("ends_with_value", 1),
            Ok(Err(_)) => cx.count("ends_with_error", 1),
            Err(p) => return Err(format!("panic {} on {} (reader {}, comments {})", p, show(text), which, comments)),
        }
        cx.count("calls", f.calls);
        let (n, p) = steps;
        ensure!(n <= 2 * chars + 4 * f.calls + 64, "{} characters are requested from a text of {} characters with {} calls: {}", n, chars, f.calls, show(text));
        ensure!(p <= 20 * (chars + f.calls) + 200, "{} looks at a text of {} characters with {} calls: {}", p, chars, f.calls, show(text));
    }
    Ok(())
}

fn texts(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let t = hostile(rng);
    cx.distinct_str(&t);
    cx.sample(|| show(&t));
    one(rng, cx, &t)
}

type F = fn(&str) -> Result<bool, String>;
fn typed<T>(text: &str) -> Result<bool, String>
where
    T: for<'s> Deserialize<TextDeserializer<&'s str>>,
{
    quiet(|| from_str::<T>(text).map_err(|e| e.to_string()).is_ok()).map_err(|p| format!("{}: panic {} on {}", std::any::type_name::<T>(), p, show(text)))
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);
type G = fn(&mut Rng) -> String;
fn written<T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>>>(rng: &mut Rng) -> String {
    to_str(&T::gen(rng))
}
macro_rules! wtable {
    ($($t:ty),* $(,)?) => { &[$(written::<$t> as G),*] };
}
const WRITTEN: &[G] = all_types!(wtable);

/// Every type of the family reads mutated texts of its own and of other types.
fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let i = idx as usize % TABLE.len();
    let mut t = match rng.below(4) {
        0 => hostile(rng),
        1 => rng.pick(WRITTEN)(rng),
        _ => WRITTEN[i](rng),
    };
    if rng.chance(9, 10) {
        for _ in 0..rng.range(1, 3) {
            t = mutate(rng, &t);
        }
    }
    cx.distinct_str(&t);
    let ok = TABLE[i](&t)?;
    cx.count(if ok { "ends_with_value" } else { "ends_with_error" }, 1);
    Ok(())
}

type Er<'a> = DeserializeError<StrPosition<'a>>;

/// A deeply nested text; each level is '[' or '{"a":' according to the pattern.
fn nest(rng: &mut Rng, depth: usize, pat: usize, inner: &str, close: bool) -> String {
    let lv = |i: usize| match pat {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        _ => (i * 2654435761) >> 7 & 1 == 1,
    };
    let junk = rng.chance(1, 4);
    let mut t = String::new();
    for i in 0..depth {
        t.push_str(match (lv(i), junk) {
            (false, false) => "[",
            (true, false) => "{\"a\":",
            (false, true) => "[1, ",
            (true, true) => "{\"z\":2,\"a\": ",
        });
    }
    t.push_str(inner);
    if close {
        for i in (0..depth).rev() {
            t.push(if lv(i) { '}' } else { ']' });
        }
    }
    t
}

const STACK: usize = 256 << 10;

/// Deep nesting on a small stack, read iteratively, typed, buffered, dropped midway.
fn deep(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let depth = *rng.pick(&[100usize, 1000, 20_000, 100_000]);
    let depth = if cx.thorough && rng.chance(1, 8) { 1_000_000 } else { depth };
    let pat = rng.below(4);
    let close = rng.chance(3, 4);
    let inner = *rng.pick(&["7", "", "\"s\"", "]", "x", "{}", "[]"]);
    let t = nest(rng, depth, pat, inner, close);
    let wrap = rng.bool();
    let text = if wrap { format!("{{\"v\":{},\"w\":1}}", t) } else { t };
    cx.count("deep_texts", 1);
    cx.max("depth", depth as u64);
    cx.distinct(rng::mix(depth as u64) ^ pat as u64 ^ rng::hash_bytes(inner.as_bytes()) ^ (close as u64) << 9 ^ (wrap as u64) << 10);
    let mut r2 = rng.fork();
    let stop = if rng.bool() { depth * 3 } else { rng.below(depth * 2) };
    let text = &text;
    let res = on_stack(STACK, move || -> Result<&'static str, Er> {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), text.as_str())?;
        if wrap {
            d.open_object()?;
            if r2.bool() {
                // everything is buffered
                d.push_entry("w")?;
                d.skip_value()?;
            }
            d.push_entry("v")?;
        }
        let mut n = 0;
        let by_name = r2.bool();
        let mut open: Vec<bool> = vec![];
        loop {
            n += 1;
            if n > stop {
                // dropped (or skipped) midway
                if r2.bool() {
                    return Ok("dropped");
                }
                d.skip_value()?;
                break;
            }
            match d.peek_value_type() {
                ValueType::Array => {
                    d.open_list()?;
                    open.push(false);
                    let mut found = false;
                    while d.next_item()? {
                        if matches!(d.peek_value_type(), ValueType::Number) && found {
                            d.skip_value()?;
                            continue;
                        }
                        match d.peek_value_type() {
                            ValueType::Array | ValueType::Object => {
                                found = true;
                                break;
                            }
                            _ => d.skip_value()?,
                        }
                    }
                    if !found {
                        open.pop();
                        break;
                    }
                }
                ValueType::Object => {
                    d.open_object()?;
                    open.push(true);
                    if by_name {
                        if !d.try_push_entry("a")? {
                            open.pop();
                            d.skip_object()?;
                            break;
                        }
                    } else {
                        let mut found = false;
                        while d.next_entry()? {
                            if &*d.flush_str()? == "a" {
                                found = true;
                                break;
                            }
                            d.skip_value()?;
                        }
                        if !found {
                            open.pop();
                            break;
                        }
                    }
                }
                _ => {
                    d.skip_value()?;
                    break;
                }
            }
        }
        while let Some(o) = open.pop() {
            if o {
                if r2.bool() {
                    d.skip_object()?;
                } else {
                    d.close_struct()?;
                }
            } else {
                while d.next_item()? {
                    d.skip_value()?;
                }
            }
        }
        if wrap {
            d.close_struct()?;
        }
        d.close()?;
        Ok("read")
    });
    match res {
        Ok(Ok(what)) => cx.count(if what == "read" { "deep_read" } else { "deep_dropped" }, 1),
        Ok(Err(_)) => cx.count("deep_error", 1),
        Err(p) => return Err(format!("{} deep text (pattern {}, inner {:?}, closed {}, wrapped {}): {}", depth, pat, inner, close, wrap, p)),
    }
    // Typed readers meet the deep value at every place
    let i = idx as usize % TABLE.len();
    let doc = WRITTEN[i](rng);
    let mut cut: Vec<usize> = refjson::tokens(&doc).iter().map(|t| t.0).collect();
    cut.push(doc.len());
    let at = *rng.pick(&cut);
    let tail = if rng.bool() { &doc[at..] } else { "" };
    let doc = format!("{}{}{}", &doc[..at], nest(rng, depth, pat, inner, close), tail);
    let doc = &doc;
    on_stack(STACK, move || TABLE[i](doc)).map_err(|p| format!("typed reader {} on a deep text: {}", i, p))??;
    Ok(())
}

/// Long tokens and long runs.
fn long(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = *rng.pick(&[100usize, 3000, 65536, 65537, 300_000]);
    let c = any_char(rng);
    let u: String = match rng.below(18) {
        0 => "9".repeat(n),
        1 => format!("1e{}", "9".repeat(n)),
        2 => format!("0.{}1", "0".repeat(n)),
        3 => format!("1e-{}", "9".repeat(n)),
        4 => format!("\"{}\"", c.to_string().repeat(n)).replace('\\', "/").replace("\"\"", ""),
        5 => format!("\"{}\"", "\\u0041".repeat(n)),
        6 => format!("\"{}", "\\\\".repeat(n)),
        7 => format!("{}1{}", " ".repeat(n), "\n".repeat(n)),
        8 => format!("[{}1]", "1,".repeat(n)),
        9 => format!("{{\"{}\":1}}", "k".repeat(n)),
        10 => format!("/*{}*/1//{}", "*".repeat(n), "/".repeat(n)),
        11 => format!("{}e{}", "1".repeat(n), "0".repeat(n)),
        12 => format!("-{}.{}", "0".repeat(n), "0".repeat(n)),
        // Runs of comments in every kind of gap
        13 | 14 => {
            let c = *rng.pick(&["//\n", "/**/", " //x\n\t", "/* *//**/", "\n/***/"]);
            let c = c.repeat(n);
            match rng.below(8) {
                0 => format!("{}1", c),
                1 => format!("1{}", c),
                2 => format!("[{}1,2]", c),
                3 => format!("[1{},2]", c),
                4 => format!("[1,{}2]", c),
                5 => format!("{{{}\"a\":1,\"type\":2}}", c),
                6 => format!("{{\"a\"{}:1,{}\"type\":2}}", c, c),
                _ => format!("{{\"a\":{}1{},\"type\":2}}", c, c),
            }
        }
        15 => "[]".repeat(n),
        16 => format!("{}1", "[]{}".repeat(n)),
        _ => format!("[{}", "\"\",".repeat(n)),
    };
    let text = match rng.below(4) {
        0 => format!("{{\"v\":{},\"w\":1}}", u),
        1 => format!("{{\"v\":[{}],\"w\":1}}", u),
        2 => format!("{{\"x\":1,\"type\":{}}}", u),
        _ => u,
    };
    cx.count("long_texts", 1);
    cx.max("text_bytes", text.len() as u64);
    cx.distinct_str(&text);
    // No construct other than nested types may take stack in proportion to the input
    on_stack(1 << 20, || {
        one(rng, cx, &text)?;
        for _ in 0..4 {
            TABLE[rng.below(TABLE.len())](&text)?;
        }
        Ok(())
    })?
}

type Shape1 = (&'static str, fn(usize) -> String, for<'a> fn(&'a str) -> Result<(), Er<'a>>);

fn de(t: &str) -> Result<TextDeserializer<&str>, Er<'_>> {
    TextDeserializer::new(TextDeserializerConfig::permissive(), t)
}
fn obj(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut s = String::from("{");
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&f(i));
    }
    s.push('}');
    s
}
fn nums(n: usize) -> String {
    obj(n, |i| format!("\"k{}\":{}", i, i))
}
fn many(s: &str, n: usize) -> String {
    s.repeat(n)
}

/// Reads a wide object by name from its end, with absent keys asked for in between, and skips a third of the entries.
fn by_name<'a>(t: &'a str, keys: impl Fn(usize) -> String) -> Result<(), Er<'a>> {
    let n = t.bytes().filter(|c| *c == b':').count();
    let mut d = de(t)?;
    d.open_object()?;
    for i in (0..n).rev() {
        match i % 3 {
            0 => {
                d.push_entry(&keys(i))?;
                d.get_u64()?;
            }
            1 => {
                d.push_entry(&keys(i))?;
                d.skip_value()?;
                // absent: past the end, or already taken
                if d.try_push_entry(&keys(i + n))? || d.try_push_entry(&keys(i))? {
                    d.get_u64()?;
                }
            }
            _ => (),
        }
    }
    while d.next_entry()? {
        d.skip_str()?;
        d.get_u64()?;
    }
    d.close()
}
fn wide(n: usize, keys: impl Fn(usize) -> String) -> String {
    obj(n, |i| format!("\"{}\":{}", keys(i), i))
}
fn key_prefix(i: usize) -> String {
    format!("a_rather_long_common_prefix_of_attribute_{:07}", i)
}
fn key_suffix(i: usize) -> String {
    format!("{:07}_a_rather_long_common_suffix_of_an_attribute", i)
}
fn key_middle(i: usize) -> String {
    format!("the_beginning_of_the_key_{:07}_and_the_end_of_it", i)
}
fn key_number(i: usize) -> String {
    i.to_string()
}
fn key_wide_chars(i: usize) -> String {
    let mut s = String::from("\u{4e00}");
    for k in 0..8 {
        s.push(char::from_u32(0x4e00 + (i as u32 >> (4 * k) & 15) * 256).unwrap());
    }
    s
}
fn key_permuted(i: usize) -> String {
    // the same characters the same number of times
    let mut s = String::new();
    for k in 0..24 {
        s.push_str(if i >> k & 1 == 1 { "ab" } else { "ba" });
    }
    s
}
fn key_by_length(i: usize) -> String {
    // 64 lengths
    format!("{}{}", "x".repeat(i % 64), i / 64)
}
fn key_spaced(i: usize) -> String {
    (i * 65536).to_string()
}
fn key_escaped(i: usize) -> String {
    format!("\t{:07}\n", i)
}
fn key_escaped_text(i: usize) -> String {
    format!("\\t{:07}\\u000a", i)
}

/// Texts by size together with a way to read them; the work must grow linearly.
const SHAPES: &[Shape1] = &[
    ("skip a wide array", |n| format!("[{}1]", many("1,", n)), |t| {
        let mut d = de(t)?;
        d.skip_value()?;
        d.close()
    }),
    ("read a wide array", |n| format!("[{}1]", many("1,", n)), |t| from_str::<Vec<u64>>(t).map(drop)),
    ("read an array of strings", |n| format!("[{}\"\"]", many("\"a\\n\",", n)), |t| from_str::<Vec<String>>(t).map(drop)),
    ("skip a wide object", nums, |t| {
        let mut d = de(t)?;
        d.skip_value()?;
        d.close()
    }),
    ("read a wide object in order", nums, |t| {
        let mut d = de(t)?;
        d.open_object()?;
        while d.next_entry()? {
            d.flush_str()?;
            d.get_u64()?;
        }
        d.close()
    }),
    ("read a wide object by name in order", nums, |t| {
        let mut d = de(t)?;
        d.open_object()?;
        for i in 0..t.bytes().filter(|c| *c == b'"').count() / 2 {
            d.push_entry(&format!("k{}", i))?;
            d.get_u64()?;
        }
        d.close_object()?;
        d.close()
    }),
    ("read a wide object by name in reverse", nums, |t| {
        let mut d = de(t)?;
        d.open_object()?;
        for i in (0..t.bytes().filter(|c| *c == b'"').count() / 2).rev() {
            d.push_entry(&format!("k{}", i))?;
            d.get_u64()?;
        }
        d.close_object()?;
        d.close()
    }),
    ("read a buffered wide object alternately by name from its end and in order", nums, |t| {
        let mut d = de(t)?;
        d.open_object()?;
        let n = t.bytes().filter(|c| *c == b'"').count() / 2;
        for i in (n / 2..n).rev() {
            d.push_entry(&format!("k{}", i))?;
            d.get_u64()?;
            if i > n / 2 {
                d.next_entry()?;
                d.flush_str()?;
                d.get_u64()?;
            }
        }
        d.skip_object()?;
        d.close()
    }),
    ("read a buffered wide object by name in order, then the next entries", nums, |t| {
        let mut d = de(t)?;
        d.open_object()?;
        let n = t.bytes().filter(|c| *c == b'"').count() / 2;
        d.push_entry(&format!("k{}", n - 1))?;
        d.get_u64()?;
        for i in 0..n / 2 {
            // every second one by name, leaving consumed gaps
            d.push_entry(&format!("k{}", 2 * i + 1 - (2 * i + 1 == n - 1) as usize))?;
            d.get_u64()?;
        }
        while d.next_entry()? {
            d.skip_str()?;
            d.skip_value()?;
        }
        d.close()
    }),
    ("take the first entry of a buffered object by name from the front, asking for the next in between", nums, |t| {
        let mut d = de(t)?;
        d.open_object()?;
        let n = t.bytes().filter(|c| *c == b'"').count() / 2;
        d.push_entry(&format!("k{}", n - 1))?;
        d.get_u64()?;
        let mut i = 0;
        while i + 1 < n - 1 {
            d.push_entry(&format!("k{}", i + 1))?;
            d.get_u64()?;
            d.next_entry()?;
            d.skip_str()?;
            d.get_u64()?;
            i += 2;
        }
        d.skip_object()?;
        d.close()
    }),
    ("skip a buffered wide object", |n| format!("{{\"v\":{},\"w\":1}}", nums(n)), |t| {
        let mut d = de(t)?;
        d.open_object()?;
        d.push_entry("w")?;
        d.get_u64()?;
        d.push_entry("v")?;
        d.skip_value()?;
        d.close_object()?;
        d.close()
    }),
    ("ask a buffered object for absent keys", nums, |t| {
        let mut d = de(t)?;
        d.open_object()?;
        for i in 0..t.len() / 10 {
            d.try_push_entry(&format!("x{}", i))?;
        }
        d.skip_object()?;
        d.close()
    }),
    ("structs read out of order from an array", |n| format!("[{}{{\"y\":2,\"x\":1}}]", many("{\"y\":1.5,\"junk\":[1],\"x\":3},", n)), |t| {
        from_str::<Vec<P2>>(t).map(drop)
    }),
    ("structs read from a buffered array", |n| format!("{{\"w\":[{}{{\"y\":2,\"x\":1}}],\"v\":{{\"x\":1,\"y\":1}}}}", many("{\"y\":1.5,\"junk\":[1],\"x\":3},", n)), |t| {
        from_str::<Gen1<P2>>(t).map(drop)
    }),
    ("many unknown keys of a struct", |n| obj(n + 2, |i| if i == n { "\"y\":1".into() } else if i == n + 1 { "\"x\":1".into() } else { format!("\"k{}\":[{{}}]", i) }), |t| {
        from_str::<P2>(t).map(drop)
    }),
    ("skip deep arrays", |n| many("[", n) + &many("]", n), |t| {
        let mut d = de(t)?;
        d.skip_value()?;
        d.close()
    }),
    ("skip deep objects", |n| many("{\"a\":", n) + "1" + &many("}", n), |t| {
        let mut d = de(t)?;
        d.skip_value()?;
        d.close()
    }),
    ("descend into deep arrays", |n| many("[", n) + "1" + &many("]", n), |t| {
        let mut d = de(t)?;
        let n = t.len() / 2;
        for _ in 0..n {
            d.open_list()?;
            d.push_item()?;
        }
        d.get_u8()?;
        for _ in 0..n {
            d.close_list()?;
        }
        d.close()
    }),
    ("descend into deep objects by name, each buffered by its last entry", |n| many("{\"a\":", n) + "1" + &many(",\"b\":2}", n), |t| {
        let mut d = de(t)?;
        let n = t.bytes().filter(|c| *c == b'{').count();
        for _ in 0..n {
            d.open_object()?;
            d.push_entry("b")?;
            d.get_u8()?;
            d.push_entry("a")?;
        }
        d.get_u8()?;
        for _ in 0..n {
            d.close_object()?;
        }
        d.close()
    }),
    ("descend into deep buffered arrays", |n| format!("{{\"a\":{}1{},\"b\":1}}", many("[", n), many("]", n)), |t| {
        let mut d = de(t)?;
        let n = t.bytes().filter(|c| *c == b'[').count();
        d.open_object()?;
        d.push_entry("b")?;
        d.get_u8()?;
        d.push_entry("a")?;
        for _ in 0..n {
            d.open_list()?;
            d.next_item()?;
        }
        d.get_u8()?;
        for _ in 0..n {
            d.close_list()?;
        }
        d.close_object()?;
        d.close()
    }),
    ("read the outer entries of deep objects after the inner ones", |n| many("{\"a\":", n) + "1" + &many(",\"b\":2}", n), |t| {
        let mut d = de(t)?;
        let n = t.bytes().filter(|c| *c == b'{').count();
        for _ in 0..n {
            d.open_object()?;
            d.push_entry("a")?;
        }
        d.get_u8()?;
        for _ in 0..n {
            d.push_entry("b")?;
            d.get_u8()?;
            d.close_object()?;
        }
        d.close()
    }),
    ("absent keys at every level of deep objects", |n| many("{\"a\":", n) + "1" + &many("}", n), |t| {
        let mut d = de(t)?;
        let n = t.bytes().filter(|c| *c == b'{').count();
        for _ in 0..n {
            d.open_object()?;
            d.try_push_entry("x")?;
            d.push_entry("a")?;
        }
        d.get_u8()?;
        for _ in 0..n {
            d.try_push_entry("x")?;
            d.close_object()?;
        }
        d.close()
    }),
    ("read a long string", |n| format!("\"{}\"", many("abcdefgh\\n\u{e9}", n)), |t| from_str::<String>(t).map(drop)),
    ("read a long string by characters", |n| format!("\"{}\"", many("abcdefgh\\n\u{e9}", n)), |t| {
        let mut d = de(t)?;
        d.open_str()?;
        while d.next_char()?.is_some() {}
        d.close()
    }),
    ("read a long buffered string by characters", |n| format!("{{\"a\":\"{}\",\"b\":1}}", many("abcdefgh\\n\u{e9}", n)), |t| {
        let mut d = de(t)?;
        d.open_object()?;
        d.push_entry("b")?;
        d.get_u8()?;
        d.push_entry("a")?;
        d.open_str()?;
        while d.next_char()?.is_some() {}
        d.close_object()?;
        d.close()
    }),
    ("skip a long string", |n| format!("\"{}\"", many("abcdefgh\\n\u{e9}", n)), |t| {
        let mut d = de(t)?;
        d.skip_value()?;
        d.close()
    }),
    ("skip a long unfinished string", |n| format!("\"{}", many("abcdefgh\\n\u{e9}", n)), |t| {
        let mut d = de(t)?;
        let _ = d.skip_value();
        Ok(())
    }),
    ("a long number", |n| many("1234567890", n), |t| {
        from_str::<f64>(t)?;
        let _ = from_str::<u64>(t);
        let _ = de(t)?.read_number::<u128>();
        Ok(())
    }),
    ("a long fraction", |n| format!("0.{}e{}", many("0", n), many("0", n)), |t| from_str::<f64>(t).map(drop)),
    ("a long number with an exponent that cancels it", |n| format!("1{}e-{}", many("0", n), n), |t| from_str::<f64>(t).map(drop)),
    ("a long buffered number", |n| format!("{{\"y\":{}.5,\"x\":1}}", many("1234567890", n)), |t| from_str::<P2>(t).map(drop)),
    ("whitespace", |n| format!("{}[1{}]", many(" \n\t\r", n), many("\n", n)), |t| from_str::<Vec<u8>>(t).map(drop)),
    ("comments", |n| format!("{}[1{}]", many("/**//*x*/", n), many("//\n", n)), |t| {
        let mut d = de(t)?;
        d.skip_value()?;
        d.close()
    }),
    ("one long comment", |n| format!("/*{}*/1", many("* /", n)), |t| {
        let mut d = de(t)?;
        d.skip_value()?;
        d.close()
    }),
    ("long keys", |n| format!("{{\"{0}a\":1,\"{0}b\":2,\"{0}c\":3}}", many("k", n)), |t| {
        let mut d = de(t)?;
        let n = (t.len() - 16) / 3;
        d.open_object()?;
        for s in ["c", "a", "b"] {
            let _ = d.try_push_entry(&format!("{}{}", "k".repeat(n), s))? && {
                d.get_u8()?;
                true
            };
        }
        d.skip_object()?;
        d.close()
    }),
    ("many small objects in a buffered array, all keys equal", |n| format!("{{\"v\":[{}{{}}],\"w\":1}}", many("{\"a\":1,\"b\":2},", n)), |t| {
        let mut d = de(t)?;
        d.open_object()?;
        d.push_entry("w")?;
        d.get_u8()?;
        d.push_entry("v")?;
        d.open_list()?;
        while d.next_item()? {
            d.open_object()?;
            if d.try_push_entry("b")? {
                d.get_u8()?;
            }
            if d.try_push_entry("a")? {
                d.get_u8()?;
            }
            d.close_object()?;
        }
        d.close_object()?;
        d.close()
    }),
    ("duplicate keys in document order", |n| obj(n, |i| format!("\"a\":{}", i)), |t| {
        let mut d = de(t)?;
        d.open_object()?;
        while d.next_entry()? {
            d.flush_str()?;
            d.get_u64()?;
        }
        d.close()
    }),
    ("a wide object by name, keys with a long common prefix", |n| wide(n, key_prefix), |t| by_name(t, key_prefix)),
    ("a wide object by name, keys with a long common suffix", |n| wide(n, key_suffix), |t| by_name(t, key_suffix)),
    ("a wide object by name, keys with a common beginning and end", |n| wide(n, key_middle), |t| by_name(t, key_middle)),
    ("a wide object by name, keys which are numbers", |n| wide(n, key_number), |t| by_name(t, key_number)),
    ("a wide object by name, keys of wide characters", |n| wide(n, key_wide_chars), |t| by_name(t, key_wide_chars)),
    ("a wide object by name, keys which are permutations", |n| wide(n, key_permuted), |t| by_name(t, key_permuted)),
    ("a wide object by name, keys of many lengths", |n| wide(n, key_by_length), |t| by_name(t, key_by_length)),
    ("a wide object by name, keys which are multiples", |n| wide(n, key_spaced), |t| by_name(t, key_spaced)),
    ("a wide object by name, keys with escapes", |n| wide(n, key_escaped_text), |t| by_name(t, key_escaped)),
    ("objects in a buffered object, all with the same long keys", |n| format!("{{\"v\":{},\"w\":1}}", obj(n, |i| format!("\"k{}\":{{\"a_long_key_1\":1,\"a_long_key_2\":2,\"a_long_key_3\":3}}", i))), |t| {
        let mut d = de(t)?;
        d.open_object()?;
        d.push_entry("w")?;
        d.get_u8()?;
        d.push_entry("v")?;
        d.open_object()?;
        for i in (0..t.bytes().filter(|c| *c == b'{').count() - 2).rev() {
            d.push_entry(&format!("k{}", i))?;
            d.open_object()?;
            for k in ["a_long_key_3", "a_long_key_1", "a_long_key_4", "a_long_key_2"] {
                if d.try_push_entry(k)? {
                    d.get_u8()?;
                }
            }
            d.close_object()?;
        }
        d.close_object()?;
        d.close_object()?;
        d.close()
    }),
    ("arrays in a buffered array", |n| format!("{{\"v\":[{}[]],\"w\":1}}", many("[[1],[2,3],{\"a\":[]}],", n)), |t| {
        let mut d = de(t)?;
        d.open_object()?;
        d.push_entry("w")?;
        d.get_u8()?;
        d.push_entry("v")?;
        d.open_list()?;
        while d.next_item()? {
            d.open_list()?;
            if d.next_item()? {
                d.open_list()?;
                d.push_item()?;
                d.get_u8()?;
                d.close_list()?;
                d.push_item()?;
                d.skip_value()?;
                d.push_item()?;
                d.skip_value()?;
                d.close_list()?;
            }
        }
        d.close_object()?;
        d.close()
    }),
    ("one wide object after the other, each buffered", |n| format!("[{}]", vec![wide(50, key_number); n / 50 + 1].join(",")), |t| {
        let mut d = de(t)?;
        d.open_list()?;
        while d.next_item()? {
            d.open_object()?;
            for i in (0..50).rev() {
                d.push_entry(&key_number(i))?;
                d.get_u64()?;
            }
            d.close_object()?;
        }
        d.close()
    }),
    // The one known to be quadratic: must stay the last
    ("duplicate keys, buffered", |n| obj(n + 1, |i| if i == n { "\"b\":1".into() } else { format!("\"a\":{}", i) }), |t| {
        let mut d = de(t)?;
        d.open_object()?;
        d.push_entry("b")?;
        d.get_u64()?;
        d.skip_object()?;
        d.close()
    }),
];

fn cpu(shape: &Shape1, text: &str, k: usize) -> Result<u64, String> {
    let mut best = u64::MAX;
    for _ in 0..k {
        // Little stack: nothing recurses over items
        let r = on_stack(STACK, || {
            let a = thread_cpu_ns();
            let r = shape.2(text).map_err(|e| emsg(&e));
            (r, thread_cpu_ns() - a)
        });
        let t = match r {
            Ok((Ok(()), t)) => t,
            Ok((Err(e), _)) => return Err(format!("{}: {} on {}", shape.0, e, show(text))),
            Err(p) => return Err(format!("{}: panic {} on {}", shape.0, p, show(text))),
        };
        best = best.min(t);
    }
    Ok(best)
}

/// CPU time grows linearly with the size of the input.
fn scaling(_: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let i = idx as usize % SHAPES.len();
    let s = &SHAPES[i];
    let last = i + 1 == SHAPES.len();
    let (n, f) = if last { (3000, 8) } else { (5000, 8) };
    let f = if cx.thorough && !last { 64 } else { f };
    let (small, big) = (s.1(n), s.1(n * f));
    cx.distinct_str(s.0);
    cx.count("scalings", 1);
    let mut worst = (0, 0, 0.0);
    // A violation must show five times in a row
    for _ in 0..5 {
        let a = cpu(s, &small, 3)?.max(20_000);
        let b = cpu(s, &big, 1)?;
        let ratio = b as f64 / a as f64;
        cx.max("ratio_percent_of_linear", if last { 0 } else { (ratio / f as f64 * 100.0) as u64 });
        if b < 30_000_000 || ratio < 3.5 * f as f64 {
            return Ok(());
        }
        worst = (a, b, ratio);
    }
    let m = format!("{}: {} times the input takes {:.0} times the time ({} us, {} us)", s.0, f, worst.2, worst.0 / 1000, worst.1 / 1000);
    if last {
        cx.known("quadratic-duplicate-keys", || m);
        return Ok(());
    }
    Err(m)
}

/// Every short text over an alphabet of structural characters.
fn exhaustive(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    const A: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "\"", "1", "-", "e", ".", "n", "null", "\\", "/", "*", " "];
    let n = A.len() as u64;
    // all texts of length 4, in blocks with a random continuation
    let mut i = idx;
    let mut t = String::new();
    for _ in 0..4 {
        t.push_str(A[(i % n) as usize]);
        i /= n;
    }
    if rng.chance(1, 3) {
        t.push_str(*rng.pick(A));
    }
    cx.count("short_texts", 1);
    one(rng, cx, &t)?;
    let k = rng.below(TABLE.len());
    TABLE[k](&t)?;
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C08",
        level: "exploration",
        rule: "hostile texts (token soup, mutated and truncated documents, all short token sequences, very long tokens) under random call sequences with fitting and unfitting reads and step counting; every type of the family on mutated texts; nesting up to 100000 (1000000 thorough) on a 256 KiB stack; CPU scaling of all shapes of large input, on that stack too; distinct by text",
        assumptions: &["work is measured as reader steps and as CPU time of an 8-fold (64-fold thorough) enlarged input", "chosen-collision attacks on the hash function are out of scope"],
        phases: vec![
            Phase { name: "texts", quick: 400000, thorough: 0, f: texts },
            Phase { name: "types", quick: 800000, thorough: 0, f: types },
            Phase { name: "exhaustive", quick: 104976, thorough: 104976 * 4, f: exhaustive },
            Phase { name: "deep", quick: 500, thorough: 8000, f: deep },
            Phase { name: "long", quick: 400, thorough: 6000, f: long },
            Phase { name: "scaling", quick: SHAPES.len() as u64, thorough: SHAPES.len() as u64 * 2, f: scaling },
        ],
        floors: &[("ends_with_value", 500), ("ends_with_error", 500), ("deep_read", 4), ("deep_dropped", 4), ("long_texts", 50), ("scalings", 10)],
        hang_cpu_s: 60,
    });
}
