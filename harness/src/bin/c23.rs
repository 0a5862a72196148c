//! C23: no undefined behaviour, no invalid strings, no leaks.
//!
//! Three layers: (1) natively, every string and character the library hands out is checked for
//! validity in large workloads that include arbitrary (also illegal) call orders; (2) those
//! workloads and the ones of other monitors run under AddressSanitizer with leak detection; (3)
//! and, reduced, under Miri.
use serdere::*;
use serdere_json::*;
use std::collections::VecDeque;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vh::free::Free;
use vh::gen::*;
use vh::reader::{Chunked, Sink};
use vh::run::{conclude, quiet, show, supervise, verif_dir};
use vh::types::*;
use vh::walk::intern;
use vh::*;

/// Is this really text? (`str` operations assume it.)
fn text_ok(s: &str, what: &str, ctx: &str) -> Result<(), String> {
    let b: &[u8] = std::hint::black_box(s.as_bytes());
    match std::str::from_utf8(b) {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("{} is not valid UTF-8 ({}): {:?} from {}", what, e, &b[..b.len().min(80)], ctx)),
    }
}

fn char_ok(c: char, what: &str, ctx: &str) -> Result<(), String> {
    let n = std::hint::black_box(c) as u32;
    ensure!(n < 0xd800 || (0xe000..0x110000).contains(&n), "{} is not a character: {:#x} from {}", what, n, ctx);
    Ok(())
}

/// A text reader that ends runaway loops.
struct Fuse<R> {
    r: R,
    left: std::cell::Cell<u64>,
}
impl<R> Fuse<R> {
    fn burn(&self) {
        let n = self.left.get();
        if n == 0 {
            panic!("fuse");
        }
        self.left.set(n - 1);
    }
}
impl<R: TextReader> TextReader for Fuse<R> {
    type Position = R::Position;
    fn next(&mut self) -> Option<char> {
        self.burn();
        self.r.next()
    }
    fn peek(&self) -> Option<char> {
        self.burn();
        self.r.peek()
    }
    fn position(&self) -> R::Position {
        self.r.position()
    }
}

/// A small document and its keys, made cheaply (for the interpreters).
fn tiny(rng: &mut Rng) -> (String, Vec<String>) {
    const STR: &[(&str, &str)] = &[
        ("", ""),
        ("a", "a"),
        ("é", "é"),
        ("\\u00e9", "é"),
        ("\\ud83d\\ude00", "😀"),
        ("漢\\n", "漢\n"),
        ("value", "value"),
        ("\\u0061b", "ab"),
        ("😀\u{10ffff}", "😀\u{10ffff}"),
        ("\\\\\\\"\\/", "\\\"/"),
        ("has_value", "has_value"),
        ("xé漢😀yé漢😀zé漢😀", "xé漢😀yé漢😀zé漢😀"),
    ];
    const NUM: &[&str] = &["0", "-1", "255", "1.5e3", "12345678901234567890", "-0.0", "1e400", "9007199254740993", "0.1234567890123456789012345678901234567890"];
    fn val(rng: &mut Rng, out: &mut String, keys: &mut Vec<String>, depth: usize, left: &mut usize) {
        *left = left.saturating_sub(1);
        let k = if depth > 5 || *left == 0 { rng.below(5) } else { rng.below(10) };
        let gap = |rng: &mut Rng, out: &mut String| {
            if rng.chance(1, 6) {
                out.push_str(*rng.pick(&[" ", "\n", "\t\t", "\r\n "]))
            }
        };
        match k {
            0 => out.push_str(*rng.pick(&["null", "true", "false"])),
            1 | 2 => out.push_str(*rng.pick(NUM)),
            3 | 4 => {
                out.push('"');
                out.push_str(rng.pick(STR).0);
                out.push('"');
            }
            5 | 6 => {
                out.push('[');
                for i in 0..rng.below(4) {
                    if i > 0 {
                        out.push(',');
                    }
                    gap(rng, out);
                    val(rng, out, keys, depth + 1, left);
                }
                out.push(']');
            }
            _ => {
                out.push('{');
                for i in 0..rng.below(5) {
                    if i > 0 {
                        out.push(',');
                    }
                    gap(rng, out);
                    let s = rng.pick(STR);
                    out.push('"');
                    out.push_str(s.0);
                    out.push_str("\":");
                    keys.push(s.1.to_string());
                    gap(rng, out);
                    val(rng, out, keys, depth + 1, left);
                }
                out.push('}');
            }
        }
    }
    let (mut out, mut keys) = (String::new(), vec![]);
    let mut left = *rng.pick(&[2, 6, 12]);
    val(rng, &mut out, &mut keys, 0, &mut left);
    (out, keys)
}

fn source(rng: &mut Rng) -> (String, Vec<String>) {
    if cfg!(miri) || rng.chance(1, 3) {
        let (mut t, keys) = tiny(rng);
        if rng.chance(1, 6) && !t.is_empty() {
            // Cut or damaged
            let i = rng.below(t.chars().count());
            t = t.chars().take(i).chain(if rng.bool() { any_char(rng).to_string() } else { String::new() }.chars()).collect();
        }
        return (t, keys);
    }
    let o = DocOpts { max_nodes: *rng.pick(&[3, 10, 30, 60]), ..Default::default() };
    let c = rng.chance(1, 3);
    let st = Style::random(rng, c);
    let mut t = if rng.chance(1, 8) { hostile(rng) } else { doc_text(rng, &o, &st).0 };
    if rng.chance(1, 4) {
        t = mutate(rng, &t);
    }
    let keys = Free::keys_of(&t);
    (t, keys)
}

fn table() -> &'static NameMap<usize> {
    static T: FixedNameMap<usize, 6> = FixedNameMap::new([("", 0), ("a", 1), ("ab", 2), ("é", 3), ("\u{10ffff}", 4), ("value", 5)]);
    T.unfix()
}

#[derive(Debug)]
struct Mine;
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("mine")
    }
}
impl std::error::Error for Mine {}

/// What seems to be on top of the deserializer's stack.
#[derive(Clone, Copy, PartialEq)]
enum G {
    Val,
    Str,
    Obj,
    Tup,
    List,
}

/// Calls that may be sensible, given a guess of the stack.
fn sensible<R: TextReader>(d: &TextDeserializer<Fuse<R>>, g: &[G], rng: &mut Rng) -> usize {
    match g.last() {
        None => rng.below(46),
        Some(G::Val) => match quiet(|| d.peek_value_type()) {
            Ok(ValueType::Null) => *rng.pick(&[22, 23, 38]),
            Ok(ValueType::Bool) => *rng.pick(&[0, 0, 38]),
            Ok(ValueType::Number) => *rng.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 38]),
            Ok(ValueType::String) => *rng.pick(&[10, 16, 17, 20, 24, 24, 24, 21, 38]),
            Ok(ValueType::Array) => *rng.pick(&[30, 33, 33, 38]),
            Ok(ValueType::Object) => *rng.pick(&[27, 27, 27, 27, 38]),
            Err(_) => rng.below(46),
        },
        Some(G::Str) => *rng.pick(&[11, 12, 13, 11, 12, 13, 15, 18, 19, 26]),
        Some(G::Obj) => *rng.pick(&[28, 29, 39, 39, 40, 41, 41, 42, 43, 44]),
        Some(G::Tup) => *rng.pick(&[31, 31, 32]),
        Some(G::List) => *rng.pick(&[35, 35, 36, 37]),
    }
}

/// Updates the guess after a call that succeeded.
fn follow(op: usize, yes: bool, g: &mut Vec<G>) {
    match op {
        0..=10 | 16 | 17 | 20 | 21 | 23 | 38 | 15 | 18 | 19 | 26 | 29 | 32 | 37 | 44 => {
            g.pop();
        }
        22 if yes => {
            g.pop();
        }
        11..=14 if !yes => {
            g.pop();
        }
        24 | 25 => {
            g.pop();
            g.push(G::Str);
        }
        27 => {
            g.pop();
            g.push(G::Obj);
        }
        30 => {
            g.pop();
            g.push(G::Tup);
        }
        33 | 34 => {
            g.pop();
            g.push(G::List);
        }
        28 | 31 | 36 => g.push(G::Val),
        35 if yes => g.push(G::Val),
        39 | 40 if yes => {
            g.push(G::Val);
            g.push(G::Str);
        }
        41 | 42 if yes => g.push(G::Val),
        35 | 39 | 40 => {
            g.pop();
        }
        _ => (),
    }
}

/// One call of any kind, whatever the state. The result is `None` for an error,
/// else the call's answer.
fn any_call<R: TextReader>(d: &mut TextDeserializer<Fuse<R>>, op: usize, rng: &mut Rng, keys: &[String], trace: &mut String, ctx: &str) -> Result<Option<bool>, String> {
    let name = *rng.pick(&["a", "", "value", "has_value", "é", "nope"]);
    let key = if keys.is_empty() || rng.chance(1, 3) { key(rng) } else { rng.pick(keys).clone() };
    let key = match rng.below(12) {
        0 => format!("{}x", key),
        1 => key.chars().skip(1).collect(),
        _ => key,
    };
    if trace.len() < 3000 {
        trace.push_str(&format!("{} ", op));
    }
    let stat = intern(if rng.bool() { name } else { &key });
    let err = |e: DeserializeError<R::Position>| -> Result<Option<bool>, String> {
        text_ok(&e.message().to_string(), "error message", ctx)?;
        text_ok(&e.to_string(), "error text", ctx)?;
        std::hint::black_box(format!("{:?}", e));
        Ok(None)
    };
    macro_rules! go {
        ($e:expr) => {
            match $e {
                Ok(v) => {
                    std::hint::black_box(&v);
                    Ok(Some(true))
                }
                Err(e) => err(e),
            }
        };
        ($e:expr, $v:ident => $then:expr) => {
            match $e {
                Ok($v) => {
                    $then?;
                    Ok(Some(true))
                }
                Err(e) => err(e),
            }
        };
    }
    macro_rules! ask {
        ($e:expr) => {
            match $e {
                Ok(v) => Ok(Some(v)),
                Err(e) => err(e),
            }
        };
    }
    match op {
        0 => go!(d.get_bool()),
        1 => go!(d.get_i8()),
        2 => go!(d.get_u16()),
        3 => go!(d.get_i32()),
        4 => go!(d.get_u64()),
        5 => go!(d.get_i64()),
        6 => go!(d.get_f32()),
        7 => go!(d.get_f64()),
        8 => go!(d.read_number::<u128>()),
        9 => go!(d.read_number::<i128>()),
        10 => go!(d.get_char(), c => char_ok(c, "get_char", ctx)),
        11..=14 => match d.next_char() {
            Ok(None) => Ok(Some(false)),
            Ok(Some(c)) => char_ok(c, "next_char", ctx).map(|_| Some(true)),
            Err(e) => err(e),
        },
        15 => go!(d.flush_str(), s => text_ok(&s, "flush_str", ctx)),
        16 | 17 => go!(d.read_str(), s => text_ok(&s, "read_str", ctx)),
        18 => go!(d.skip_str()),
        19 => go!(d.flush_name(table())),
        20 => go!(d.get_name(table())),
        21 => go!(d.get_tag(6, table())),
        22 => ask!(d.check_null()),
        23 => go!(d.pop_null()),
        24 | 25 => go!(d.open_str()),
        26 => go!(d.close_str()),
        27 => go!(d.open_struct(None)),
        28 => go!(d.push_field(stat)),
        29 => go!(d.close_struct()),
        30 => go!(d.open_tuple(None)),
        31 => go!(d.push_element()),
        32 => go!(d.close_tuple()),
        33 | 34 => go!(d.open_list()),
        35 => ask!(d.next_item()),
        36 => go!(d.push_item()),
        37 => go!(d.close_list()),
        38 => go!(d.skip_value()),
        39 | 40 => ask!(d.next_entry()),
        41 | 42 => ask!(d.try_push_entry(&key)),
        43 => {
            d.push_null(if rng.bool() { Some(stat) } else { None });
            Ok(Some(true))
        }
        44 => {
            std::hint::black_box((d.peek_value_type(), d.supports_null()));
            go!(d.skip_object())
        }
        _ => {
            let e = match rng.below(5) {
                0 => d.error(Box::new(Mine)),
                1 => d.error_missing_entry(key),
                2 => d.error_extra_entry(key),
                3 => d.error_invalid_name(table()),
                _ => d.error_missing_item(),
            };
            err(e)
        }
    }
}

fn abuse_with<R: TextReader>(rng: &mut Rng, cx: &mut Cx, r: R, cfg: TextDeserializerConfig, keys: &[String], ctx: &str) -> Result<(), String> {
    let fuse = Fuse { r, left: std::cell::Cell::new(20_000) };
    let mut trace = String::new();
    let d = quiet(|| TextDeserializer::new(cfg, fuse));
    let Ok(Ok(mut d)) = d else {
        cx.count("abuse_no_start", 1);
        return Ok(());
    };
    let n = rng.range(1, 60);
    // How much trouble ends the run
    let mut patience = rng.below(6);
    let (mut oks, mut errs, mut panics) = (0, 0, 0);
    let mut g = vec![G::Val];
    let wild = *rng.pick(&[0, 2, 10, 30, 100]);
    for _ in 0..n {
        if g.is_empty() && rng.chance(3, 4) {
            break;
        }
        let op = if rng.chance(wild, 100) { rng.below(46) } else { sensible(&d, &g, rng) };
        let r = quiet(|| any_call(&mut d, op, rng, keys, &mut trace, ctx));
        match r {
            Ok(Ok(Some(yes))) => {
                oks += 1;
                follow(op, yes, &mut g);
            }
            Ok(Ok(None)) => {
                errs += 1;
                if patience == 0 {
                    break;
                }
                patience -= 1;
            }
            Ok(Err(m)) => return Err(format!("{} (calls {})", m, trace)),
            Err(p) => {
                panics += 1;
                if p.starts_with("fuse") || patience == 0 {
                    break;
                }
                patience -= 1;
            }
        }
    }
    cx.count("abuse_calls_ok", oks);
    cx.count("abuse_calls_refused", errs);
    cx.count("abuse_calls_panicked", panics);
    let close = rng.bool();
    let _ = quiet(|| {
        if close {
            let _ = d.close();
        } else {
            drop(d)
        }
    });
    Ok(())
}

fn corrupt(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..rng.below(4) {
        if b.is_empty() {
            return;
        }
        let i = rng.below(b.len());
        match rng.below(4) {
            0 => b[i] = rng.u64() as u8,
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, *rng.pick(&[0x80, 0xc3, 0xed, 0xe2, 0xf0, 0xf4, 0xff, 0xa0, 0xbf])),
            _ => {
                let tail: &[u8] = rng.pick(&[&b"\xed\xa0\x80"[..], b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\xf0\x80\x80\x80", b"\xed\xbf\xbf"]);
                for (k, x) in tail.iter().enumerate() {
                    b.insert(i + k, *x);
                }
            }
        }
    }
}

/// Any calls in any order, also after errors and panics.
fn abuse(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let (t, keys) = source(rng);
    let cfg = if rng.bool() { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    cx.distinct_str(&t);
    cx.sample(|| show(&t));
    if rng.chance(2, 3) {
        abuse_with(rng, cx, t.as_str(), cfg, &keys, &show(&t))
    } else {
        let mut b = t.into_bytes();
        if rng.bool() {
            corrupt(rng, &mut b);
        }
        let mut src = Chunked::new(&b, vec![rng.range(1, 9)]);
        src.interrupt = *rng.pick(&[0, 3]);
        match quiet(|| Utf8Reader::new(src)) {
            Ok(Ok(r)) => abuse_with(rng, cx, r, cfg, &keys, &format!("{:?}", String::from_utf8_lossy(&b))),
            _ => Ok(()),
        }
    }
}

/// Legal walks, stopped anywhere, over valid, broken and badly encoded input.
fn walks(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let (t, keys) = source(rng);
    cx.distinct_str(&t);
    let mut f = Free::new(rng.fork());
    f.keys = keys;
    f.wrong = *rng.pick(&[0, 5, 30]);
    f.skip = *rng.pick(&[0, 10, 40]);
    f.shuffle = *rng.pick(&[0, 60, 100]);
    f.log = Some(String::new());
    if rng.bool() {
        f.stop_at = rng.below(20) as u64;
    }
    let comments = rng.bool();
    if rng.bool() {
        let _ = quiet(|| f.doc(t.as_str(), comments).map_err(|e| e.to_string()));
    } else {
        let mut b = t.clone().into_bytes();
        corrupt(rng, &mut b);
        let src = Chunked::new(&b, vec![rng.range(1, 9)]);
        let _ = quiet(|| match Utf8Reader::new(src) {
            Ok(r) => f.doc(r, comments).map_err(|e| e.to_string()),
            Err(e) => Err(e.to_string()),
        });
    }
    cx.count("walk_calls", f.calls);
    // Names and strings seen, copied byte by byte into the log
    text_ok(&f.log.unwrap(), "a string read", &show(&t))
}

/// Number builders of all sizes (inline and heap storage).
fn numbers(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let mut t = if rng.bool() { number(rng) } else { String::new() };
    if t.is_empty() {
        let n = *rng.pick(&[1, 5, 14, 15, 16, 17, 18, 20, 22, 23, 24, 25, 31, 32, 33, 39, 40, 63, 64, 65, 300]);
        let n = rng.range(n.max(2) - 1, n + 2);
        if rng.bool() {
            t.push('-');
        }
        t.push(*rng.pick(&['0', '1', '9']));
        if t.ends_with('0') {
            t.push('.');
        }
        let point = rng.below(n);
        for i in 0..n {
            if i == point && !t.contains('.') {
                t.push('.');
            }
            t.push(char::from(b'0' + rng.below(10) as u8));
        }
        if t.ends_with('.') {
            t.push('0');
        }
        if rng.bool() {
            t.push_str(&format!("e{}", rng.range(0, 700) as i64 - 350));
        }
    }
    cx.distinct_str(&t);
    cx.sample(|| show(&t));
    let list = format!("[{}]", t);
    macro_rules! all {
        ($($t:ty)*) => {$(if !cfg!(miri) || rng.chance(1, 4) {
            if let Ok(Ok(x)) = quiet(|| from_str::<$t>(&t)) {
                let s = to_str(&x);
                text_ok(&s, "number text", &t)?;
                std::hint::black_box(from_str::<$t>(&s).is_ok());
            }
            let _ = quiet(|| from_str::<Vec<$t>>(&list).is_ok());
            cx.count("numbers_read", 2);
        })*};
    }
    all!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64);
    let _ = quiet(|| TextDeserializer::new(TextDeserializerConfig::strict(), t.as_str()).and_then(|mut d| d.read_number::<u128>()).is_ok());
    let _ = quiet(|| TextDeserializer::new(TextDeserializerConfig::strict(), t.as_str()).and_then(|mut d| d.read_number::<i128>()).is_ok());
    Ok(())
}

/// Strings of all lengths by every way of reading.
fn strings(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    fn one<R: TextReader>(rng: &mut Rng, cx: &mut Cx, r: R, mode: usize, keys: &[String], ctx: &str) -> Result<(), String> {
        let Ok(mut d) = TextDeserializer::new(TextDeserializerConfig::strict(), r) else { return Ok(()) };
        macro_rules! tr {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => return text_ok(&e.to_string(), "error text", ctx),
                }
            };
        }
        macro_rules! get {
            () => {{
                let how = rng.below(3);
                if how == 0 {
                    text_ok(&tr!(d.read_str()), "read_str", ctx)?;
                } else {
                    tr!(d.open_str());
                    open!(how);
                }
            }};
        }
        macro_rules! open {
            ($how:expr) => {{
                let mut n = if $how == 1 { rng.below(40) } else { usize::MAX };
                let mut done = false;
                let mut buf = String::new();
                while n > 0 && !done {
                    match tr!(d.next_char()) {
                        Some(c) => {
                            char_ok(c, "next_char", ctx)?;
                            buf.push(c)
                        }
                        None => done = true,
                    }
                    n -= 1;
                }
                text_ok(&buf, "characters read", ctx)?;
                if !done {
                    text_ok(&tr!(d.flush_str()), "flush_str", ctx)?;
                }
                cx.count("strings_read", 1);
            }};
        }
        tr!(d.open_object());
        if mode == 1 {
            // Ask for a relative of a key that is there
            let k: Vec<char> = keys[rng.below(keys.len())].chars().collect();
            let at = rng.below(k.len() + 1);
            let mut ask: String = k[..at].iter().collect();
            match rng.below(3) {
                0 => ask.push('y'),
                1 => ask.push_str("è漣😁"),
                _ => ask.push_str("\u{0}"),
            }
            std::hint::black_box(tr!(d.try_push_entry(&ask)));
        }
        while tr!(d.next_entry()) {
            let how = rng.range(1, 2);
            open!(how);
            get!();
        }
        if let Err(e) = d.close() {
            text_ok(&e.to_string(), "error text", ctx)?;
        }
        Ok(())
    }
    let mut t = String::from("{");
    let mut keys = vec![];
    for i in 0..rng.range(1, 3) {
        if i > 0 {
            t.push(',');
        }
        for k in 0..2 {
            let key_at = t.len();
            t.push('"');
            let most = *rng.pick(&[14, 40]);
            let n = rng.below(most);
            let wide = rng.range(1, 4);
            for _ in 0..n {
                match rng.below(40) {
                    0 => t.push_str("\\n"),
                    1 => t.push_str("\\u00e9"),
                    2 => t.push_str("\\ud83d\\ude00"),
                    3..=9 => t.push('x'),
                    _ => t.push(*rng.pick(&['a', 'é', '漢', '😀'][..wide])),
                }
            }
            t.push('"');
            if k == 0 {
                keys.push(t[key_at + 1..t.len() - 1].to_string());
                t.push(':');
            }
        }
    }
    t.push('}');
    cx.distinct_str(&t);
    cx.sample(|| show(&t));
    let mode = rng.below(2);
    if rng.chance(2, 3) {
        one(rng, cx, t.as_str(), mode, &keys, &show(&t))
    } else {
        let src = Chunked::new(t.as_bytes(), vec![rng.range(1, 9)]);
        match Utf8Reader::new(src) {
            Ok(r) => one(rng, cx, r, mode, &keys, &show(&t)),
            Err(_) => Ok(()),
        }
    }
}

/// Name tables through the slice conversion.
fn names(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    fn probe<T: Copy + std::fmt::Debug + PartialEq>(rng: &mut Rng, t: &NameMap<T>, cx: &mut Cx) -> Result<(), String> {
        let mut n = 0;
        for (s, v) in t.entries() {
            text_ok(s, "a name of a table", "entries")?;
            n += 1;
            std::hint::black_box(t.get(s) == Some(v));
        }
        std::hint::black_box((n, t.size()));
        for _ in 0..4 {
            let k = key(rng);
            let mut l = t.lookup();
            for c in k.chars() {
                l.write_char(c);
            }
            std::hint::black_box(l.result());
            let mut l = t.lookup();
            // Any bytes are allowed
            let b: Vec<u8> = (0..rng.below(6)).map(|_| rng.u64() as u8).collect();
            l.write_bytes(&b);
            l.write_str(&k);
            std::hint::black_box(l.result());
            cx.count("lookups", 3);
        }
        Ok(())
    }
    fn nm(rng: &mut Rng) -> &'static str {
        let k = key(rng);
        intern(&k)
    }
    let k = rng.below(7);
    let mut r2 = rng.fork();
    match k {
        0 => probe(rng, FixedNameMap::<u8, 0>::new([]).unfix(), cx),
        1 => probe(rng, FixedNameMap::new([(nm(&mut r2), 7u8)]).unfix(), cx),
        2 => probe(rng, FixedNameMap::new([(nm(&mut r2), ()), (nm(&mut r2), ())]).unfix(), cx),
        3 => probe(rng, FixedNameMap::new([(nm(&mut r2), 1u128), (nm(&mut r2), 2), (nm(&mut r2), 3)]).unfix(), cx),
        4 => probe(rng, FixedNameMap::new([0; 5].map(|_: u8| (nm(&mut r2), [1u8, 2, 3]))).unfix(), cx),
        5 => probe(rng, FixedNameMap::new([0; 17].map(|_: u8| (nm(&mut r2), (1u8, 'x')))).unfix(), cx),
        _ => {
            let e = [0; 9].map(|_: u8| (nm(&mut r2), "v"));
            let b = Box::new(FixedNameMap::new(e));
            let r = probe(rng, b.unfix(), cx);
            drop(b);
            r
        }
    }
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'s> Deserialize<TextDeserializer<&'s str>>,
{
    let v = T::gen(rng);
    let mut t = to_str(&v);
    text_ok(&t, "the serialized text", std::any::type_name::<T>())?;
    for _ in 0..rng.below(3) {
        t = mutate(rng, &t);
    }
    cx.distinct_str(&t);
    cx.count("typed", 1);
    match quiet(|| from_str::<T>(&t)) {
        Ok(Ok(x)) => text_ok(&format!("{:?}", x), "a value", &show(&t)),
        Ok(Err(e)) => text_ok(&e.message().to_string(), "a message", &show(&t)),
        Err(_) => Ok(()),
    }
}
macro_rules! tab { ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] }; }
const TYPES: &[F] = all_types!(tab);

fn types_(rng: &mut Rng, i: u64, cx: &mut Cx) -> Result<(), String> {
    TYPES[(i % TYPES.len() as u64) as usize](rng, cx)
}

/// Serializer calls in any order.
fn writes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let mut out = String::new();
    let n = rng.range(1, 40);
    let mut trace = String::new();
    let (mut done, mut panics) = (0, 0);
    let c = match rng.below(3) {
        0 => TextSerializerConfig { indent: None },
        1 => TextSerializerConfig { indent: Some("") },
        _ => TextSerializerConfig { indent: Some("\t") },
    };
    let to_sink = rng.chance(1, 3);
    let mut sink = Utf8Writer::new(Sink::new(vec![rng.range(1, 7)]));
    macro_rules! drive {
        ($s:expr) => {{
            let mut s = $s;
            for _ in 0..n {
                let op = rng.below(28);
                trace.push_str(&format!("{} ", op));
                let text = if matches!(op, 10..=12) { string(rng, false) } else { String::new() };
                let name = if op == 18 { intern(&key(rng)) } else { "" };
                let r = quiet(|| match op {
                    0 => s.put_bool(rng.bool()).is_ok(),
                    1 => s.put_i8(rng.u64() as i8).is_ok(),
                    2 => s.put_u64(rng.u64()).is_ok(),
                    3 => s.put_i64(rng.u64() as i64).is_ok(),
                    4 => s.put_f64(f64::from_bits(rng.u64())).is_ok(),
                    5 => s.put_f32(f32::from_bits(rng.u64() as u32)).is_ok(),
                    6 => s.put_char(any_char(rng)).is_ok(),
                    7..=9 => s.append_char(any_char(rng)).is_ok(),
                    10 => s.append_str(&text).is_ok(),
                    11 => s.put_str(&text).is_ok(),
                    12 => s.put_tag(6, rng.below(6), Some(intern(&text))).is_ok(),
                    13 => s.open_list_sized(rng.below(3)).is_ok(),
                    14 => s.open_list_streaming().is_ok(),
                    15 => s.push_item().is_ok(),
                    16 => s.close_list().is_ok(),
                    17 => s.open_struct(Some("T")).is_ok(),
                    18 => s.push_field(name).is_ok(),
                    19 => s.close_struct().is_ok(),
                    20 => s.open_tuple(None).is_ok(),
                    21 => s.push_element().is_ok(),
                    22 => s.close_tuple().is_ok(),
                    23 => s.open_str().is_ok(),
                    24 => s.close_str().is_ok(),
                    25 => s.add_entry().is_ok(),
                    26 => s.pop_null().is_ok(),
                    _ => s.supports_null(),
                });
                match r {
                    Ok(_) => done += 1,
                    Err(_) => panics += 1,
                }
            }
            let close = rng.bool();
            let _ = quiet(|| {
                if close {
                    let _ = s.close();
                }
            });
        }};
    }
    if to_sink {
        drive!(TextSerializer::new(c, &mut sink));
        let b = sink.into_inner().data.borrow().clone();
        // What was written before a refused call is still text
        if let Err(e) = std::str::from_utf8(&b) {
            return Err(format!("bytes written are not UTF-8 ({}): {:?} after calls {}", e, b, trace));
        }
    } else {
        drive!(TextSerializer::new(c, &mut out));
        text_ok(&out, "the text written", &trace)?;
        cx.distinct_str(&out);
    }
    cx.count("writes_ok", done);
    cx.count("writes_panicked", panics);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

struct Job {
    tool: &'static str,
    bin: &'static str,
    cases: u64,
    offset: u64,
    secs: f64,
}

#[derive(Default)]
struct Outcome {
    cases: u64,
    distinct: u64,
    failed: u64,
    report: Option<String>,
    trouble: Option<String>,
}

const TARGET: &str = "x86_64-unknown-linux-gnu";

fn cargo(tool: &str) -> Command {
    let vd = verif_dir();
    let mut c = Command::new("cargo");
    c.current_dir(vd.join("harness"));
    c.arg("+nightly").env("CARGO_NET_OFFLINE", "true").env("CARGO_TERM_COLOR", "never").env("CARGO_TARGET_DIR", vd.join("target").join(tool));
    c.env("CARGO_INCREMENTAL", "0").env_remove("RUSTFLAGS").env_remove("MIRIFLAGS");
    match tool {
        "asan" => {
            c.env("RUSTFLAGS", "-Zsanitizer=address -Cforce-frame-pointers=yes");
        }
        _ => {
            c.env("MIRIFLAGS", "-Zmiri-disable-isolation");
        }
    }
    c
}

fn shown(j: &Job) -> String {
    let args = format!("--inproc {} {} {}", j.cases, j.offset, j.secs);
    match j.tool {
        "asan" => format!("VERIF_SEED={} /verif/target/asan/{}/debug/{} {}", run::seed(), TARGET, j.bin, args),
        _ => format!(
            "cd /verif/harness && VERIF_SEED={} CARGO_TARGET_DIR=/verif/target/miri MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run --offline --bin {} -- {}",
            run::seed(),
            j.bin,
            args
        ),
    }
}

fn tail(s: &str, n: usize) -> String {
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(n)..].join(" | ")
}

fn run_job(j: &Job, i: usize, dir: &Path) -> Outcome {
    let (po, pe): (PathBuf, PathBuf) = (dir.join(format!("san{}.out", i)), dir.join(format!("san{}.err", i)));
    let mut c = match j.tool {
        "asan" => {
            let mut c = Command::new(verif_dir().join("target/asan").join(TARGET).join("debug").join(j.bin));
            c.env("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=1");
            c
        }
        _ => {
            let mut c = cargo("miri");
            c.args(["miri", "run", "--offline", "-q", "--bin", j.bin, "--"]);
            c
        }
    };
    c.arg("--inproc").arg(j.cases.to_string()).arg(j.offset.to_string()).arg(j.secs.to_string());
    c.env("VERIF_TIER", "quick");
    c.stdin(Stdio::null()).stdout(std::fs::File::create(&po).unwrap()).stderr(std::fs::File::create(&pe).unwrap());
    let mut o = Outcome::default();
    let mut kid = match c.spawn() {
        Ok(k) => k,
        Err(e) => {
            o.trouble = Some(format!("cannot start {}: {}", j.tool, e));
            return o;
        }
    };
    // The time limit is the program's own; a single case may be slow, so be generous
    let t0 = Instant::now();
    let mut killed = false;
    let st = loop {
        if let Ok(Some(st)) = kid.try_wait() {
            break st;
        }
        if t0.elapsed().as_secs_f64() > j.secs + 200.0 {
            killed = true;
            let _ = kid.kill();
        }
        std::thread::sleep(Duration::from_millis(30));
    };
    let out = String::from_utf8_lossy(&std::fs::read(&po).unwrap_or_default()).into_owned();
    let err = String::from_utf8_lossy(&std::fs::read(&pe).unwrap_or_default()).into_owned();
    let last = out.lines().rev().find(|l| l.starts_with("CASE ")).unwrap_or("CASE none").to_string();
    o.cases = out.lines().filter(|l| l.starts_with("CASE ")).count() as u64;
    o.failed = out.lines().filter(|l| l.starts_with("CASE-FAILED ")).count() as u64;
    if let Some(l) = out.lines().find(|l| l.starts_with("INPROC ")) {
        for f in l.split(' ') {
            if let Some(n) = f.strip_prefix("distinct=") {
                o.distinct = n.parse().unwrap_or(0);
            }
        }
    }
    let bad = match j.tool {
        "asan" => ["ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "UndefinedBehaviorSanitizer"].iter().find_map(|p| err.find(p)),
        _ => ["error: Undefined Behavior", "error: memory leaked", "Data race detected"].iter().find_map(|p| err.find(p)),
    };
    let from_deep = err.contains("AddressSanitizer: stack-overflow");
    if let (Some(p), false) = (bad, from_deep) {
        let what: String = err[p..].chars().take(2500).collect();
        o.report = Some(format!("{} reports on {} (last case begun: {}):\n{}\nreplay: {}", j.tool, j.bin, last, what, shown(j)));
    } else if killed || !st.success() {
        o.trouble = Some(format!("{} {} ended with {:?}{} after {} cases (last: {}): {}", j.tool, j.bin, st.code(), if killed { " (killed)" } else { "" }, o.cases, last, tail(&err, 12)));
    }
    o
}

fn orchestrate(check: &'static Check) -> i32 {
    let t0 = Instant::now();
    let dir = verif_dir().join("work").join(format!("C23-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("work dir");
    let thorough = run::thorough();
    let mut t = supervise(check, &dir);

    // (bin, ASan cases, ASan shards, Miri cases, Miri shards)
    let set: &[(&'static str, u64, u64, u64, u64)] = &[
        ("c23", 8000, 4, 400, 11),
        ("c01", 1000, 1, 100, 1),
        ("c04", 1000, 1, 0, 0),
        ("c05", 800, 1, 100, 1),
        ("c07", 800, 1, 0, 0),
        ("c09", 800, 1, 0, 0),
        ("c12", 200, 1, 0, 0),
        ("c13", 600, 1, 0, 0),
        ("c14", 1000, 1, 0, 0),
        ("c15", 1500, 1, 200, 1),
        ("c18", 800, 1, 0, 0),
        ("c21", 1000, 1, 0, 0),
        ("c22", 1000, 1, 0, 0),
        ("c24", 800, 1, 40, 1),
        ("c25", 200, 1, 0, 0),
        ("c26", 800, 1, 40, 1),
        ("c27", 300, 1, 40, 1),
    ];
    if t.violation.is_none() {
        let build = |tool: &'static str| -> Result<(), String> {
            let mut c = cargo(tool);
            match tool {
                "asan" => {
                    c.args(["build", "--offline", "--target", TARGET]);
                    for s in set {
                        c.args(["--bin", s.0]);
                    }
                }
                _ => {
                    // Miri needs no more than the libraries beforehand
                    c.args(["miri", "run", "--offline", "-q", "--bin", "c23", "--", "--inproc", "0", "0", "1"]);
                }
            }
            match c.output() {
                Ok(o) if o.status.success() => Ok(()),
                Ok(o) => Err(format!("{} build failed: {}", tool, tail(&String::from_utf8_lossy(&o.stderr), 25))),
                Err(e) => Err(format!("cannot run cargo for {}: {}", tool, e)),
            }
        };
        let (a, m) = std::thread::scope(|s| {
            let a = s.spawn(|| build("asan"));
            let m = s.spawn(|| build("miri"));
            (a.join().unwrap(), m.join().unwrap())
        });
        t.counters.insert("sanitizer_build_s".into(), t0.elapsed().as_secs());
        let mut jobs: VecDeque<Job> = VecDeque::new();
        let scale = if thorough { 1_000_000 } else { 1 };
        let budget: f64 = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(600.0);
        let (msecs, asecs) = if thorough { (budget / 3.0, budget / 6.0) } else { (30.0, 20.0) };
        let spread = 10_000_000;
        match m {
            Ok(()) => {
                for s in set {
                    for k in 0..s.4 {
                        jobs.push_back(Job { tool: "miri", bin: s.0, cases: s.3 * scale, offset: spread + k * 100_000, secs: msecs });
                    }
                }
            }
            Err(e) => t.inconclusive.push(e),
        }
        match a {
            Ok(()) => {
                for s in set {
                    for k in 0..s.2 {
                        jobs.push_back(Job { tool: "asan", bin: s.0, cases: s.1 * scale, offset: spread + k * 100_000, secs: asecs });
                    }
                }
            }
            Err(e) => t.inconclusive.push(e),
        }
        let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        let queue = Mutex::new(jobs.into_iter().enumerate().collect::<VecDeque<_>>());
        let done: Mutex<Vec<(Job, Outcome)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..n {
                s.spawn(|| loop {
                    if done.lock().unwrap().iter().any(|d| d.1.report.is_some()) {
                        return;
                    }
                    let Some((i, j)) = queue.lock().unwrap().pop_front() else { return };
                    let o = run_job(&j, i, &dir);
                    done.lock().unwrap().push((j, o));
                });
            }
        });
        for (j, o) in done.into_inner().unwrap() {
            *t.counters.entry(format!("{}_cases", j.tool)).or_insert(0) += o.cases;
            *t.counters.entry(format!("{}_cases:{}", j.tool, j.bin)).or_insert(0) += o.cases;
            *t.counters.entry(format!("{}_distinct", j.tool)).or_insert(0) += o.distinct;
            *t.counters.entry(format!("{}_processes", j.tool)).or_insert(0) += 1;
            if o.failed > 0 {
                *t.counters.entry(format!("{}_cases_failing_their_own_property", j.tool)).or_insert(0) += o.failed;
            }
            t.evals += o.cases;
            if let (Some(r), None) = (&o.report, &t.violation) {
                t.violation = Some((format!("{} {}", j.tool, j.bin), r.clone()));
            }
            if let Some(m) = o.trouble {
                // Crashes and the like that no sanitizer reported are other properties' business
                *t.counters.entry(format!("{}_runs_ended_early", j.tool)).or_insert(0) += 1;
                t.samples.push(format!("[{} ended early] {}", j.tool, m));
                eprintln!("{}", m);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    conclude(check.id, check.level, check.rule, check.assumptions, check.floors, t, t0.elapsed().as_secs_f64())
}

fn main() {
    let check = Check {
        id: "C23",
        level: "exploration",
        rule: "Native cases: random documents, values, number literals and name tables under arbitrary call sequences (legal or not, continued after errors and panics), every string and character handed out being checked for validity. Sanitizer cases: the same and the workloads of the other monitors, executed under AddressSanitizer+LeakSanitizer (asan_*) and Miri (miri_*); evaluations is the sum. Distinct by input text (native cases only).",
        assumptions: &["Miri's and ASan's models of undefined behaviour; rustc's ASan instruments serdere and its dependencies but not the precompiled standard library."],
        phases: vec![
            Phase { name: "abuse", quick: 120_000, thorough: 600_000, f: abuse },
            Phase { name: "walks", quick: 20_000, thorough: 150_000, f: walks },
            Phase { name: "numbers", quick: 20_000, thorough: 150_000, f: numbers },
            Phase { name: "strings", quick: 150_000, thorough: 1_000_000, f: strings },
            Phase { name: "names", quick: 10_000, thorough: 50_000, f: names },
            Phase { name: "types", quick: 30_000, thorough: 200_000, f: types_ },
            Phase { name: "writes", quick: 40_000, thorough: 200_000, f: writes },
        ],
        floors: &[("abuse_calls_ok", 1000), ("lookups", 100), ("numbers_read", 100), ("asan_cases", 500), ("miri_cases", 50)],
        hang_cpu_s: 20,
    };
    if std::env::args().len() > 1 {
        run::main(check)
    } else {
        std::process::exit(orchestrate(Box::leak(Box::new(check))))
    }
}
