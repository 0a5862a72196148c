//! Scripted walks over a document through the deserializer's API, compared step by step with a
//! sequential model of the document.
use crate::num::{int_verdict, lit, IntVerdict};
use crate::{ensure, JEntry, JKind, JNode, Rng};
use serdere::{Deserializer, Outliner, TextReader, Value};
use serdere_json::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

pub type TD<R> = TextDeserializer<R>;

pub struct Walk<'p, P> {
    pub rng: Rng,
    /// Percentage of values that are skipped rather than read.
    pub skip: usize,
    /// Does this position denote this byte offset?
    pub at: &'p dyn Fn(&P, usize) -> bool,
    pub obs: BTreeMap<&'static str, u64>,
    /// Compact record of the choices made.
    pub trace: String,
    /// Check positions via `error()` after reads.
    pub probe: bool,
    /// Read in document order only.
    pub in_order: bool,
    /// Never ask for absent keys.
    pub no_absent: bool,
    /// Called after every value that was read or skipped at its place in document order, with
    /// the node (only for `in_order`).
    pub after: Option<&'p dyn Fn(&JNode) -> Result<(), String>>,
}

impl<'p, P> Walk<'p, P> {
    pub fn new(rng: Rng, at: &'p dyn Fn(&P, usize) -> bool) -> Self {
        Walk { rng, skip: 10, at, obs: BTreeMap::new(), trace: String::new(), probe: true, in_order: false, no_absent: false, after: None }
    }
    fn hit(&mut self, name: &'static str) {
        *self.obs.entry(name).or_insert(0) += 1;
    }
    fn tr(&mut self, c: &str) {
        if self.trace.len() < 4000 {
            self.trace.push_str(c);
        }
    }
}

/// Keys longer than this are not used as field names, which have to be leaked.
const LONG_KEY: usize = 2048;

/// Interns a string for use as a field name.
pub fn intern(s: &str) -> &'static str {
    static T: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = T.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(r) = m.get(s) {
        return r;
    }
    let r: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), r);
    r
}

pub fn emsg<P>(e: &DeserializeError<P>) -> String {
    format!("error {:?} ({})", e.message(), e.message())
}

fn ev<T, P>(r: Result<T, DeserializeError<P>>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{}: unexpected {}", what, emsg(&e)))
}

pub fn ty_of(n: &JNode) -> ValueType {
    match &n.kind {
        JKind::Null => ValueType::Null,
        JKind::Bool(_) => ValueType::Bool,
        JKind::Num(_) => ValueType::Number,
        JKind::Str(_) => ValueType::String,
        JKind::Arr(_) => ValueType::Array,
        JKind::Obj(_) => ValueType::Object,
    }
}

macro_rules! ints {
    ($m:ident) => {
        $m!(0, u8, get_u8);
        $m!(1, i8, get_i8);
        $m!(2, u16, get_u16);
        $m!(3, i16, get_i16);
        $m!(4, u32, get_u32);
        $m!(5, i32, get_i32);
        $m!(6, u64, get_u64);
        $m!(7, i64, get_i64);
    };
}

/// Is the number (sign, magnitude) equal to what was read?
fn same_int(neg: bool, mag: u128, got_neg: bool, got_mag: u128) -> bool {
    mag == got_mag && (mag == 0 || neg == got_neg)
}

fn read_num<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, s: &str) -> Result<(), String> {
    let l = lit(s);
    for _ in 0..3 {
        let k = w.rng.below(14);
        let typed = w.rng.bool();
        macro_rules! try_int {
            ($i:expr, $t:ty, $g:ident) => {
                if k == $i {
                    if let IntVerdict::Must(neg, mag) = int_verdict(&l, (<$t>::MIN as i128).unsigned_abs(), <$t>::MAX as u128) {
                        w.tr(stringify!($t));
                        let v: $t = if typed {
                            ev(Value::with(d, |v| v.$g()), stringify!($g))?
                        } else {
                            ev(d.read_number::<$t>(), "read_number")?
                        };
                        let v = v as i128;
                        ensure!(same_int(neg, mag, v < 0, v.unsigned_abs()), "number {} read as {} gives {}", s, stringify!($t), v);
                        w.hit("ints");
                        return Ok(());
                    }
                }
            };
        }
        ints!(try_int);
        if k == 8 {
            if let IntVerdict::Must(_, mag) = int_verdict(&l, 0, u128::MAX) {
                w.tr("u128");
                let v = ev(d.read_number::<u128>(), "read_number::<u128>")?;
                ensure!(v == mag, "number {} read as u128 gives {}", s, v);
                return Ok(());
            }
        }
        if k == 9 {
            if let IntVerdict::Must(neg, mag) = int_verdict(&l, 1u128 << 127, i128::MAX as u128) {
                w.tr("i128");
                let v = ev(d.read_number::<i128>(), "read_number::<i128>")?;
                ensure!(same_int(neg, mag, v < 0, v.unsigned_abs()), "number {} read as i128 gives {}", s, v);
                return Ok(());
            }
        }
        if k == 10 {
            w.tr("f32");
            let v = if typed { ev(Value::with(d, |v| v.get_f32()), "get_f32")? } else { ev(d.read_number::<f32>(), "f32")? };
            let want: f32 = s.parse().unwrap();
            ensure!(v.to_bits() == want.to_bits(), "number {} read as f32 gives {:?}, expected {:?}", s, v, want);
            w.hit("floats");
            return Ok(());
        }
        if k > 10 {
            break;
        }
    }
    w.tr("f64");
    let v = if w.rng.bool() { ev(Value::with(d, |v| v.get_f64()), "get_f64")? } else { ev(d.get_f64(), "f64")? };
    let want: f64 = s.parse().unwrap();
    ensure!(v.to_bits() == want.to_bits(), "number {} read as f64 gives {:?}, expected {:?}", s, v, want);
    w.hit("floats");
    Ok(())
}

/// Reads the opened string at the top of the stack in one of several ways.
pub fn read_open_str<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, s: &str) -> Result<(), String> {
    let n = s.chars().count();
    let k = match w.rng.below(4) {
        0 => 0,
        1 => n,
        _ => w.rng.below(n + 1),
    };
    let mut it = s.chars();
    for i in 0..k {
        let c = ev(d.next_char(), "next_char")?;
        let want = it.next();
        ensure!(c == want, "character {} of string {:?}: got {:?}", i, s, c);
    }
    let rest = it.as_str();
    match w.rng.below(4) {
        0 => {
            w.tr("F");
            let got = ev(d.flush_str(), "flush_str")?;
            ensure!(got == rest, "rest of string {:?} after {} characters: got {:?}", s, k, got);
        }
        1 => {
            w.tr("K");
            ev(d.skip_str(), "skip_str")?;
        }
        2 if rest.is_empty() => {
            w.tr("C");
            ev(d.close_str(), "close_str")?;
        }
        _ => {
            w.tr("D");
            for want in rest.chars() {
                let c = ev(d.next_char(), "next_char")?;
                ensure!(c == Some(want), "rest of string {:?}: got {:?} instead of {:?}", s, c, want);
            }
            let c = ev(d.next_char(), "next_char")?;
            ensure!(c.is_none(), "string {:?}: extra character {:?}", s, c);
        }
    }
    w.hit("partial_strings");
    Ok(())
}

fn read_string<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, s: &str) -> Result<(), String> {
    match w.rng.below(6) {
        0 => {
            w.tr("s");
            let ok = ev(Value::with(d, |v| v.get_str().map(|g| if g == s { None } else { Some(g.to_string()) })), "get_str")?;
            ensure!(ok.is_none(), "string {:?} read as {:?}", s, ok);
        }
        1 => {
            w.tr("S");
            let g: String = ev(Value::with(d, |v| v.get()), "get::<String>")?;
            ensure!(g == s, "string {:?} read as {:?}", s, g);
        }
        2 => {
            w.tr("r");
            let g = ev(d.read_str(), "read_str")?;
            ensure!(g == s, "string {:?} read as {:?}", s, g);
        }
        3 if s.chars().count() == 1 => {
            w.tr("c");
            let g = ev(Value::with(d, |v| v.get_char()), "get_char")?;
            ensure!(s.chars().next() == Some(g), "string {:?} read as {:?}", s, g);
        }
        _ => {
            w.tr("o");
            ev(d.open_str(), "open_str")?;
            read_open_str(w, d, s)?;
        }
    }
    w.hit("strings");
    Ok(())
}

fn probe<R: TextReader>(w: &mut Walk<R::Position>, d: &TD<R>, off: usize, what: &str) -> Result<(), String> {
    if w.probe && w.rng.chance(1, 3) {
        w.hit("position_probes");
        let e = d.error("probe".into());
        ensure!((w.at)(e.position(), off), "error raised after {} is not at offset {} but {:?}", what, off, e.position().to_string());
    }
    Ok(())
}

/// Consumes the value at the top of the stack, comparing it with `n`.
pub fn walk<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode) -> Result<(), String> {
    let ty = d.peek_value_type();
    ensure!(ty == ty_of(n), "value at {} is {:?} but reported as {:?}", n.start, ty_of(n), ty);
    if w.rng.chance(1, 10) && !matches!(n.kind, JKind::Null) {
        let c = ev(d.check_null(), "check_null")?;
        ensure!(!c, "value at {} reported as null", n.start);
    }
    if w.rng.chance(w.skip, 100) {
        w.tr("x");
        w.hit("skips");
        if w.rng.bool() {
            ev(d.skip_value(), "skip_value")?;
        } else {
            ev(Value::with(d, |v| v.skip()), "skip")?;
        }
    } else {
        match &n.kind {
            JKind::Null => {
                w.tr("n");
                match w.rng.below(5) {
                    0 => ev(d.pop_null(), "pop_null")?,
                    1 => ev(Value::with(d, |v| v.into_null()), "into_null")?,
                    2 => {
                        let c = ev(Value::with(d, |mut v| v.check_null()), "check_null")?;
                        ensure!(c, "null at {} not recognised by check_null", n.start);
                    }
                    3 => {
                        let v: Option<u32> = ev(Value::with(d, |v| v.get()), "get::<Option<u32>>")?;
                        ensure!(v.is_none(), "null read as {:?}", v);
                    }
                    _ => {
                        let v: Option<String> = ev(Value::with(d, |v| v.get()), "get::<Option<String>>")?;
                        ensure!(v.is_none(), "null read as {:?}", v);
                    }
                }
            }
            JKind::Bool(b) => {
                w.tr("b");
                let g = match w.rng.below(3) {
                    0 => ev(d.get_bool(), "get_bool")?,
                    1 => ev(Value::with(d, |v| v.get_bool()), "get_bool")?,
                    _ => {
                        let g: Option<bool> = ev(Value::with(d, |v| v.get()), "get::<Option<bool>>")?;
                        ensure!(g.is_some(), "{} read as None", b);
                        g.unwrap()
                    }
                };
                ensure!(g == *b, "{} at {} read as {}", b, n.start, g);
            }
            JKind::Num(s) => read_num(w, d, s)?,
            JKind::Str(s) => read_string(w, d, s)?,
            JKind::Arr(xs) => array(w, d, n, xs)?,
            JKind::Obj(es) => object(w, d, n, es)?,
        }
    }
    w.hit("values");
    if let Some(f) = w.after {
        f(n)?;
    }
    probe(w, d, n.start, "reading the value")
}

fn array<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode, xs: &[JNode]) -> Result<(), String> {
    let mode = w.rng.below(6);
    w.tr(["[r", "[l", "[t", "[s", "[c", "[v"][mode]);
    w.hit("arrays");
    match mode {
        0 => {
            ev(d.open_list(), "open_list")?;
            let ct = d.peek_collection_type();
            ensure!(ct == CollectionType::Array, "array reported as {:?}", ct);
            for x in xs {
                if w.rng.bool() {
                    let more = ev(d.next_item(), "next_item")?;
                    ensure!(more, "array at {} has more items than delivered", n.start);
                } else {
                    ev(d.push_item(), "push_item")?;
                }
                walk(w, d, x)?;
            }
            if w.rng.bool() {
                let more = ev(d.next_item(), "next_item")?;
                ensure!(!more, "array at {} delivers too many items", n.start);
            } else {
                ev(d.close_list(), "close_list")?;
            }
        }
        1 => {
            let mut err = None;
            let r = scope(d, |v| {
                let mut l = v.into_list()?;
                if l.rem_len().map(|k| k != xs.len()).unwrap_or(false) {
                    err = Some(format!("wrong rem_len {:?}", l.rem_len()));
                }
                for x in xs {
                    let v = if w.rng.bool() {
                        match l.next()? {
                            Some(v) => v,
                            None => {
                                err = Some(format!("array at {} has more items than delivered", n.start));
                                return Ok(());
                            }
                        }
                    } else {
                        l.push()?
                    };
                    let (s, done) = v.into_raw();
                    if let Err(e) = walk(w, s, x) {
                        err = Some(e);
                        return Ok(());
                    }
                    *done = true;
                }
                if w.rng.bool() {
                    if l.next()?.is_some() {
                        err = Some(format!("array at {} delivers too many items", n.start));
                    }
                } else {
                    l.close()?;
                }
                Ok(())
            });
            fin(r, err, "list")?;
        }
        2 => {
            let mut err = None;
            let r = scope(d, |v| {
                let mut l = v.into_tuple(None)?;
                for x in xs {
                    let (s, done) = l.element()?.into_raw();
                    if let Err(e) = walk(w, s, x) {
                        err = Some(e);
                        return Ok(());
                    }
                    *done = true;
                }
                l.close()
            });
            fin(r, err, "tuple")?;
        }
        3 => {
            let mut err = None;
            let r = scope(d, |v| {
                let mut l = v.into_struct(Some("S"))?;
                for x in xs {
                    let (s, done) = l.field("whatever")?.into_raw();
                    if let Err(e) = walk(w, s, x) {
                        err = Some(e);
                        return Ok(());
                    }
                    *done = true;
                }
                l.close()
            });
            fin(r, err, "struct from array")?;
        }
        4 => collection(w, d, n, xs.iter().collect())?,
        _ => {
            // Whole list at once, if it is homogeneous
            let nums: Option<Vec<&str>> = xs.iter().map(|x| if let JKind::Num(s) = &x.kind { Some(s.as_str()) } else { None }).collect();
            if let (Some(ns), None) = (nums, w.after) {
                let got: Vec<f64> = ev(Value::with(d, |v| v.get()), "get::<Vec<f64>>")?;
                let want: Vec<u64> = ns.iter().map(|s| s.parse::<f64>().unwrap().to_bits()).collect();
                ensure!(got.iter().map(|x| x.to_bits()).eq(want.iter().copied()), "array of numbers read as {:?}", got);
            } else {
                ev(d.open_list(), "open_list")?;
                for x in xs {
                    ev(d.push_item(), "push_item")?;
                    walk(w, d, x)?;
                }
                let more = ev(d.next_item(), "next_item")?;
                ensure!(!more, "array at {} delivers too many items", n.start);
            }
        }
    }
    Ok(())
}

fn fin<P>(r: Result<(), DeserializeError<P>>, err: Option<String>, what: &str) -> Result<(), String> {
    if let Some(e) = err {
        return Err(e);
    }
    ev(r, what)
}

/// Like `Value::with`, but may be left early.
fn scope<R: TextReader, T>(
    d: &mut TD<R>,
    f: impl FnOnce(Value<TD<R>>) -> Result<T, DeserializeError<R::Position>>,
) -> Result<T, DeserializeError<R::Position>> {
    let mut done = false;
    f(Value::new(d, &mut done))
}

fn collection<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode, xs: Vec<&JNode>) -> Result<(), String> {
    let mut done = false;
    let mut c = ev(Value::new(d, &mut done).into_collection(), "into_collection")?;
    let is_obj = matches!(c, Collection::Object(_));
    ensure!(is_obj == matches!(n.kind, JKind::Obj(_)), "wrong kind of collection");
    for x in xs {
        let v = ev(c.next(), "Collection::next")?;
        let Some(v) = v else { return Err(format!("collection at {} has more values than delivered", n.start)) };
        let (s, fl) = v.into_raw();
        walk(w, s, x)?;
        *fl = true;
    }
    let v = ev(c.next(), "Collection::next")?;
    ensure!(v.is_none(), "collection at {} delivers too many values", n.start);
    drop(v);
    drop(c);
    ensure!(done, "collection not marked as done");
    Ok(())
}

fn absent_key(w: &mut Walk<impl Sized>, es: &[JEntry], rem: &[usize]) -> String {
    for _ in 0..8 {
        let k = match w.rng.below(6) {
            0 => crate::gen::key(&mut w.rng),
            1 if !es.is_empty() => w.rng.pick(es).key.clone(),
            2 if !es.is_empty() => {
                let mut k = w.rng.pick(es).key.clone();
                k.pop();
                k
            }
            3 if !es.is_empty() => {
                let k = &w.rng.pick(es).key;
                format!("{}{}", k, w.rng.pick(&['a', '\0', '"', 'é', '0']))
            }
            4 if !es.is_empty() => {
                // change one character
                let k: Vec<char> = w.rng.pick(es).key.chars().collect();
                if k.is_empty() {
                    "\"".to_string()
                } else {
                    let i = w.rng.below(k.len());
                    let mut k = k;
                    k[i] = if k[i] == 'a' { 'b' } else { 'a' };
                    k.into_iter().collect()
                }
            }
            _ => format!("absent{}", w.rng.below(10)),
        };
        if !rem.iter().any(|i| es[*i].key == k) {
            return k;
        }
    }
    "#never#".to_string()
}

/// A value obtained by name: which of the remaining entries it is.
fn by_name<R: TextReader>(
    w: &mut Walk<R::Position>,
    d: &mut TD<R>,
    key: &str,
    es: &[JEntry],
    rem: &mut Vec<usize>,
) -> Result<(), String> {
    let cand: Vec<usize> = rem.iter().copied().filter(|i| es[*i].key == key).collect();
    ensure!(!cand.is_empty(), "harness: no candidate");
    if cand.len() == 1 {
        rem.retain(|i| *i != cand[0]);
        return walk(w, d, &es[cand[0]].value);
    }
    w.hit("duplicate_keys");
    let got = ev(d.read_number::<u64>(), "number of a repeated key")?;
    let Some(i) = cand.iter().copied().find(|i| matches!(&es[*i].value.kind, JKind::Num(s) if s.parse() == Ok(got))) else {
        return Err(format!("repeated key {:?} gives {}, which is not the value of any remaining entry", key, got));
    };
    rem.retain(|j| *j != i);
    probe(w, d, es[i].value.start, "reading a repeated key")
}

fn object<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode, es: &[JEntry]) -> Result<(), String> {
    w.hit("objects");
    let mode = if w.in_order { *w.rng.pick(&[3, 5, 6, 6, 7, 8, 9]) } else { w.rng.below(10) };
    match mode {
        0..=2 => object_raw(w, d, n, es),
        3 | 4 => object_wrapped(w, d, n, es),
        5 => {
            w.tr("{c");
            collection(w, d, n, es.iter().map(|e| &e.value).collect())
        }
        6 => {
            // Entries in document order
            w.tr("{o");
            ev(d.open_object(), "open_object")?;
            for e in es {
                let more = ev(d.next_entry(), "next_entry")?;
                ensure!(more, "object at {} has more entries than delivered", n.start);
                read_open_str(w, d, &e.key)?;
                walk(w, d, &e.value)?;
            }
            end_object(w, d, n)
        }
        7 => {
            // By name, in document order
            w.tr("{n");
            ev(d.open_object(), "open_object")?;
            let mut rem: Vec<usize> = (0..es.len()).collect();
            for e in es {
                ev(d.push_entry(&e.key), "push_entry")?;
                by_name(w, d, &e.key, es, &mut rem)?;
            }
            end_object(w, d, n)
        }
        8 if w.in_order => object_raw(w, d, n, es),
        8 => {
            // By name, backwards: everything but the last entry is buffered
            w.tr("{b");
            ev(d.open_object(), "open_object")?;
            let mut rem: Vec<usize> = (0..es.len()).collect();
            for e in es.iter().rev() {
                ev(d.push_entry(&e.key), "push_entry")?;
                by_name(w, d, &e.key, es, &mut rem)?;
            }
            end_object(w, d, n)
        }
        _ if es.iter().any(|e| e.key.len() > LONG_KEY) => object_raw(w, d, n, es),
        _ => object_struct(w, d, n, es),
    }
}

fn end_object<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode) -> Result<(), String> {
    match w.rng.below(4) {
        0 => ev(d.close_object(), "close_object"),
        1 => ev(d.skip_object(), "skip_object"),
        2 => ev(d.close_struct(), "close_struct"),
        _ => {
            let more = ev(d.next_entry(), "next_entry")?;
            ensure!(!more, "object at {} delivers too many entries", n.start);
            Ok(())
        }
    }
}

fn object_raw<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode, es: &[JEntry]) -> Result<(), String> {
    w.tr("{r");
    ev(d.open_object(), "open_object")?;
    let mut rem: Vec<usize> = (0..es.len()).collect();
    let mut absent = 0;
    loop {
        let ct = d.peek_collection_type();
        ensure!(ct == CollectionType::Object, "object reported as {:?}", ct);
        let op = if w.in_order { *w.rng.pick(&[4, 7, 7, 7]) } else { w.rng.below(9) };
        match op {
            // By name
            0..=3 if !rem.is_empty() => {
                let key = es[*w.rng.pick(&rem)].key.clone();
                w.tr("N");
                if w.rng.bool() {
                    let found = ev(d.try_push_entry(&key), "try_push_entry")?;
                    ensure!(found, "entry {:?} of the object at {} is not found", key, n.start);
                } else {
                    ev(d.push_entry(&key), "push_entry")?;
                }
                w.hit("by_name");
                by_name(w, d, &key, es, &mut rem)?;
            }
            4 if w.in_order => {
                if let Some(i) = rem.first().copied() {
                    let key = &es[i].key;
                    let found = ev(d.try_push_entry(key), "try_push_entry")?;
                    ensure!(found, "entry {:?} of the object at {} is not found", key, n.start);
                    by_name(w, d, key, es, &mut rem)?;
                }
            }
            // Absent
            4 | 5 if absent < 4 && !w.no_absent && !w.in_order => {
                absent += 1;
                let key = absent_key(w, es, &rem);
                w.tr("A");
                w.hit("absent");
                if w.rng.bool() || key.len() > LONG_KEY {
                    let found = ev(d.try_push_entry(&key), "try_push_entry")?;
                    ensure!(!found, "key {:?} is not left in the object at {} but is found", key, n.start);
                } else {
                    ev(d.push_field(intern(&key)), "push_field")?;
                    virtual_null(w, d, n)?;
                }
            }
            // Virtual null without a key
            6 if w.rng.chance(1, 4) && !w.in_order => {
                w.tr("V");
                d.push_null(if w.rng.bool() { None } else { Some("virtual") });
                virtual_null(w, d, n)?;
            }
            // Next unread
            6..=7 => {
                w.tr("U");
                w.hit("next_unread");
                let more = ev(d.next_entry(), "next_entry")?;
                ensure!(more == !rem.is_empty(), "object at {}: next_entry gives {} with {} entries left", n.start, more, rem.len());
                if !more {
                    return Ok(());
                }
                let i = rem.remove(0);
                read_open_str(w, d, &es[i].key)?;
                walk(w, d, &es[i].value)?;
            }
            8 => match w.rng.below(6) {
                0 if rem.is_empty() => {
                    w.tr("}");
                    return ev(d.close_object(), "close_object");
                }
                1 => {
                    w.tr("k");
                    w.hit("skip_rest");
                    return ev(d.skip_object(), "skip_object");
                }
                2 => {
                    w.tr("z");
                    w.hit("skip_rest");
                    return ev(d.close_struct(), "close_struct");
                }
                _ => (),
            },
            _ => (),
        }
    }
}

/// Consumes a virtual null pushed in place of a missing entry of the object `n`.
fn virtual_null<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode) -> Result<(), String> {
    w.hit("virtual_nulls");
    let ty = d.peek_value_type();
    ensure!(ty == ValueType::Null, "missing entry reported as {:?}", ty);
    match w.rng.below(4) {
        0 => {
            let c = ev(d.check_null(), "check_null of a missing entry")?;
            ensure!(c, "missing entry is not null");
        }
        1 => ev(d.pop_null(), "pop_null of a missing entry")?,
        2 => {
            let v: Option<u8> = ev(Value::with(d, |v| v.get()), "missing entry as option")?;
            ensure!(v.is_none(), "missing entry read as {:?}", v);
        }
        _ => ev(d.skip_value(), "skip_value of a missing entry")?,
    }
    probe(w, d, n.start, "reading a missing entry")
}

fn object_wrapped<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode, es: &[JEntry]) -> Result<(), String> {
    w.tr("{w");
    let mut done = false;
    let mut o = ev(Value::new(d, &mut done).into_object(), "into_object")?;
    let mut rem: Vec<usize> = (0..es.len()).collect();
    let mut absent = 0;
    loop {
        match w.rng.below(8) {
            0..=2 if !rem.is_empty() => {
                let pick = if w.in_order { rem[0] } else { *w.rng.pick(&rem) };
                let key = es[pick].key.clone();
                w.tr("N");
                w.hit("by_name");
                let v = if w.rng.bool() {
                    match ev(o.try_entry(&key), "try_entry")? {
                        Some(v) => v,
                        None => return Err(format!("entry {:?} of the object at {} is not found", key, n.start)),
                    }
                } else {
                    ev(o.entry(&key), "entry")?
                };
                let (s, fl) = v.into_raw();
                by_name(w, s, &key, es, &mut rem)?;
                *fl = true;
            }
            3 | 4 if absent < 4 && !w.no_absent && !w.in_order => {
                absent += 1;
                let key = absent_key(w, es, &rem);
                w.tr("A");
                w.hit("absent");
                let v = ev(o.try_entry(&key), "try_entry")?;
                ensure!(v.is_none(), "key {:?} is not left in the object at {} but is found", key, n.start);
            }
            5 | 6 => {
                w.tr("U");
                w.hit("next_unread");
                let e = ev(o.next_entry(), "next_entry")?;
                ensure!(e.is_some() == !rem.is_empty(), "object at {}: next_entry with {} entries left", n.start, rem.len());
                let Some(mut e) = e else { break };
                let i = rem.remove(0);
                if w.rng.bool() {
                    let k = ev(e.key(), "key")?;
                    ensure!(k == es[i].key, "key {:?} read as {:?}", es[i].key, k);
                }
                let (s, fl) = ev(e.value(), "value")?.into_raw();
                walk(w, s, &es[i].value)?;
                *fl = true;
            }
            7 if rem.is_empty() => {
                w.tr("}");
                ev(o.close(), "close")?;
                break;
            }
            _ => (),
        }
    }
    ensure!(done, "object not marked as done");
    Ok(())
}

fn object_struct<R: TextReader>(w: &mut Walk<R::Position>, d: &mut TD<R>, n: &JNode, es: &[JEntry]) -> Result<(), String> {
    w.tr("{s");
    w.hit("structs");
    let mut done = false;
    let mut st = ev(Value::new(d, &mut done).into_struct(None), "into_struct")?;
    let mut rem: Vec<usize> = (0..es.len()).collect();
    for _ in 0..w.rng.below(es.len() + 2) {
        if w.rng.chance(3, 4) && !rem.is_empty() {
            let pick = if w.in_order { rem[0] } else { *w.rng.pick(&rem) };
                let key = es[pick].key.clone();
            let (s, fl) = ev(st.field(intern(&key)), "field")?.into_raw();
            w.tr("N");
            by_name(w, s, &key, es, &mut rem)?;
            *fl = true;
        } else if !w.no_absent && !w.in_order {
            let key = absent_key(w, es, &rem);
            let (s, fl) = ev(st.field(intern(&key)), "field")?.into_raw();
            w.tr("A");
            virtual_null(w, s, n)?;
            *fl = true;
        }
    }
    ev(st.close(), "close")?;
    ensure!(done, "struct not marked as done");
    Ok(())
}

/// Walks a whole document and closes the deserializer.
pub fn walk_doc<R: TextReader>(w: &mut Walk<R::Position>, reader: R, comments: bool, tree: &JNode) -> Result<(), String> {
    let cfg = if comments { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    let mut d = ev(TextDeserializer::new(cfg, reader), "new")?;
    walk(w, &mut d, tree)?;
    ev(d.close(), "close")
}
