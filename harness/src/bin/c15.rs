//! C15: the wrappers allow all correct use and stop incorrect use before damage.
use serdere::deserialize::DeserializeStruct;
use serdere::serialize::SerializeStruct;
use serdere::{deserialize, serialize};
use serdere::*;
use serdere_json::*;
use std::rc::Rc;
use vh::backend::*;
use vh::gen::*;
use vh::run::{quiet, show};
use vh::walk::intern;
use vh::*;

static NAMES: FixedNameMap<usize, 2> = FixedNameMap::new([("left", 0), ("right", 1)]);

/// The state of a run: choices, and where the one misuse goes.
struct St {
    rng: Rng,
    sites: usize,
    at: Option<usize>,
    hit: Option<&'static str>,
    /// Errors are ignored.
    swallow: bool,
    swallowed: bool,
}
impl St {
    fn new(rng: Rng, at: Option<usize>) -> St {
        St { rng, sites: 0, at, hit: None, swallow: false, swallowed: false }
    }
    /// Is this the place of the misuse?
    fn mis(&mut self, what: &'static str) -> bool {
        let n = self.sites;
        self.sites += 1;
        if self.hit.is_none() && self.at == Some(n) {
            self.hit = Some(what);
            return true;
        }
        false
    }
}

#[derive(Debug)]
struct MyErr;
impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("mine")
    }
}
impl std::error::Error for MyErr {}

fn mismatch(what: String) -> ! {
    panic!("MISMATCH: {}", what)
}
fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        mismatch(format!("{}: {:?}, expected {:?}", what, got, want));
    }
}
fn int(n: &str) -> i64 {
    n.parse().unwrap_or_else(|_| run::harness_error("number"))
}

/// Small documents whose numbers can be read as anything.
fn small_doc(rng: &mut Rng, depth: usize) -> V {
    match rng.below(if depth == 0 { 5 } else { 9 }) {
        0 => V::Null,
        1 => V::Bool(rng.bool()),
        2 => V::Num(rng.below(100).to_string()),
        3 => V::Str(rng.pick(&["", "x", "\u{e9}", "\"\\\n", "left", "right", "some text", "null"]).to_string()),
        4 => V::Str(gen::string(rng, false)),
        5 | 6 => V::Arr((0..rng.below(4)).map(|_| small_doc(rng, depth - 1)).collect()),
        _ => {
            let mut ks: Vec<&str> = vec!["a", "b", "c", "", "type", "k\u{e9}y", "has_value", "q\""];
            V::Obj(
                (0..rng.below(4))
                    .map(|_| {
                        let k = ks.remove(rng.below(ks.len()));
                        (k.to_string(), small_doc(rng, depth - 1))
                    })
                    .collect(),
            )
        }
    }
}

// ---------------------------------------------------------------- reading

#[derive(Debug, Deserialize)]
#[allow(dead_code)]
struct Der {
    a: u8,
}
#[derive(Debug, Deserialize)]
#[allow(dead_code)]
enum DerEnum {
    A,
    B,
}
#[derive(Debug, Deserialize)]
#[allow(dead_code)]
struct DerNone {}

const AFTER_NULL: usize = 39;
/// Uses a value that has been found to be null.
fn use_null<D: JsonDeserializer>(mut v: Value<D>, k: usize) -> Result<(), D::Error> {
    match k {
        0 => v.check_null().map(|_| ()),
        1 => v.get_bool().map(|_| ()),
        2 => v.get_i8().map(|_| ()),
        3 => v.get_i16().map(|_| ()),
        4 => v.get_i32().map(|_| ()),
        5 => v.get_i64().map(|_| ()),
        6 => v.get_u8().map(|_| ()),
        7 => v.get_u16().map(|_| ()),
        8 => v.get_u32().map(|_| ()),
        9 => v.get_u64().map(|_| ()),
        10 => v.get_f32().map(|_| ()),
        11 => v.get_f64().map(|_| ()),
        12 => v.get_char().map(|_| ()),
        13 => v.get_str().map(|_| ()),
        14 => v.get_tag(1, NAMES.unfix()).map(|_| ()),
        15 => v.into_list().map(|_| ()),
        16 => v.into_struct(None).map(|_| ()),
        17 => v.into_tuple(None).map(|_| ()),
        18 => v.validate_with(|_| Ok(Ok::<_, MyErr>(()))),
        19 => v.into_null(),
        20 => v.into_object().map(|_| ()),
        21 => v.skip(),
        22 => v.into_collection().map(|_| ()),
        23 => {
            v.ty();
            Ok(())
        }
        24 => v.get::<u8>().map(|_| ()),
        25 => v.get::<Option<u8>>().map(|_| ()),
        26 => v.get::<Option<Option<u8>>>().map(|_| ()),
        27 => v.get::<Vec<u8>>().map(|_| ()),
        28 => v.get::<String>().map(|_| ()),
        29 => v.get::<()>(),
        30 => v.get::<(u8, u8)>().map(|_| ()),
        31 => v.get::<[u8; 1]>().map(|_| ()),
        32 => v.get::<Der>().map(|_| ()),
        33 => v.get::<DerEnum>().map(|_| ()),
        34 => v.get::<std::num::NonZeroU8>().map(|_| ()),
        35 => v.get::<DerNone>().map(|_| ()),
        36 => v.get::<Option<DerNone>>().map(|_| ()),
        37 => v.get_using::<bool, _>(&mut 5).map(|_| ()),
        _ => v.get::<Box8>().map(|_| ()),
    }
}
/// A user's type that goes to the raw deserializer.
struct Box8;
impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Box8 {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut Ctx) -> Result<Self, D::Error> {
        let (d, done) = value.into_raw();
        d.get_u8()?;
        *done = true;
        Ok(Box8)
    }
}

fn read<D: JsonDeserializer>(v: Value<D>, n: &V, st: &mut St) -> Result<(), D::Error> {
    let r = read_value(v, n, st);
    if r.is_err() && st.swallow {
        st.swallowed = true;
        return Ok(());
    }
    r
}

fn read_value<D: JsonDeserializer>(v: Value<D>, n: &V, st: &mut St) -> Result<(), D::Error> {
    if st.mis("value dropped") {
        return Ok(());
    }
    match st.rng.below(16) {
        0 => {
            let (s, done) = v.into_raw();
            Value::with(s, |v| {
                if st.mis("Value::with leaves the value") {
                    return Ok(());
                }
                read(v, n, st)
            })?;
            *done = true;
            return Ok(());
        }
        1 => {
            return v.validate_with(|v| {
                if st.mis("validate_with leaves the value") {
                    return Ok(Ok(()));
                }
                if st.mis("validate_with leaves the value and fails") {
                    return Ok(Err(MyErr));
                }
                read(v, n, st)?;
                Ok(Ok(()))
            })
        }
        _ => {}
    }
    let ty = match n {
        V::Null => ValueType::Null,
        V::Bool(_) => ValueType::Bool,
        V::Num(_) => ValueType::Number,
        V::Str(_) => ValueType::String,
        V::Arr(_) => ValueType::Array,
        V::Obj(_) => ValueType::Object,
    };
    if st.rng.chance(1, 6) {
        expect("ty", v.ty(), ty);
    }
    if st.rng.chance(1, 12) {
        return v.skip();
    }
    let mut v = v;
    if *n != V::Null && st.rng.chance(1, 6) {
        expect("check_null", v.check_null()?, false);
    }
    match n {
        V::Null => match st.rng.below(6) {
            0 => v.into_null(),
            1 => v.get::<Option<u8>>().map(|x| expect("option", x, None)),
            2 => v.get::<Option<(Vec<u8>, String)>>().map(|x| expect("option", x, None)),
            _ => {
                expect("check_null", v.check_null()?, true);
                if st.mis("null used again") {
                    let k = st.rng.below(AFTER_NULL);
                    use_null(v, k)?;
                }
                Ok(())
            }
        },
        V::Bool(b) => match st.rng.below(3) {
            0 => v.get_bool().map(|x| expect("bool", x, *b)),
            1 => v.get::<bool>().map(|x| expect("bool", x, *b)),
            _ => v.get::<Option<bool>>().map(|x| expect("bool", x, Some(*b))),
        },
        V::Num(x) => {
            let w = int(x);
            macro_rules! g {
                ($m:ident) => {
                    v.$m().map(|x| expect("number", x as i64, w))
                };
            }
            match st.rng.below(12) {
                0 => g!(get_i8),
                1 => g!(get_i16),
                2 => g!(get_i32),
                3 => g!(get_i64),
                4 => g!(get_u8),
                5 => g!(get_u16),
                6 => g!(get_u32),
                7 => g!(get_u64),
                8 => g!(get_f32),
                9 => g!(get_f64),
                10 => v.get::<Box8>().map(|_| ()),
                _ => v.get::<Option<u8>>().map(|x| expect("number", x, Some(w as u8))),
            }
        }
        V::Str(s) => match st.rng.below(4) {
            0 if s.chars().count() == 1 => v.get_char().map(|x| expect("char", x, s.chars().next().unwrap())),
            1 if s == "left" || s == "right" => v.get_tag(1, NAMES.unfix()).map(|x| expect("tag", x, (s == "right") as usize)),
            2 => v.get::<String>().map(|x| expect("string", x, s.clone())),
            3 => {
                let (d, done) = v.into_raw();
                d.open_str()?;
                let mut got = String::new();
                while let Some(c) = d.next_char()? {
                    got.push(c);
                }
                expect("string", got, s.clone());
                *done = true;
                Ok(())
            }
            _ => v.get_str().map(|x| expect("string", x.into_owned(), s.clone())),
        },
        V::Arr(xs) => match st.rng.below(8) {
            0 | 1 => {
                let mut t = if st.rng.bool() {
                    v.into_tuple(None)?
                } else {
                    let (d, done) = v.into_raw();
                    d.open_tuple(Some("T"))?;
                    Tuple::with(d, |t| read_tuple(t, xs, st, true))?;
                    *done = true;
                    return Ok(());
                };
                let _ = &mut t;
                read_tuple(t, xs, st, false)
            }
            2 => {
                // As a struct
                let mut s = v.into_struct(Some("S"))?;
                for x in xs {
                    if st.mis("struct dropped") {
                        return Ok(());
                    }
                    read(s.field("f")?, x, st)?;
                }
                if st.mis("struct dropped") {
                    return Ok(());
                }
                s.close()
            }
            3 => read_collection(v, n, st),
            _ => read_list(v.into_list()?, xs, st),
        },
        V::Obj(es) => match st.rng.below(8) {
            0 | 1 => {
                let scoped = st.rng.bool();
                if scoped {
                    let (d, done) = v.into_raw();
                    d.open_struct(Some("T"))?;
                    Struct::with(d, |t| read_struct(t, es, st, true))?;
                    *done = true;
                    Ok(())
                } else {
                    read_struct(v.into_struct(None)?, es, st, false)
                }
            }
            2 => read_collection(v, n, st),
            3 => v.get_using::<Inl, _>(&mut InlCtx { fields: es.clone(), st }).map(|_| ()),
            _ => read_object(v.into_object()?, es, st),
        },
    }
}

fn read_tuple<D: JsonDeserializer>(mut t: Tuple<D>, xs: &[V], st: &mut St, scoped: bool) -> Result<(), D::Error> {
    let what = if scoped { "Tuple::with leaves the tuple" } else { "tuple dropped" };
    for x in xs {
        if st.mis(what) {
            return Ok(());
        }
        read(t.element()?, x, st)?;
    }
    if st.mis(what) {
        return Ok(());
    }
    t.close()
}

fn read_struct<D: JsonDeserializer>(mut t: Struct<D>, es: &[(String, V)], st: &mut St, scoped: bool) -> Result<(), D::Error> {
    let what = if scoped { "Struct::with leaves the struct" } else { "struct dropped" };
    let mut es: Vec<&(String, V)> = es.iter().collect();
    while !es.is_empty() && !st.rng.chance(1, 5) {
        if st.mis(what) {
            return Ok(());
        }
        let i = st.rng.below(es.len());
        let e = es.remove(i);
        if st.rng.chance(1, 5) {
            t.inline_get_using::<Inl, _>(&mut InlCtx { fields: vec![e.clone()], st })?;
        } else if st.rng.chance(1, 8) {
            let v = t.field("missing")?;
            read(v, &V::Null, st)?;
            read(t.field(intern(&e.0))?, &e.1, st)?;
        } else {
            read(t.field(intern(&e.0))?, &e.1, st)?;
        }
    }
    if st.mis(what) {
        return Ok(());
    }
    t.close()
}

fn read_list<D: JsonDeserializer>(mut l: List<D>, xs: &[V], st: &mut St) -> Result<(), D::Error> {
    let known = l.rem_len().is_some();
    for (i, x) in xs.iter().enumerate() {
        expect("rem_len", l.rem_len(), known.then_some(xs.len() - i));
        if st.mis("list dropped") {
            return Ok(());
        }
        if known && st.mis("list closed early") {
            return l.close();
        }
        if st.rng.bool() {
            match l.next()? {
                Some(v) => read(v, x, st)?,
                None => mismatch(format!("list ends after {} of {} items", i, xs.len())),
            }
        } else {
            read(l.push()?, x, st)?;
        }
    }
    expect("rem_len", l.rem_len(), known.then_some(0));
    if st.mis("list dropped") {
        return Ok(());
    }
    if known && st.mis("pushed beyond the end") {
        l.push()?;
        return Ok(());
    }
    if st.rng.bool() {
        l.close()
    } else {
        if l.next()?.is_some() {
            mismatch("list goes on".into());
        }
        if st.mis("next after the end of a list") {
            l.next()?;
        } else if st.mis("push after the end of a list") {
            l.push()?;
        } else if st.mis("close after the end of a list") {
            l.close()?;
        }
        Ok(())
    }
}

fn read_object<D: JsonDeserializer>(mut o: Object<D>, es: &[(String, V)], st: &mut St) -> Result<(), D::Error> {
    let mut es: Vec<&(String, V)> = es.iter().collect();
    loop {
        if st.mis("object dropped") {
            return Ok(());
        }
        match st.rng.below(8) {
            0 if !es.is_empty() => {
                let i = st.rng.below(es.len());
                let e = es.remove(i);
                read(o.entry(&e.0)?, &e.1, st)?;
            }
            1 if !es.is_empty() => {
                let i = st.rng.below(es.len());
                let e = es.remove(i);
                match o.try_entry(&e.0)? {
                    Some(v) => read(v, &e.1, st)?,
                    None => mismatch(format!("no entry {:?}", e.0)),
                }
            }
            2 => {
                if o.try_entry("not there")?.is_some() {
                    mismatch("entry that does not exist".into());
                }
            }
            3 => {
                let k = st.rng.below(es.len() + 1).min(2);
                let fields: Vec<(String, V)> = (0..k).map(|_| es.remove(st.rng.below(es.len())).clone()).collect();
                o.inline_using::<Inl, _>(&mut InlCtx { fields, st })?;
            }
            4 if es.is_empty() => return o.close(),
            _ => {
                if es.is_empty() {
                    if o.next_entry()?.is_some() {
                        mismatch("object goes on".into());
                    }
                    match st.rng.below(5) {
                        0 if st.mis("next_entry after the end") => o.next_entry().map(|_| ())?,
                        1 if st.mis("try_entry after the end") => o.try_entry("a").map(|_| ())?,
                        2 if st.mis("entry after the end") => o.entry("a").map(|_| ())?,
                        3 if st.mis("inline after the end") => o.inline_using::<Inl, _>(&mut InlCtx { fields: vec![], st }).map(|_| ())?,
                        4 if st.mis("close after the end") => o.close()?,
                        _ => {}
                    }
                    return Ok(());
                }
                let e = es.remove(0);
                let mut x = match o.next_entry()? {
                    Some(x) => x,
                    None => mismatch(format!("no entry, {:?} expected", e.0)),
                };
                if st.mis("entry dropped") {
                    continue;
                }
                if st.rng.bool() {
                    let k = x.key()?.into_owned();
                    expect("key", k, e.0.clone());
                    if st.mis("key read twice") {
                        x.key()?;
                        return Ok(());
                    }
                    if st.mis("entry dropped after its key") {
                        continue;
                    }
                }
                read(x.value()?, &e.1, st)?;
            }
        }
    }
}

fn read_collection<D: JsonDeserializer>(v: Value<D>, n: &V, st: &mut St) -> Result<(), D::Error> {
    let mut c = v.into_collection()?;
    let xs: Vec<&V> = match n {
        V::Arr(x) => x.iter().collect(),
        V::Obj(x) => x.iter().map(|e| &e.1).collect(),
        _ => unreachable!(),
    };
    expect("collection", matches!(c, Collection::List(_)), matches!(n, V::Arr(_)));
    for x in xs {
        if st.mis("collection dropped") {
            return Ok(());
        }
        match c.next()? {
            Some(v) => read(v, x, st)?,
            None => mismatch("collection ends early".into()),
        }
    }
    if st.mis("collection dropped") {
        return Ok(());
    }
    if c.next()?.is_some() {
        mismatch("collection goes on".into());
    }
    if st.mis("collection used after its end") {
        c.next()?;
    }
    Ok(())
}

/// Reads or writes the given fields.
struct Inl;
struct InlCtx<'a> {
    fields: Vec<(String, V)>,
    st: &'a mut St,
}
impl<'a, D: JsonDeserializer> Deserialize<D, InlCtx<'a>> for Inl {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut InlCtx<'a>) -> Result<Self, D::Error> {
        deserialize::deserialize_struct(value, ctx, Some("Inl"))
    }
}
impl<'a, D: JsonDeserializer> DeserializeStruct<D, InlCtx<'a>> for Inl {
    fn deserialize_content(s: &mut Struct<D>, ctx: &mut InlCtx<'a>) -> Result<Self, D::Error> {
        for (k, v) in &ctx.fields {
            read(s.field(intern(k))?, v, ctx.st)?;
        }
        Ok(Inl)
    }
}

// ---------------------------------------------------------------- writing

impl<'a, S: JsonSerializer> Serialize<S, InlCtx<'a>> for Inl {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut InlCtx<'a>) -> Result<(), S::Error> {
        serialize::serialize_struct(value, self, ctx, Some("Inl"))
    }
}
impl<'a, S: JsonSerializer> SerializeStruct<S, InlCtx<'a>> for Inl {
    fn serialize_content(&self, s: &mut Struct<S>, ctx: &mut InlCtx<'a>) -> Result<(), S::Error> {
        for (k, v) in &ctx.fields {
            write(s.field(intern(k))?, v, ctx.st)?;
        }
        Ok(())
    }
}

fn write<S: JsonSerializer>(v: Value<S>, n: &V, st: &mut St) -> Result<(), S::Error> {
    let r = write_value(v, n, st);
    if r.is_err() && st.swallow {
        st.swallowed = true;
        return Ok(());
    }
    r
}
fn write_value<S: JsonSerializer>(v: Value<S>, n: &V, st: &mut St) -> Result<(), S::Error> {
    if st.mis("value dropped") {
        return Ok(());
    }
    if st.rng.chance(1, 12) {
        let (s, done) = v.into_raw();
        Value::with(s, |v| {
            if st.mis("Value::with leaves the value") {
                return Ok(());
            }
            write(v, n, st)
        })?;
        *done = true;
        return Ok(());
    }
    match n {
        V::Null => match st.rng.below(3) {
            0 => v.into_null(),
            1 => v.put(&None::<u8>),
            _ => v.put_using(&None::<String>, &mut 1),
        },
        V::Bool(b) => match st.rng.below(3) {
            0 => v.put_bool(*b),
            1 => v.put(&Some(*b)),
            _ => v.put(b),
        },
        V::Num(x) => {
            let w = int(x);
            match st.rng.below(13) {
                0 => v.put_i8(w as i8),
                1 => v.put_i16(w as i16),
                2 => v.put_i32(w as i32),
                3 => v.put_i64(w),
                4 => v.put_u8(w as u8),
                5 => v.put_u16(w as u16),
                6 => v.put_u32(w as u32),
                7 => v.put_u64(w as u64),
                8 => v.put_f32(w as f32),
                9 => v.put_f64(w as f64),
                10 => v.put(&Some(w)),
                11 => v.put_tag(w as usize + st.rng.below(3), w as usize, None),
                _ => v.put_using(&(w as u8), &mut "ctx"),
            }
        }
        V::Str(s) => match st.rng.below(5) {
            0 if s.chars().count() == 1 => v.put_char(s.chars().next().unwrap()),
            1 => v.put_tag(3, 2, Some(intern(s))),
            2 => v.put(s),
            3 => {
                let (d, done) = v.into_raw();
                d.open_str()?;
                for c in s.chars() {
                    d.append_char(c)?;
                }
                d.close_str()?;
                *done = true;
                Ok(())
            }
            _ => v.put_str(s),
        },
        V::Arr(xs) => match st.rng.below(5) {
            0 => {
                if st.rng.bool() {
                    write_tuple(v.into_tuple(Some("T"))?, xs, st, false)
                } else {
                    let (s, done) = v.into_raw();
                    s.open_tuple(None)?;
                    Tuple::with(s, |t| write_tuple(t, xs, st, true))?;
                    *done = true;
                    Ok(())
                }
            }
            1 => write_list(v.into_list_streaming()?, xs, st, false),
            _ => write_list(v.into_list_sized(xs.len())?, xs, st, true),
        },
        V::Obj(es) => match st.rng.below(5) {
            0 => {
                let (s, done) = v.into_raw();
                s.open_struct(None)?;
                Struct::with(s, |t| write_struct(t, es, st, true))?;
                *done = true;
                Ok(())
            }
            1 => write_struct(v.into_struct(Some("S"))?, es, st, false),
            2 => v.put_using(&Inl, &mut InlCtx { fields: es.clone(), st }),
            _ => {
                let mut o = v.into_object()?;
                for (k, x) in es {
                    if st.mis("object dropped") {
                        return Ok(());
                    }
                    write(o.entry(k)?, x, st)?;
                }
                if st.mis("object dropped") {
                    return Ok(());
                }
                o.close()
            }
        },
    }
}
fn write_tuple<S: JsonSerializer>(mut t: Tuple<S>, xs: &[V], st: &mut St, scoped: bool) -> Result<(), S::Error> {
    let what = if scoped { "Tuple::with leaves the tuple" } else { "tuple dropped" };
    for x in xs {
        if st.mis(what) {
            return Ok(());
        }
        write(t.element()?, x, st)?;
    }
    if st.mis(what) {
        return Ok(());
    }
    t.close()
}
fn write_struct<S: JsonSerializer>(mut t: Struct<S>, es: &[(String, V)], st: &mut St, scoped: bool) -> Result<(), S::Error> {
    let what = if scoped { "Struct::with leaves the struct" } else { "struct dropped" };
    let mut i = 0;
    while i < es.len() {
        if st.mis(what) {
            return Ok(());
        }
        if st.rng.chance(1, 4) {
            let k = st.rng.range(1, es.len() - i);
            t.inline_put_using(&Inl, &mut InlCtx { fields: es[i..i + k].to_vec(), st })?;
            i += k;
        } else {
            write(t.field(intern(&es[i].0))?, &es[i].1, st)?;
            i += 1;
        }
    }
    if st.mis(what) {
        return Ok(());
    }
    t.close()
}
fn write_list<S: JsonSerializer>(mut l: List<S>, xs: &[V], st: &mut St, known: bool) -> Result<(), S::Error> {
    for (i, x) in xs.iter().enumerate() {
        expect("rem_len", l.rem_len(), known.then_some(xs.len() - i));
        if st.mis("list dropped") {
            return Ok(());
        }
        if known && st.mis("list closed early") {
            return l.close();
        }
        write(l.push()?, x, st)?;
    }
    expect("rem_len", l.rem_len(), known.then_some(0));
    if st.mis("list dropped") {
        return Ok(());
    }
    if known && st.mis("pushed beyond the end") {
        return write(l.push()?, &V::Null, st);
    }
    l.close()
}

// ---------------------------------------------------------------- monitors

/// What a run ended with.
enum End {
    Done,
    Error(String),
    Panic(String),
}
fn end<T, E: std::fmt::Display>(r: Result<Result<T, E>, String>) -> End {
    match r {
        Ok(Ok(_)) => End::Done,
        Ok(Err(e)) => End::Error(e.to_string()),
        Err(p) => End::Panic(p),
    }
}
/// Judges the run with a misuse.
fn stopped(what: &str, e: End) -> Result<(), String> {
    match e {
        End::Done => Err(format!("misuse `{}` goes unnoticed", what)),
        End::Error(e) => Err(format!("misuse `{}` gives only an error: {}", what, e)),
        End::Panic(p) => {
            let ok = match what {
                "list closed early" => p.contains(LIST_UNDERFLOW_ERROR),
                "pushed beyond the end" => p.contains(LIST_OVERFLOW_ERROR),
                // The remaining length may be noticed first
                w if w.contains("after the end of a list") => p.contains(LIST_OVERFLOW_ERROR) || p.contains(INVALID_STATE_ERROR),
                _ => p.contains(INVALID_STATE_ERROR) || p.contains(LIST_OVERFLOW_ERROR) || p.contains(LIST_UNDERFLOW_ERROR),
            };
            ensure!(ok, "misuse `{}` is not stopped by the wrapper but ends in panic {}", what, p);
            Ok(())
        }
    }
}
fn correct(e: End) -> Result<(), String> {
    match e {
        End::Done => Ok(()),
        End::Error(e) => Err(format!("correct use gives error {}", e)),
        End::Panic(p) => Err(format!("correct use panics: {}", p)),
    }
}

fn node_matches(n: &Node, v: &V) -> bool {
    match (n, v) {
        (Node::Null, V::Null) => true,
        (Node::Bool(a), V::Bool(b)) => a == b,
        (Node::Int(_, a), V::Num(b)) => a.to_string() == *b,
        (Node::F32(a), V::Num(b)) => f32::from_bits(*a) == int(b) as f32,
        (Node::F64(a), V::Num(b)) => f64::from_bits(*a) == int(b) as f64,
        (Node::Tag { index, name: None, .. }, V::Num(b)) => index.to_string() == *b,
        (Node::Tag { name: Some(a), .. }, V::Str(b)) => a == b,
        (Node::Char(a), V::Str(b)) => a.to_string() == *b,
        (Node::Str(a), V::Str(b)) => a == b,
        (Node::Tuple(_, a) | Node::List(a) | Node::Stream(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| node_matches(a, b)),
        (Node::Struct(_, a), V::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && node_matches(&a.1, &b.1)),
        (Node::Object(a), V::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && node_matches(&a.1, &b.1)),
        _ => false,
    }
}
fn to_node(v: &V) -> Rc<Node> {
    Rc::new(match v {
        V::Null => Node::Null,
        V::Bool(b) => Node::Bool(*b),
        V::Num(x) => Node::Int("i64", int(x) as i128),
        V::Str(s) => Node::Str(s.clone()),
        V::Arr(x) => Node::List(x.iter().map(to_node).collect()),
        V::Obj(x) => Node::Object(x.iter().map(|e| (e.0.clone(), to_node(&e.1))).collect()),
    })
}

fn lenient(rng: &mut Rng) -> Caps {
    Caps { null: true, len: rng.bool(), by_name: rng.bool(), strict: false, lax: false }
}

fn tally(cx: &mut Cx, what: &'static str) {
    cx.count(if what.starts_with("null") { "null_again" } else if what.contains("after") { "after_end" } else if what.contains("dropped") { "dropped" } else if what.contains("::with") || what.contains("validate") { "scopes" } else if what.contains("key") { "key_twice" } else { "length" }, 1);
    cx.distinct(hash(what));
}
fn hash(s: &str) -> u64 {
    vh::rng::hash_bytes(s.as_bytes())
}

/// Whether `n` is what writing `v` should give. A whole number may be written as a float.
fn same(v: &V, n: &JNode) -> bool {
    match (v, &n.kind) {
        (V::Num(a), JKind::Num(b)) => a.parse::<f64>().ok() == b.parse::<f64>().ok(),
        (V::Arr(a), JKind::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (V::Obj(a), JKind::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), e)| *k == e.key && same(x, &e.value)),
        _ => matches(v, n),
    }
}

fn writing(rng: &mut Rng, _idx: u64, cx: &mut Cx) -> Result<(), String> {
    let v = small_doc(rng, 3);
    let r0 = rng.fork();
    let caps = Caps { strict: false, ..lenient(rng) };
    // Correct use, JSON
    let indent = *rng.pick(&[None, Some("  "), Some("\t")]);
    let json = |at: Option<usize>, out: &mut String| {
        let mut st = St::new(r0.clone(), at);
        let r = quiet(|| {
            let mut t = TextSerializer::new(TextSerializerConfig { indent }, &mut *out);
            Value::with(&mut t, |o| write(o, &v, &mut st))?;
            t.close();
            Ok::<_, std::convert::Infallible>(())
        });
        (end(r.map(|r| r.map_err(|e| e.to_string()))), st)
    };
    let mut whole = String::new();
    let (e, st) = json(None, &mut whole);
    let ctx = |what: &str, text: &str| format!("{} writing {:?} as JSON, output {}", what, v, show(text));
    correct(e).map_err(|m| ctx(&m, &whole))?;
    let tree = refjson::parse(&whole, false).map_err(|_| ctx("invalid output", &whole))?;
    ensure!(same(&v, &tree), "{}", ctx("wrong output", &whole));
    let sites = st.sites;
    cx.count("write_correct", 1);
    cx.sample(|| format!("written {}", show(&whole)));
    cx.distinct(hash(&whole));
    // Correct use, recording backend
    let rec = |at: Option<usize>, fail: Option<usize>, swallow: bool| {
        let mut st = St::new(r0.clone(), at);
        st.swallow = swallow;
        let mut s = RecSer::new(caps);
        s.fail_at = fail;
        let r = quiet(|| Value::with(&mut s, |o| write(o, &v, &mut st)));
        (end(r), st, s)
    };
    let (e, _, s) = rec(None, None, false);
    let calls = s.calls;
    correct(e).map_err(|m| ctx(&m, "(recorder)"))?;
    let root = s.finish().map_err(|m| ctx(&m, "(recorder)"))?;
    ensure!(node_matches(&root, &v), "{}: recorded {:?}", ctx("wrong calls", "(recorder)"), root);
    // Misuse
    if sites > 0 {
        for _ in 0..2 {
            cx.evals += 1;
            let at = Some(rng.below(sites));
            let mut part = String::new();
            let (e, st) = json(at, &mut part);
            let Some(what) = st.hit else { run::harness_error("misuse not reached") };
            stopped(what, e).map_err(|m| ctx(&m, &part))?;
            ensure!(whole.starts_with(&part), "after misuse `{}` {} is written where {} was due", what, show(&part), show(&whole));
            tally(cx, what);
            let (e, _, s) = rec(at, None, false);
            stopped(what, e).map_err(|m| ctx(&m, "(recorder)"))?;
            ensure!(s.calls <= calls, "{} calls after misuse `{}`, {} without", s.calls, what, calls);
            cx.count("write_misuse", 1);
        }
    }
    // An error that is ignored
    let k = rng.range(1, calls);
    let (e, st, s) = rec(None, Some(k), true);
    if !st.swallowed {
        match e {
            // The failing call is outside of every value that could ignore it
            End::Error(_) => {}
            _ => return Err(ctx("an injected failure is lost", "(recorder)")),
        }
    } else {
        stopped("error ignored", e).map_err(|m| ctx(&format!("{} (failure at call {} of {})", m, k, calls), "(recorder)"))?;
        ensure!(s.after_fail == 0, "{}", ctx(&format!("{} calls to the backend after an ignored failure at call {} of {}", s.after_fail, k, calls), "(recorder)"));
        cx.count("ignored_errors", 1);
    }
    Ok(())
}

fn reading(rng: &mut Rng, _idx: u64, cx: &mut Cx) -> Result<(), String> {
    let v = small_doc(rng, 3);
    let style = Style::random(rng, false);
    let text = render(rng, &v, &style);
    let r0 = rng.fork();
    let caps = lenient(rng);
    let json = |at: Option<usize>| {
        let mut st = St::new(r0.clone(), at);
        let r = quiet(|| {
            let mut t = TextDeserializer::new(TextDeserializerConfig::strict(), text.as_str()).map_err(|e| walk::emsg(&e))?;
            Value::with(&mut t, |o| read(o, &v, &mut st)).map_err(|e| walk::emsg(&e))?;
            t.close().map_err(|e| walk::emsg(&e))
        });
        (end(r), st)
    };
    let (e, st) = json(None);
    let ctx = |what: &str| format!("{} reading {}", what, show(&text));
    correct(e).map_err(|m| ctx(&m))?;
    cx.count("read_correct", 1);
    cx.sample(|| format!("read {}", show(&text)));
    cx.distinct(hash(&text));
    if st.sites > 0 {
        for _ in 0..2 {
            cx.evals += 1;
            let (e, st) = json(Some(rng.below(st.sites)));
            let Some(what) = st.hit else { run::harness_error("misuse not reached") };
            stopped(what, e).map_err(|m| ctx(&m))?;
            tally(cx, what);
            cx.count("read_misuse", 1);
        }
    }
    // The recorder knows (or not) the lengths of lists
    let root = to_node(&v);
    let rec = |at: Option<usize>, fail: Option<usize>| {
        let mut st = St::new(r0.clone(), at);
        st.swallow = fail.is_some();
        let mut d = RecDe::new(caps, root.clone());
        d.fail_at = fail;
        let r = quiet(|| Value::with(&mut d, |o| read(o, &v, &mut st)));
        (end(r), st, d)
    };
    let (e, st, d) = rec(None, None);
    let calls = d.calls;
    let ctx = |what: &str| format!("{} reading {} from the recorder", what, show(&text));
    correct(e).map_err(|m| ctx(&m))?;
    d.finish().map_err(|m| ctx(&m))?;
    if st.sites > 0 {
        for _ in 0..2 {
            cx.evals += 1;
            let (e, st, d) = rec(Some(rng.below(st.sites)), None);
            let Some(what) = st.hit else { run::harness_error("misuse not reached") };
            stopped(what, e).map_err(|m| ctx(&m))?;
            ensure!(d.calls <= calls, "{} calls after misuse `{}`, {} without", d.calls, what, calls);
            tally(cx, what);
            cx.count("read_misuse", 1);
        }
    }
    let k = rng.range(1, calls);
    let (e, st, d) = rec(None, Some(k));
    if !st.swallowed {
        ensure!(matches!(e, End::Error(_)), "{}", ctx("an injected failure is lost"));
    } else {
        stopped("error ignored", e).map_err(|m| ctx(&format!("{} (failure at call {} of {})", m, k, calls)))?;
        ensure!(d.after_fail == 0, "{}", ctx(&format!("{} calls to the backend after an ignored failure at call {} of {}", d.after_fail, k, calls)));
        cx.count("ignored_errors", 1);
    }
    Ok(())
}

/// Every method on a value that is known to be null, in every kind of place.
fn nulls(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let k = idx as usize % AFTER_NULL;
    let docs = ["null", "[null]", "[null,null]", "[null,1,[2]]", "{\"a\":null}", "{\"a\":null,\"b\":[1]}", "{\"z\":0,\"a\":null}", "{\"z\":{\"a\":null}}", "{}"];
    let t = *rng.pick(&docs);
    fn at_null<D: JsonDeserializer>(v: Value<D>, t: &str, k: usize, how: usize) -> Result<(), D::Error> {
        let go = |mut v: Value<D>| {
            assert!(v.check_null()?, "MISMATCH: not null");
            use_null(v, k)
        };
        match t {
            "null" => go(v),
            _ if t.starts_with('[') => match how {
                0 => go(v.into_list()?.push()?),
                1 => go(v.into_list()?.next()?.unwrap()),
                _ => go(v.into_tuple(None)?.element()?),
            },
            "{}" => go(v.into_struct(None)?.field("a")?),
            "{\"z\":{\"a\":null}}" => go(v.into_object()?.entry("z")?.into_struct(None)?.field("a")?),
            _ => match how {
                0 => go(v.into_object()?.entry("a")?),
                1 => go(v.into_struct(None)?.field("a")?),
                _ => go(v.into_object()?.try_entry("a")?.unwrap()),
            },
        }
    }
    let how = rng.below(3);
    let r = quiet(|| {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), t).map_err(|e| walk::emsg(&e))?;
        Value::with(&mut d, |v| at_null(v, t, k, how)).map_err(|e| walk::emsg(&e))
    });
    stopped("null used again", end(r)).map_err(|m| format!("{} (operation {}) on {}", m, k, show(t)))?;
    cx.count("null_ops", 1);
    cx.distinct(k as u64 * 100 + docs.iter().position(|d| *d == t).unwrap() as u64);
    Ok(())
}

/// User types that don't consume what they are given, inside everything.
mod lazy {
    use super::*;
    #[derive(Debug)]
    pub struct Lazy;
    impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Lazy {
        const NULLABLE: bool = false;
        fn serialize(&self, _: Value<S>, _: &mut Ctx) -> Result<(), S::Error> {
            Ok(())
        }
    }
    impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Lazy {
        const NULLABLE: bool = false;
        fn deserialize(_: Value<D>, _: &mut Ctx) -> Result<Self, D::Error> {
            Ok(Lazy)
        }
    }
    /// Opens a container but does not close it.
    #[derive(Debug)]
    pub struct Open;
    impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Open {
        const NULLABLE: bool = false;
        fn serialize(&self, v: Value<S>, _: &mut Ctx) -> Result<(), S::Error> {
            let mut t = v.into_tuple(None)?;
            t.element()?.put_u8(1)
        }
    }
    impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Open {
        const NULLABLE: bool = false;
        fn deserialize(v: Value<D>, _: &mut Ctx) -> Result<Self, D::Error> {
            let _ = v.into_list()?;
            Ok(Open)
        }
    }
    /// Leaves a field of the struct.
    #[derive(Debug)]
    pub struct Half;
    impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Half {
        const NULLABLE: bool = false;
        fn serialize(&self, v: Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
            serialize::serialize_struct(v, self, ctx, None)
        }
    }
    impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for Half {
        fn serialize_content(&self, st: &mut Struct<S>, _: &mut Ctx) -> Result<(), S::Error> {
            st.field("one")?.put_u8(1)?;
            let _ = st.field("two")?;
            Ok(())
        }
    }
    impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Half {
        const NULLABLE: bool = false;
        fn deserialize(v: Value<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
            deserialize::deserialize_struct(v, ctx, None)
        }
    }
    impl<D: Deserializer + ?Sized, Ctx: ?Sized> DeserializeStruct<D, Ctx> for Half {
        fn deserialize_content(st: &mut Struct<D>, _: &mut Ctx) -> Result<Self, D::Error> {
            st.field("one")?.get_u8()?;
            let _ = st.field("two")?;
            Ok(Half)
        }
    }
    #[derive(Debug, Serialize, Deserialize)]
    pub struct In<T> {
        pub a: u8,
        pub v: T,
    }
    #[derive(Debug, Serialize, Deserialize)]
    pub struct Mid<T> {
        pub v: T,
        pub a: u8,
    }
    #[derive(Debug, Serialize, Deserialize)]
    pub struct FlatIn<T> {
        pub a: u8,
        #[serde(flatten)]
        pub v: T,
    }
    #[derive(Debug, Serialize, Deserialize)]
    pub struct FlatMid<T> {
        #[serde(flatten)]
        pub v: T,
        pub a: u8,
    }
    #[derive(Debug, Serialize, Deserialize)]
    pub enum En<T> {
        #[serde(transparent)]
        Tr(T),
    }
    #[derive(Debug, Serialize, Deserialize)]
    pub enum En2<T> {
        F { v: T },
    }
    #[derive(Debug, Deserialize, Serialize)]
    pub struct Dft<T: Default> {
        #[serde(default)]
        pub v: T,
    }
    impl Default for Lazy {
        fn default() -> Self {
            Lazy
        }
    }
}

fn lazies(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    use lazy::*;
    let mut n = 0;
    let mut k = 0;
    let pick = idx as usize % 34;
    macro_rules! w {
        ($($e:expr),* $(,)?) => {$(
            if pick == n {
                k += 1;
                let mut out = String::new();
                let by_writer = rng.bool();
                let r = quiet(|| if by_writer { to_writer(&mut out, &$e).map(|_| String::new()) } else { Ok(to_str(&$e)) });
                stopped("user type leaves its value", end(r)).map_err(|m| format!("{} writing {:?}", m, $e))?;
                let mut s = RecSer::new(Caps::all(7));
                let r = quiet(|| Value::with(&mut s, |v| v.put(&$e)));
                stopped("user type leaves its value", end(r)).map_err(|m| format!("{} recording {:?}", m, $e))?;
            }
            n += 1;
        )*};
    }
    w!(Lazy, Open, Half, Some(Lazy), vec![Lazy], vec![Lazy, Lazy], (1u8, Lazy), (Lazy, 1u8), (1u8, 2u8, Open), [Open, Open], [Lazy],
       In { a: 1, v: Lazy }, Mid { v: Open, a: 1 }, FlatIn { a: 1, v: Half }, FlatMid { v: Half, a: 1 }, En::Tr(Half), En2::F { v: Lazy }, Some(Some(Lazy)), Some(vec![(1u8, Half)]));
    macro_rules! r {
        ($($t:ty: $s:expr),* $(,)?) => {$(
            if pick == n {
                k += 1;
                let r = quiet(|| from_str::<$t>($s).map_err(|e| walk::emsg(&e)));
                stopped("user type leaves its value", end(r)).map_err(|m| format!("{} reading {} from {}", m, std::any::type_name::<$t>(), $s))?;
            }
            n += 1;
        )*};
    }
    r!(Lazy: "1", Open: "[1]", Half: "{\"one\":1,\"two\":2}", Option<Lazy>: "1", Vec<Lazy>: "[1,2]", Vec<Lazy>: "[1]", (u8, Lazy): "[1,2]", (Lazy, u8): "[1,2]", [Open; 2]: "[[1],[2]]", [Lazy; 1]: "[1]",
       In<Lazy>: "{\"a\":1,\"v\":2}", Mid<Open>: "{\"v\":[1],\"a\":1}", FlatIn<Half>: "{\"a\":1,\"one\":1,\"two\":2}", En<Half>: "{\"type\":\"Tr\",\"one\":1,\"two\":[2]}", Dft<Lazy>: "{\"v\":3}");
    ensure_all(n, 34);
    let _ = k;
    cx.count("lazy_types", 1);
    cx.distinct(pick as u64);
    Ok(())
}
/// Lists with long and with absurd lengths.
fn lengths(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    const HUGE: &[usize] = &[u32::MAX as usize - 1, u32::MAX as usize, 1 << 32, 1 << 40, isize::MAX as usize, usize::MAX - 1, usize::MAX];
    let some = if rng.chance(1, 4) { rng.below(5) } else { gen::length(rng, 1 << 17) };
    let (n, k) = match idx % 4 {
        // All of them, some of them, or far fewer
        0 | 1 => (some, some),
        2 => (some, rng.below(some + 1)),
        _ => {
            let k = rng.below(70_000);
            (rng.pick(HUGE).saturating_add(*rng.pick(&[0, 1, k, k + 1])), k)
        }
    };
    let known = rng.chance(3, 4);
    let more = k == n && known && rng.bool();
    let how = rng.below(3);
    let what = format!("list of {} (length {}), {} items, {}", n, if known { "known" } else { "unknown" }, k, ["written as JSON", "read from JSON", "recorded"][how]);
    cx.distinct_str(&what);
    cx.sample(|| what.clone());
    let rem = |i: usize| known.then_some(n - i);
    let mut at = 0;
    let at = &mut at;
    let end = match how {
        0 => {
            let mut out = String::new();
            let e = end(quiet(|| {
                let mut t = TextSerializer::new(TextSerializerConfig { indent: None }, &mut out);
                Value::with(&mut t, |v| {
                    let mut l = if known { v.into_list_sized(n)? } else { v.into_list_streaming()? };
                    for i in 0..k {
                        expect("rem_len", l.rem_len(), rem(i));
                        l.push()?.put_u8((i % 10) as u8)?;
                        *at = i + 1;
                    }
                    expect("rem_len", l.rem_len(), rem(k));
                    if more {
                        l.push()?.put_u8(0)?;
                    }
                    l.close()
                })
            }));
            out.retain(|c| c != ' ');
            let mut want = String::from("[");
            for i in 0..k {
                if i > 0 {
                    want.push(',');
                }
                want.push((b'0' + (i % 10) as u8) as char);
            }
            if matches!(e, End::Done) {
                want.push(']');
            }
            ensure!(out == want, "{}: wrong output {}", what, show(&out));
            e
        }
        1 => {
            let text = format!("[{}]", vec!["7"; k].join(","));
            end(quiet(|| {
                let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), text.as_str())?;
                expect("open_list", d.open_list()?, None);
                let mut done = false;
                let mut l = List::new(&mut d, &mut done, known.then_some(n));
                for i in 0..k {
                    expect("rem_len", l.rem_len(), rem(i));
                    let v = if (i ^ k) & 1 == 0 { l.push()? } else { l.next()?.unwrap_or_else(|| mismatch(format!("ends after {}", i))) };
                    expect("item", v.get_u8()?, 7);
                    *at = i + 1;
                }
                expect("rem_len", l.rem_len(), rem(k));
                if more {
                    l.push()?.get_u8()?;
                }
                l.close()?;
                expect("done", done, true);
                d.close()
            })
            .map(|r| r.map_err(|e: DeserializeError<StrPosition>| vh::walk::emsg(&e))))
        }
        _ => {
            let mut s = RecSer::new(Caps { strict: false, ..lenient(rng) });
            let e = end(quiet(|| {
                Value::with(&mut s, |v| {
                    let mut l = if known { v.into_list_sized(n)? } else { v.into_list_streaming()? };
                    for i in 0..k {
                        expect("rem_len", l.rem_len(), rem(i));
                        l.push()?.put_u8(1)?;
                        *at = i + 1;
                    }
                    expect("rem_len", l.rem_len(), rem(k));
                    if more {
                        l.push()?.put_u8(0)?;
                    }
                    l.close()
                })
            }));
            if matches!(e, End::Done) {
                let root = s.finish().map_err(|m| format!("{}: {}", what, m))?;
                ensure!(root.items().len() == k, "{}: {} items arrive", what, root.items().len());
            }
            e
        }
    };
    ensure!(*at == k || !matches!(end, End::Done), "{}: ends after {}", what, at);
    if more {
        stopped("pushed beyond the end", end).map_err(|m| format!("{}: {}", what, m))?;
        cx.count("long_overflow", 1);
    } else if known && k < n {
        ensure!(*at == k, "{}: stopped after {} with {}", what, at, correct(end).err().unwrap_or_default());
        stopped("list closed early", end).map_err(|m| format!("{}: {}", what, m))?;
        cx.count("long_underflow", 1);
    } else {
        correct(end).map_err(|m| format!("{}: {}", what, m))?;
        cx.count("long_correct", 1);
    }
    Ok(())
}

fn ensure_all(n: usize, want: usize) {
    if n != want {
        run::harness_error(&format!("{} lazy cases", n));
    }
}

fn main() {
    run::main(Check {
        id: "C15",
        level: "exploration",
        rule: "random documents written and read by random programs over all wrappers (value, struct, tuple, list, object, entry, collection, scoped forms, validation, inlining), over JSON and over a recording backend with a protocol automaton: correct runs must not panic and must deliver the document; the same program with one misuse at a random place (or one ignored backend failure) must panic in the wrapper with nothing wrong written and no illegal or later backend call; every method on a value known to be null; user types that do not consume their value inside every container; lists of up to 131072 items and of declared lengths up to usize::MAX; distinct by document and misuse",
        assumptions: &["continuing with a parent after an error of its child counts as leaving the child's value unconsumed"],
        phases: vec![
            Phase { name: "writing", quick: 1200000, thorough: 0, f: writing },
            Phase { name: "reading", quick: 1200000, thorough: 0, f: reading },
            Phase { name: "nulls", quick: 20_000, thorough: 100_000, f: nulls },
            Phase { name: "lengths", quick: 6000, thorough: 0, f: lengths },
            Phase { name: "lazies", quick: 3_400, thorough: 34_000, f: lazies },
        ],
        floors: &[("write_correct", 2000), ("read_correct", 2000), ("write_misuse", 2000), ("read_misuse", 2000), ("null_again", 50), ("after_end", 50), ("dropped", 500), ("scopes", 100), ("key_twice", 20), ("length", 100), ("ignored_errors", 500), ("null_ops", 500), ("lazy_types", 340), ("long_correct", 50), ("long_overflow", 50), ("long_underflow", 50)],
        hang_cpu_s: 30,
    });
}
