//! Random programs of serializer calls.
use crate::gen;
use crate::mine::pools;
use crate::types::{int_of, Ty};
use crate::walk::intern;
use crate::{JKind, JNode, Rng};
use serdere::*;
use serdere_json::*;

#[derive(Debug, Clone)]
pub enum P {
    Null,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// Opened string, appended in pieces.
    Pieces(Vec<Piece>),
    Tag(usize, usize, Option<&'static str>),
    Sized(Vec<P>),
    Streaming(Vec<P>),
    Tuple(Option<&'static str>, Vec<P>),
    Struct(Option<&'static str>, Vec<(&'static str, P)>),
    Object(Vec<(Key, P)>),
}

#[derive(Debug, Clone)]
pub enum Piece {
    C(char),
    S(String),
}

#[derive(Debug, Clone)]
pub enum Key {
    Whole(String),
    Pieces(Vec<Piece>),
}

pub fn join(ps: &[Piece]) -> String {
    ps.iter()
        .map(|p| match p {
            Piece::C(c) => c.to_string(),
            Piece::S(s) => s.clone(),
        })
        .collect()
}

impl Key {
    pub fn text(&self) -> String {
        match self {
            Key::Whole(s) => s.clone(),
            Key::Pieces(p) => join(p),
        }
    }
}

pub struct Opts {
    pub max_nodes: usize,
    pub max_depth: usize,
}

fn pieces(r: &mut Rng) -> Vec<Piece> {
    (0..r.small(6))
        .map(|_| if r.bool() { Piece::C(nasty(r)) } else { Piece::S(string(r)) })
        .collect()
}

fn nasty(r: &mut Rng) -> char {
    match r.below(3) {
        0 => char::from_u32(r.below(0x30) as u32).unwrap(),
        1 => *r.pick(&['"', '\\', '/', '\u{7f}', '\u{80}', '\u{2028}', '\u{2029}', '\u{feff}', 'u', 'b', 'n', 't', 'r', 'f', '\u{0}', '😀']),
        _ => gen::any_char(r),
    }
}

fn string(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        (0..r.small(12)).map(|_| nasty(r)).collect()
    } else {
        gen::string(r, true)
    }
}

fn key(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        string(r)
    } else {
        gen::key(r)
    }
}

fn opt_name(r: &mut Rng) -> Option<&'static str> {
    *r.pick(&[None, None, Some("T"), Some(""), Some("a\"b\\\n")])
}

pub fn scalar(r: &mut Rng) -> P {
    match r.below(18) {
        0 => P::Null,
        1 => P::Bool(r.bool()),
        2 => P::I8(int_of(r, i8::MIN as i128, i8::MAX as i128) as i8),
        3 => P::I16(int_of(r, i16::MIN as i128, i16::MAX as i128) as i16),
        4 => P::I32(int_of(r, i32::MIN as i128, i32::MAX as i128) as i32),
        5 => P::I64(int_of(r, i64::MIN as i128, i64::MAX as i128) as i64),
        6 => P::U8(int_of(r, 0, u8::MAX as i128) as u8),
        7 => P::U16(int_of(r, 0, u16::MAX as i128) as u16),
        8 => P::U32(int_of(r, 0, u32::MAX as i128) as u32),
        9 => P::U64(int_of(r, 0, u64::MAX as i128) as u64),
        10 => P::F32(<f32 as Ty>::gen(r)),
        11 => P::F64(<f64 as Ty>::gen(r)),
        12 => P::Char(nasty(r)),
        13 | 14 => P::Str(string(r)),
        15 | 16 => P::Pieces(pieces(r)),
        _ => {
            let max = *r.pick(&[0, 1, 7, 255, 256, 65535, usize::MAX]);
            let idx = match r.below(3) {
                0 => 0,
                1 => max,
                _ => r.u64() as usize % max.max(1),
            };
            let name = if r.bool() { None } else { Some(intern(r.pick(&["a", "B", "", "q\"\\\u{1}\n", "漢字", "type", "null"]))) };
            P::Tag(max, idx, name)
        }
    }
}

pub fn program(r: &mut Rng, o: &Opts) -> P {
    let mut budget = r.range(1, o.max_nodes);
    node(r, o, &mut budget, 0)
}

fn node(r: &mut Rng, o: &Opts, budget: &mut usize, depth: usize) -> P {
    *budget = budget.saturating_sub(1);
    let container = *budget > 0 && depth < o.max_depth && (depth == 0 && r.chance(12, 13) || r.chance(2, 5));
    let n = if container {
        if r.chance(1, 200) {
            (*r.pick(&pools().sizes)).min(300)
        } else {
            r.below((*budget).min(7) + 1)
        }
    } else if r.chance(1, 7) {
        0
    } else {
        return scalar(r);
    };
    match r.below(7) {
        0 => P::Sized((0..n).map(|_| node(r, o, budget, depth + 1)).collect()),
        1 => P::Streaming((0..n).map(|_| node(r, o, budget, depth + 1)).collect()),
        2 => P::Tuple(opt_name(r), (0..n).map(|_| node(r, o, budget, depth + 1)).collect()),
        3 => P::Struct(opt_name(r), (0..n).map(|_| (intern(&key(r)), node(r, o, budget, depth + 1))).collect()),
        _ => P::Object(
            (0..n)
                .map(|_| {
                    let k = if r.chance(1, 3) { Key::Pieces(pieces(r)) } else { Key::Whole(key(r)) };
                    (k, node(r, o, budget, depth + 1))
                })
                .collect(),
        ),
    }
}

/// A program nested to the given depth.
pub fn deep(r: &mut Rng, depth: usize) -> P {
    let mut p = if r.bool() { scalar(r) } else { P::Object(vec![]) };
    for _ in 0..depth {
        let around = |p: P, r: &mut Rng| -> Vec<P> {
            let mut v = vec![];
            if r.chance(1, 3) {
                v.push(scalar(r));
            }
            v.push(p);
            if r.chance(1, 3) {
                v.push(scalar(r));
            }
            v
        };
        p = match r.below(5) {
            0 => P::Sized(around(p, r)),
            1 => P::Streaming(around(p, r)),
            2 => P::Tuple(None, around(p, r)),
            3 => P::Struct(None, around(p, r).into_iter().enumerate().map(|(i, p)| (["a", "b", "c"][i], p)).collect()),
            _ => P::Object(around(p, r).into_iter().enumerate().map(|(i, p)| (Key::Whole(["a", "b", "c"][i].into()), p)).collect()),
        };
    }
    p
}

/// A program with one large dimension.
pub fn big(r: &mut Rng, max: usize, deep_max: usize) -> P {
    let k = r.below(9);
    let n = gen::length(r, max);
    let few = n.min(1 << 13);
    let mut p = match k {
        0 => P::Str(gen::long_text(r, n)),
        1 => P::Pieces(gen::long_text(r, n).chars().map(Piece::C).collect()),
        2 => {
            let s = gen::long_text(r, few);
            P::Pieces((0..r.range(1, 9)).map(|_| Piece::S(s.clone())).collect())
        }
        3 => {
            let s = gen::long_text(r, n);
            P::Object(vec![(Key::Whole(s.clone()), P::U8(1)), (Key::Pieces(s.chars().map(Piece::C).collect()), P::U8(2)), (Key::Whole("k".into()), P::Null)])
        }
        4 => P::Sized((0..n).map(|i| P::U64(i as u64)).collect()),
        5 => P::Streaming((0..n).map(|i| P::U32(i as u32)).collect()),
        6 => P::Tuple(None, (0..n).map(|i| P::I64(i as i64)).collect()),
        7 => P::Object((0..few).map(|i| (Key::Whole(format!("k{}", i)), P::U16(i as u16))).collect()),
        _ => {
            let d = gen::length(r, deep_max);
            deep(r, d)
        }
    };
    for _ in 0..r.below(3) {
        p = match r.below(3) {
            0 => P::Sized(vec![p, P::Bool(true)]),
            1 => P::Object(vec![(Key::Whole("a".into()), P::U8(1)), (Key::Whole("b".into()), p), (Key::Whole("c".into()), P::Null)]),
            _ => P::Struct(None, vec![("s", p), ("t", P::Str("x".into()))]),
        };
    }
    p
}

fn raw_pieces<S: Serializer>(s: &mut S, ps: &[Piece]) -> Result<(), S::Error> {
    for p in ps {
        match p {
            Piece::C(c) => s.append_char(*c)?,
            Piece::S(t) => s.append_str(t)?,
        }
    }
    Ok(())
}

/// Runs the program, choosing between raw calls and wrappers by `r`.
pub fn exec<S: JsonSerializer>(p: &P, r: &mut Rng, s: &mut S) -> Result<(), S::Error> {
    let wrapped = r.bool();
    match p {
        P::Null => {
            if wrapped {
                Value::with(s, |v| v.into_null())
            } else {
                s.pop_null()
            }
        }
        P::Bool(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_bool(*x) },
        P::I8(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_i8(*x) },
        P::I16(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_i16(*x) },
        P::I32(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_i32(*x) },
        P::I64(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_i64(*x) },
        P::U8(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_u8(*x) },
        P::U16(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_u16(*x) },
        P::U32(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_u32(*x) },
        P::U64(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_u64(*x) },
        P::F32(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_f32(*x) },
        P::F64(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_f64(*x) },
        P::Char(x) => if wrapped { Value::with(s, |v| v.put(x)) } else { s.put_char(*x) },
        P::Str(x) => if wrapped { Value::with(s, |v| v.put_str(x)) } else { s.put_str(x) },
        P::Pieces(ps) => {
            s.open_str()?;
            raw_pieces(s, ps)?;
            s.close_str()
        }
        P::Tag(m, i, n) => if wrapped { Value::with(s, |v| v.put_tag(*m, *i, *n)) } else { s.put_tag(*m, *i, *n) },
        P::Sized(xs) | P::Streaming(xs) => {
            let sized = matches!(p, P::Sized(_));
            if wrapped {
                Value::with(s, |v| {
                    let mut l = if sized { v.into_list_sized(xs.len())? } else { v.into_list_streaming()? };
                    for x in xs {
                        sub(x, r, l.push()?)?;
                    }
                    l.close()
                })
            } else {
                if sized {
                    s.open_list_sized(xs.len())?;
                } else {
                    s.open_list_streaming()?;
                }
                for x in xs {
                    s.push_item()?;
                    exec(x, r, s)?;
                }
                s.close_list()
            }
        }
        P::Tuple(name, xs) => {
            if wrapped {
                Value::with(s, |v| {
                    let mut l = v.into_tuple(*name)?;
                    for x in xs {
                        sub(x, r, l.element()?)?;
                    }
                    l.close()
                })
            } else {
                s.open_tuple(*name)?;
                for x in xs {
                    s.push_element()?;
                    exec(x, r, s)?;
                }
                s.close_tuple()
            }
        }
        P::Struct(name, fs) => {
            if wrapped {
                Value::with(s, |v| {
                    let mut l = v.into_struct(*name)?;
                    for (k, x) in fs {
                        sub(x, r, l.field(k)?)?;
                    }
                    l.close()
                })
            } else {
                s.open_struct(*name)?;
                for (k, x) in fs {
                    s.push_field(k)?;
                    exec(x, r, s)?;
                }
                s.close_struct()
            }
        }
        P::Object(es) => {
            if wrapped && es.iter().all(|e| matches!(e.0, Key::Whole(_))) {
                Value::with(s, |v| {
                    let mut l = v.into_object()?;
                    for (k, x) in es {
                        sub(x, r, l.entry(&k.text())?)?;
                    }
                    l.close()
                })
            } else {
                s.open_object()?;
                for (k, x) in es {
                    match k {
                        Key::Whole(k) => s.push_entry(k)?,
                        Key::Pieces(ps) => {
                            s.add_entry()?;
                            raw_pieces(s, ps)?;
                            s.close_str()?;
                        }
                    }
                    exec(x, r, s)?;
                }
                s.close_object()
            }
        }
    }
}

fn sub<S: JsonSerializer>(p: &P, r: &mut Rng, v: Value<S>) -> Result<(), S::Error> {
    let (s, done) = v.into_raw();
    exec(p, r, s)?;
    *done = true;
    Ok(())
}

/// The text written under the given layout.
pub fn write(p: &P, r: &mut Rng, indent: Option<&'static str>) -> String {
    let mut out = String::new();
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, &mut out);
    exec(p, r, &mut s).unwrap();
    s.close();
    out
}

/// A value that writes a program, in any context.
pub struct Prog<'p>(pub &'p P, pub Rng);
impl<W: TextWriter, C: ?Sized> Serialize<TextSerializer<W>, C> for Prog<'_> {
    const NULLABLE: bool = true;
    fn serialize(&self, v: Value<TextSerializer<W>>, _: &mut C) -> Result<(), W::Error> {
        let (s, done) = v.into_raw();
        exec(self.0, &mut self.1.clone(), s)?;
        *done = true;
        Ok(())
    }
}

/// Does the tree denote exactly what the program wrote?
pub fn denotes(p: &P, n: &JNode) -> Result<(), String> {
    let ok = match (p, &n.kind) {
        (P::Null, JKind::Null) => true,
        (P::Bool(a), JKind::Bool(b)) => a == b,
        (P::I8(a), JKind::Num(b)) => a.to_string() == *b,
        (P::I16(a), JKind::Num(b)) => a.to_string() == *b,
        (P::I32(a), JKind::Num(b)) => a.to_string() == *b,
        (P::I64(a), JKind::Num(b)) => a.to_string() == *b,
        (P::U8(a), JKind::Num(b)) => a.to_string() == *b,
        (P::U16(a), JKind::Num(b)) => a.to_string() == *b,
        (P::U32(a), JKind::Num(b)) => a.to_string() == *b,
        (P::U64(a), JKind::Num(b)) => a.to_string() == *b,
        (P::F32(a), JKind::Num(b)) => b.parse::<f32>().map(|b| b.to_bits()) == Ok(a.to_bits()),
        (P::F64(a), JKind::Num(b)) => b.parse::<f64>().map(|b| b.to_bits()) == Ok(a.to_bits()),
        (P::Char(a), JKind::Str(b)) => a.to_string() == *b,
        (P::Str(a), JKind::Str(b)) => a == b,
        (P::Pieces(a), JKind::Str(b)) => join(a) == *b,
        (P::Tag(_, _, Some(a)), JKind::Str(b)) => a == b,
        (P::Tag(_, i, None), JKind::Num(b)) => i.to_string() == *b,
        (P::Sized(a) | P::Streaming(a) | P::Tuple(_, a), JKind::Arr(b)) => {
            if a.len() == b.len() {
                return a.iter().zip(b).try_for_each(|(a, b)| denotes(a, b));
            }
            false
        }
        (P::Struct(_, a), JKind::Obj(b)) => {
            if a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.key) {
                return a.iter().zip(b).try_for_each(|(a, b)| denotes(&a.1, &b.value));
            }
            false
        }
        (P::Object(a), JKind::Obj(b)) => {
            if a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0.text() == b.key) {
                return a.iter().zip(b).try_for_each(|(a, b)| denotes(&a.1, &b.value));
            }
            false
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        let mut ps = format!("{:?}", p);
        ps.truncate(ps.char_indices().nth(300).map(|x| x.0).unwrap_or(ps.len()));
        let mut ns = format!("{:?}", n.kind);
        ns.truncate(ns.char_indices().nth(300).map(|x| x.0).unwrap_or(ns.len()));
        Err(format!("{} written as {}", ps, ns))
    }
}

/// What a type of the family must be written as.
pub fn count(p: &P) -> usize {
    1 + match p {
        P::Sized(a) | P::Streaming(a) | P::Tuple(_, a) => a.iter().map(count).sum(),
        P::Struct(_, a) => a.iter().map(|x| count(&x.1)).sum(),
        P::Object(a) => a.iter().map(|x| count(&x.1)).sum(),
        _ => 0,
    }
}
