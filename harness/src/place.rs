//! Places in a document where a value can be read: alone, in containers, streamed or buffered.
use crate::walk::TD;
use crate::Rng;
use serdere::{Deserializer, Outliner, TextReader, Value};
use serdere_json::*;

pub const KINDS: usize = 16;

pub struct Placed {
    pub text: String,
    /// Offset of the value.
    pub start: usize,
    /// Offset of the container directly around it (the value itself if alone).
    pub container: usize,
    /// Is the value delivered from the look-back buffer?
    pub buffered: bool,
    pub kind: usize,
}

const SIBS: &[&str] = &["1", "\"s\"", "null", "[]", "{}", "[1,[2]]", "{\"p\":{\"q\":[true]}}", "-1.5e3", "\"\\u00e9\\\\\"", "false"];

/// Puts the value text `v` into a document of the given kind. `lead` must be empty unless the
/// value is to be preceded by other entries of its container.
#[allow(unused_assignments)]
pub fn place(rng: &mut Rng, kind: usize, v: &str) -> Placed {
    let mut text = String::new();
    let (mut start, mut container) = (0, 0);
    let w = |rng: &mut Rng, t: &mut String| {
        if rng.chance(1, 4) {
            t.push_str(*rng.pick(&[" ", "\n", "\t ", "\r\n  "]));
        }
    };
    let sib = |rng: &mut Rng| *rng.pick(SIBS);
    macro_rules! lit { ($($x:expr),*) => {{ $( text.push_str($x); w(rng, &mut text); )* }}; }
    macro_rules! val {
        () => {{
            start = text.len();
            lit!(v)
        }};
    }
    macro_rules! cont {
        ($s:expr) => {{
            container = text.len();
            lit!($s)
        }};
    }
    w(rng, &mut text);
    if rng.chance(1, 5000) {
        // Far into the input: large offsets, lines and columns
        let n = crate::gen::length(rng, 1 << 17);
        text.push_str(&rng.pick(&[" ", "\n", "\t", "\r\n", " \n"]).repeat(n));
    }
    let mut buffered = false;
    match kind {
        0 => {
            val!();
            container = start;
        }
        1 => {
            cont!("[");
            val!();
            lit!("]");
        }
        2 => {
            cont!("[");
            lit!(sib(rng), ",");
            val!();
            lit!(",", sib(rng), "]");
        }
        // Entry, in order (by enumeration / by name)
        3 | 4 => {
            cont!("{");
            lit!("\"a\"", ":");
            val!();
            lit!("}");
        }
        5 => {
            cont!("{");
            lit!("\"b\"", ":", sib(rng), ",", "\"a\"", ":");
            val!();
            lit!(",", "\"c\"", ":", sib(rng), "}");
        }
        // Buffered entry: by name / by enumeration / nested in object / nested in array
        6 | 7 => {
            buffered = true;
            cont!("{");
            lit!("\"a\"", ":");
            val!();
            lit!(",", "\"b\"", ":", sib(rng), "}");
        }
        8 => {
            buffered = true;
            lit!("{", "\"x\"", ":");
            cont!("{");
            lit!("\"w\"", ":", sib(rng), ",", "\"a\"", ":");
            val!();
            lit!("}", ",", "\"b\"", ":", sib(rng), "}");
        }
        9 => {
            buffered = true;
            lit!("{", "\"x\"", ":");
            cont!("[");
            lit!(sib(rng), ",");
            val!();
            lit!(",", sib(rng), "]", ",", "\"b\"", ":", sib(rng), "}");
        }
        // Two levels of buffering
        10 => {
            buffered = true;
            lit!("{", "\"x\"", ":", "{", "\"y\"", ":");
            cont!("{");
            lit!("\"a\"", ":");
            val!();
            lit!("}", ",", "\"u\"", ":", "1", "}", ",", "\"b\"", ":", sib(rng), "}");
        }
        // Streamed value inside an object whose earlier entries were buffered
        11 => {
            cont!("{");
            lit!("\"u\"", ":", sib(rng), ",", "\"v\"", ":", sib(rng), ",", "\"a\"", ":");
            val!();
            lit!("}");
        }
        // Streamed nested array inside an entry, with a buffered entry pending below
        12 => {
            lit!("{", "\"u\"", ":", sib(rng), ",", "\"a\"", ":");
            cont!("[");
            val!();
            lit!("]", ",", "\"z\"", ":", sib(rng), "}");
        }
        // Tuple element
        13 => {
            cont!("[");
            lit!("0", ",");
            val!();
            lit!("]");
        }
        // Struct field: from array, from object
        14 => {
            cont!("[");
            val!();
            lit!(",", "0", "]");
        }
        _ => {
            buffered = true;
            cont!("{");
            lit!("\"a\"", ":");
            val!();
            lit!(",", "\"junk\"", ":", sib(rng), ",", "\"b\"", ":", "0", ",", "\"junk2\"", ":", sib(rng), "}");
        }
    }
    Placed { text, start, container, buffered, kind }
}

type E<R> = DeserializeError<<R as TextReader>::Position>;

fn sub<R: TextReader, T>(v: Value<TD<R>>, f: impl FnOnce(&mut TD<R>) -> Result<T, E<R>>) -> Result<T, E<R>> {
    let (d, done) = v.into_raw();
    let r = f(d)?;
    *done = true;
    Ok(r)
}

/// Goes to the value placed by [`place`], runs `f` on it and finishes the document (without
/// closing the deserializer).
pub fn at<R: TextReader, T>(kind: usize, d: &mut TD<R>, f: impl FnOnce(&mut TD<R>) -> Result<T, E<R>>) -> Result<T, E<R>> {
    Ok(match kind {
        0 => f(d)?,
        1 => {
            d.open_list()?;
            d.push_item()?;
            let r = f(d)?;
            d.close_list()?;
            r
        }
        2 => {
            d.open_list()?;
            d.push_item()?;
            d.skip_value()?;
            d.push_item()?;
            let r = f(d)?;
            d.push_item()?;
            d.skip_value()?;
            d.close_list()?;
            r
        }
        3 => {
            d.open_object()?;
            assert!(d.next_entry()?);
            d.skip_str()?;
            let r = f(d)?;
            d.close_object()?;
            r
        }
        4 => {
            d.open_object()?;
            d.push_entry("a")?;
            let r = f(d)?;
            d.close_object()?;
            r
        }
        5 => {
            d.open_object()?;
            d.push_entry("b")?;
            d.skip_value()?;
            assert!(d.next_entry()?);
            d.skip_str()?;
            let r = f(d)?;
            d.skip_object()?;
            r
        }
        6 => {
            d.open_object()?;
            d.push_entry("b")?;
            d.skip_value()?;
            d.push_entry("a")?;
            let r = f(d)?;
            d.close_object()?;
            r
        }
        7 => {
            d.open_object()?;
            d.push_entry("b")?;
            d.skip_value()?;
            assert!(d.next_entry()?);
            d.skip_str()?;
            let r = f(d)?;
            d.close_struct()?;
            r
        }
        8 => {
            d.open_object()?;
            d.push_entry("b")?;
            d.skip_value()?;
            d.push_entry("x")?;
            d.open_object()?;
            d.push_entry("a")?;
            let r = f(d)?;
            d.skip_object()?;
            d.close_object()?;
            r
        }
        9 => {
            d.open_object()?;
            d.push_entry("b")?;
            d.skip_value()?;
            d.push_entry("x")?;
            d.open_list()?;
            d.push_item()?;
            d.skip_value()?;
            d.push_item()?;
            let r = f(d)?;
            d.push_item()?;
            d.skip_value()?;
            d.close_list()?;
            d.close_object()?;
            r
        }
        10 => {
            d.open_object()?;
            d.push_entry("b")?;
            d.skip_value()?;
            d.push_entry("x")?;
            d.open_object()?;
            d.push_entry("u")?;
            d.skip_value()?;
            d.push_entry("y")?;
            d.open_object()?;
            d.push_entry("a")?;
            let r = f(d)?;
            d.close_object()?;
            d.close_object()?;
            d.close_object()?;
            r
        }
        11 => {
            d.open_object()?;
            d.push_entry("a")?;
            let r = f(d)?;
            d.push_entry("u")?;
            d.skip_value()?;
            d.skip_object()?;
            r
        }
        12 => {
            d.open_object()?;
            d.push_entry("a")?;
            d.open_list()?;
            d.push_item()?;
            let r = f(d)?;
            d.close_list()?;
            d.close_struct()?;
            r
        }
        13 => {
            let mut done = false;
            let mut t = Value::new(d, &mut done).into_tuple(None)?;
            t.element()?.get_u8()?;
            let r = sub(t.element()?, f)?;
            t.close()?;
            assert!(done);
            r
        }
        14 => {
            let mut done = false;
            let mut t = Value::new(d, &mut done).into_struct(Some("S"))?;
            let r = sub(t.field("a")?, f)?;
            t.field("b")?.get_u8()?;
            t.close()?;
            r
        }
        _ => {
            let mut done = false;
            let mut t = Value::new(d, &mut done).into_struct(Some("S"))?;
            t.field("b")?.get_u8()?;
            let r = sub(t.field("a")?, f)?;
            t.close()?;
            r
        }
    })
}
