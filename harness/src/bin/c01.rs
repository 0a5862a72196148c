//! C01: write, read back, compare bitwise.
use serdere::*;
use serdere_json::*;
use std::fmt::Debug;
use vh::reader::{Chunked, Sink};
use vh::run::show;
use vh::types::*;
use vh::*;

const INDENTS: &[Option<&str>] = &[None, None, Some(""), Some("  "), Some("\t"), Some("    "), Some(" \n\r\t ")];

fn trip<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty
        + for<'a> Serialize<TextSerializer<&'a mut String>>
        + Serialize<TextSerializer<Utf8Writer<Sink>>>
        + for<'s> Deserialize<TextDeserializer<&'s str>>
        + for<'s> Deserialize<TextDeserializer<Utf8Reader<Chunked<'s>>>>,
{
    let v = T::gen(rng);
    trip_value(v, rng, cx)
}

fn trip_value<T>(v: T, rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Debug
        + for<'a> Serialize<TextSerializer<&'a mut String>>
        + Serialize<TextSerializer<Utf8Writer<Sink>>>
        + for<'s> Deserialize<TextDeserializer<&'s str>>
        + for<'s> Deserialize<TextDeserializer<Utf8Reader<Chunked<'s>>>>,
{
    let name = std::any::type_name::<T>();
    let dbg = format!("{:?}", v);
    cx.distinct_str(&format!("{}{}", name, dbg));
    cx.count("values", 1);
    let fail = |what: &str, text: &str, got: String| {
        Err(format!("{}: {} of type {} written as {} read back as {}", what, show(&dbg), name, show(text), show(&got)))
    };
    // Write
    let indent = *rng.pick(INDENTS);
    let cfg = TextSerializerConfig { indent };
    let text = if indent.is_none() && rng.bool() {
        to_str(&v)
    } else {
        let mut s = String::new();
        let mut t = TextSerializer::new(cfg, &mut s);
        Value::with(&mut t, |o| o.put(&v)).unwrap();
        t.close();
        s
    };
    cx.sample(|| format!("{} {} <-> {}", name, show(&dbg), show(&text)));
    // String transport
    match from_str::<T>(&text) {
        Ok(r) => {
            let r = format!("{:?}", r);
            if r != dbg {
                return fail("string", &text, r);
            }
        }
        Err(e) => return fail("string", &text, walk::emsg(&e)),
    }
    // Byte transport
    if rng.chance(1, 2) {
        cx.evals += 1;
        cx.count("byte_trips", 1);
        let mut sink = Sink::new((0..rng.range(0, 3)).map(|_| rng.range(1, 9)).collect());
        sink.interrupt = *rng.pick(&[0, 0, 3, 2]);
        let data = sink.data.clone();
        let mut t = TextSerializer::new(cfg, Utf8Writer::new(sink));
        Value::with(&mut t, |o| o.put(&v)).map_err(|e| format!("{}: writing {} to bytes fails: {}", name, show(&dbg), e))?;
        let bytes = data.borrow().clone();
        let mut src = Chunked::new(&bytes, (0..rng.range(0, 3)).map(|_| rng.range(1, 9)).collect());
        src.interrupt = *rng.pick(&[0, 0, 3, 2]);
        let lossy = String::from_utf8_lossy(&bytes).into_owned();
        let rd = match Utf8Reader::new(src) {
            Ok(r) => r,
            Err(e) => return fail("bytes", &lossy, e.to_string()),
        };
        match from_reader::<_, T>(rd) {
            Ok(r) => {
                let r = format!("{:?}", r);
                if r != dbg {
                    return fail("bytes", &lossy, r);
                }
            }
            Err(e) => return fail("bytes", &lossy, walk::emsg(&e)),
        }
    }
    Ok(())
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(trip::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);

fn all(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

/// Borrowed and derived-only corner types, and every small value of the narrow types.
fn corner(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    fn one<T>(v: T, cx: &mut Cx) -> Result<(), String>
    where
        T: Debug + PartialEq + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'s> Deserialize<TextDeserializer<&'s str>>,
    {
        let t = to_str(&v);
        cx.distinct_str(&t);
        cx.evals += 1;
        match from_str::<T>(&t) {
            Ok(r) if r == v => Ok(()),
            r => Err(format!("{:?} written as {:?} read back as {:?}", v, t, r.map_err(|e| walk::emsg(&e)))),
        }
    }
    let i = idx as i64;
    one(i as u8, cx)?;
    one(i as i8, cx)?;
    one(i as u16, cx)?;
    one(i as i16, cx)?;
    one(i as u32, cx)?;
    one(-i as i32, cx)?;
    one(i, cx)?;
    one(-i, cx)?;
    one(u64::MAX - i as u64, cx)?;
    one(i64::MIN + i, cx)?;
    one(Some(Some(i as u8)), cx)?;
    if let Some(c) = char::from_u32((idx * 17 % 0x110000) as u32) {
        one(c, cx)?;
        one(c.to_string(), cx)?;
        one(vec![Some(c), None], cx)?;
    }
    if let Some(c) = char::from_u32(idx as u32) {
        one(format!("{}{}x", c, c), cx)?;
    }
    let f = f32::from_bits(rng.u64() as u32);
    if f.is_finite() {
        one(f, cx)?;
        one(f as f64, cx)?;
    }
    let f = f64::from_bits(rng.u64());
    if f.is_finite() {
        one(f, cx)?;
    }
    Ok(())
}

/// A type as deep as its values.
#[derive(Debug)]
struct Chain {
    label: u32,
    next: Vec<Chain>,
}
impl<S: Serializer + ?Sized> Serialize<S> for Chain {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut ()) -> Result<(), S::Error> {
        let mut s = value.into_struct(None)?;
        s.field("label")?.put_u32(self.label)?;
        let mut l = s.field("next")?.into_list_sized(self.next.len())?;
        for n in &self.next {
            n.serialize(l.push()?, ctx)?;
        }
        l.close()?;
        s.close()
    }
}
impl<D: Deserializer + ?Sized> Deserialize<D> for Chain {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut ()) -> Result<Self, D::Error> {
        let mut s = value.into_struct(None)?;
        let label = s.field("label")?.get_u32()?;
        let mut l = s.field("next")?.into_list()?;
        let mut next = vec![];
        while let Some(v) = l.next()? {
            next.push(Chain::deserialize(v, ctx)?);
        }
        s.close()?;
        Ok(Chain { label, next })
    }
}

/// Values with one large dimension.
fn sizes(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    run::on_stack(1 << 30, || {
        cx.count("large", 1);
        let n = gen::length(rng, 1 << 17);
        let few = n.min(1 << 12);
        match idx % 9 {
            0 => trip_value(gen::long_text(rng, n), rng, cx),
            1 => trip_value((0..n as u64).map(|i| i * 0x1234567).collect::<Vec<u64>>(), rng, cx),
            2 => {
                let s = gen::string(rng, true);
                trip_value((0..few).map(|i| format!("{}{}", s, i)).collect::<Vec<String>>(), rng, cx)
            }
            3 => trip_value((0..n).map(|i| if i % 3 == 0 { None } else { Some(i as u8) }).collect::<Vec<Option<u8>>>(), rng, cx),
            4 => trip_value((gen::long_text(rng, n), Some(gen::long_text(rng, few)), gen::long_text(rng, few).chars().collect::<Vec<char>>()), rng, cx),
            5 => trip_value((0..n.min(1 << 14)).map(|_| Ty::gen(rng)).collect::<Vec<P2>>(), rng, cx),
            6 => trip_value((0..few).map(|_| Ty::gen(rng)).collect::<Vec<Shape>>(), rng, cx),
            7 => trip_value((0..few).map(|_| Ty::gen(rng)).collect::<Vec<f64>>(), rng, cx),
            _ => {
                let depth = gen::length(rng, 1 << 11);
                let mut c = Chain { label: 0, next: vec![] };
                for i in 0..depth as u32 {
                    let mut next = vec![c];
                    if rng.chance(1, 3) {
                        next.insert(rng.below(2), Chain { label: rng.u64() as u32, next: vec![] });
                    }
                    c = Chain { label: i, next };
                }
                trip_value(c, rng, cx)
            }
        }
    })?
}

fn main() {
    run::main(Check {
        id: "C01",
        level: "exploration",
        rule: "random values (boundary-biased) of every type of the family x layout x transport, and values with one large dimension (length of a string or list up to 131072, depth up to 2048); a case is distinct by type and value",
        assumptions: &["values are compared through Debug output, which shows every field and every bit that distinguishes finite floats"],
        phases: vec![
            Phase { name: "types", quick: 4500000, thorough: 0, f: all },
            Phase { name: "sizes", quick: 720, thorough: 0, f: sizes },
            Phase { name: "corner", quick: 400000, thorough: 1114112, f: corner },
        ],
        floors: &[("values", 1000), ("byte_trips", 300), ("distinct_nontrivial", 1000)],
        hang_cpu_s: 20,
    });
}
