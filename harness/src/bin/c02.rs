//! C02: what serializer calls produce, judged by the reference parser.
use serdere::*;
use serdere_json::*;
use vh::prog::*;
use vh::run::show;
use vh::types::*;
use vh::*;

const INDENTS: &[Option<&str>] = &[None, None, Some(""), Some("  "), Some("\t"), Some("    "), Some(" \n\r\t ")];

fn judge(p: &P, text: &str, indent: Option<&str>) -> Result<(), String> {
    parsed(refjson::parse(text, false), p, text, indent)
}

fn parsed(tree: Result<refjson::JNode, refjson::SyntaxErr>, p: &P, text: &str, indent: Option<&str>) -> Result<(), String> {
    let tree = tree
        .map_err(|e| format!("output is not valid JSON at byte {}: {} (indent {:?}) for {}", e.viable, show(text), indent, short(p)))?;
    denotes(p, &tree).map_err(|m| format!("{}\n  output: {} (indent {:?})", m, show(text), indent))
}

fn short(p: &P) -> String {
    let s = format!("{:?}", p);
    s.chars().take(1500).collect()
}

fn programs(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = Opts { max_nodes: *rng.pick(&[1, 5, 20, 80]), max_depth: *rng.pick(&[1, 3, 8]) };
    let p = program(rng, &o);
    let indent = *rng.pick(INDENTS);
    let text = write(&p, rng, indent);
    cx.count("calls", count(&p) as u64);
    cx.distinct_str(&text);
    cx.sample(|| format!("{} -> {}", short(&p), show(&text)));
    judge(&p, &text, indent)
}

/// The functions that write whole documents, with and without a context, to each kind of sink.
fn entries(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = Opts { max_nodes: *rng.pick(&[1, 5, 20]), max_depth: *rng.pick(&[1, 3, 8]) };
    let p = program(rng, &o);
    let v = Prog(&p, rng.fork());
    let before = *rng.pick(&["", "", "x", "[1]\n"]);
    let (mut num, mut list) = (rng.u64(), vec![1u8, 2]);
    for how in 0..8 {
        cx.evals += 1;
        let bytes = |f: &mut dyn FnMut(Utf8Writer<&mut Vec<u8>>) -> std::io::Result<()>| {
            let mut b = before.as_bytes().to_vec();
            f(Utf8Writer::new(&mut b)).unwrap();
            String::from_utf8(b).unwrap()
        };
        let mut s = before.to_string();
        let text = match how {
            0 => before.to_string() + &to_str(&v),
            1 => before.to_string() + &to_str_using(&v, &mut list),
            2 => before.to_string() + &to_str_using::<_, [u8]>(&v, &mut list[..]),
            3 => {
                to_writer(&mut s, &v).unwrap();
                s
            }
            4 => {
                to_writer_using::<_, _, dyn std::any::Any>(&mut s, &v, &mut num).unwrap();
                s
            }
            5 => {
                to_writer_using(&mut &mut s, &v, &mut ()).unwrap();
                s
            }
            6 => bytes(&mut |w| to_writer(w, &v)),
            _ => bytes(&mut |w| to_writer_using(w, &v, &mut list)),
        };
        let name = ["to_str", "to_str_using", "to_str_using with a slice", "to_writer", "to_writer_using", "to_writer_using of a reference", "to_writer of bytes", "to_writer_using of bytes"][how];
        let Some(text) = text.strip_prefix(before) else {
            return Err(format!("{} changed what was there before: {}", name, show(&text)));
        };
        cx.distinct_str(text);
        judge(&p, text, None).map_err(|e| format!("{}: {}", name, e))?;
    }
    cx.count("entry_points", 8);
    Ok(())
}

fn deep_programs(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = *rng.pick(&mine::pools().sizes).min(&1000);
    let p = deep(rng, n);
    let indent = if n < 300 { *rng.pick(INDENTS) } else { *rng.pick(&[None, Some(""), Some(" ")]) };
    let text = write(&p, rng, indent);
    cx.max("depth", n as u64);
    cx.distinct_str(&text);
    judge(&p, &text, indent)
}

/// One large dimension: length of a string or key, number of items, depth.
fn sizes(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    run::on_stack(1 << 30, || {
        let very = idx % 64 == 63;
        let p = if very { deep(rng, 65_540) } else { big(rng, 1 << 17, 1 << 11) };
        let indent = if very { None } else { *rng.pick(&[None, Some(""), Some(" ")]) };
        let text = write(&p, rng, indent);
        cx.max("output_bytes", text.len() as u64);
        cx.count("large", 1);
        cx.distinct_str(&text);
        parsed(refjson::parse_deep(&text, false), &p, &text, indent)
    })?
}

/// Every character below U+0300 and a sample of all others, as char, string, key, piece and tag.
fn chars(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let c = if idx < 0x300 { idx as u32 } else { rng.below(0x110000) as u32 };
    let Some(c) = char::from_u32(c) else { return Ok(()) };
    let s: String = [gen::any_char(rng), c, gen::any_char(rng)].iter().collect();
    let p = P::Sized(vec![
        P::Char(c),
        P::Str(s.clone()),
        P::Pieces(vec![Piece::C(c), Piece::S(s.clone())]),
        P::Object(vec![
            (Key::Whole(s.clone()), P::Null),
            (Key::Whole(c.to_string()), P::Null),
            (Key::Pieces(vec![Piece::S(s.clone()), Piece::C(c)]), P::Null),
        ]),
        P::Struct(None, vec![(walk::intern(&s), P::Null)]),
        P::Tag(3, 1, Some(walk::intern(&s))),
    ]);
    let text = write(&p, rng, None);
    cx.distinct(c as u64);
    judge(&p, &text, None)
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
fn typed<T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>>>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String> {
    let v = T::gen(rng);
    let indent = *rng.pick(INDENTS);
    let mut text = String::new();
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, &mut text);
    Value::with(&mut s, |o| o.put(&v)).unwrap();
    s.close();
    cx.distinct_str(&text);
    cx.sample(|| format!("{:?} -> {}", v, show(&text)));
    let tree = refjson::parse(&text, false).map_err(|e| format!("output is not valid JSON at byte {}: {} for {:?}", e.viable, show(&text), v))?;
    conforms(&v.model(), &tree).map_err(|m| format!("{} of type {}: {}\n  output {}", show(&format!("{:?}", v)), std::any::type_name::<T>(), m, show(&text)))
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);

fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

/// Floats that JSON has no number for.
fn nonfinite(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let p = match idx % 6 {
        0 => P::F32(f32::INFINITY),
        1 => P::F32(f32::NEG_INFINITY),
        2 => P::F32(f32::NAN),
        3 => P::F64(f64::INFINITY),
        4 => P::F64(f64::NEG_INFINITY),
        _ => P::F64(f64::NAN),
    };
    let text = write(&p, rng, None);
    match refjson::parse(&text, false) {
        // Any single JSON value is a defensible representation of these
        Ok(_) => Ok(()),
        Err(_) if ["NaN", "inf", "-inf"].contains(&text.as_str()) => {
            cx.known("nonfinite-float", || format!("{:?} is written as {}", p, text));
            Ok(())
        }
        Err(_) => Err(format!("{:?} is written as {}", p, show(&text))),
    }
}

fn main() {
    run::main(Check {
        id: "C02",
        level: "exploration",
        rule: "random serializer call programs (raw calls and wrappers mixed) x layout, characters one by one, and the type family; the functions that write whole documents, with and without a context, to each kind of sink; also with one large dimension; a case is distinct by output text",
        assumptions: &["the reference RFC 8259 parser is correct", "std's float parser is correctly rounding"],
        phases: vec![
            Phase { name: "programs", quick: 3000000, thorough: 0, f: programs },
            Phase { name: "entries", quick: 100000, thorough: 0, f: entries },
            Phase { name: "deep", quick: 2000, thorough: 20000, f: deep_programs },
            Phase { name: "sizes", quick: 800, thorough: 0, f: sizes },
            Phase { name: "chars", quick: 40000, thorough: 2000000, f: chars },
            Phase { name: "types", quick: 3000000, thorough: 0, f: types },
            Phase { name: "nonfinite", quick: 12, thorough: 12, f: nonfinite },
        ],
        floors: &[("entry_points", 100), ("calls", 3000), ("distinct_nontrivial", 1000)],
        hang_cpu_s: 20,
    });
}
