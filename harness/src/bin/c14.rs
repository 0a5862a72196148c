//! C14: derived types map to JSON exactly as their attributes say.
use serdere::*;
use serdere_json::*;
use std::cell::Cell;
use vh::gen::*;
use vh::mrender::{render, Expect, Ro};
use vh::reader::{Chunked, MonReader};
use vh::run::{quiet, show};
use vh::types::*;
use vh::*;

use vh::types2::*;
use vh::types3::*;

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;

/// A written value has exactly the form of its model.
fn written<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>>,
{
    let name = std::any::type_name::<T>();
    let v = T::gen(rng);
    let m = v.model();
    let indent = *rng.pick(&[None, None, Some("  "), Some("\t")]);
    let text = match indent {
        None => to_str(&v),
        _ => {
            let mut s = String::new();
            let mut t = TextSerializer::new(TextSerializerConfig { indent }, &mut s);
            Value::with(&mut t, |o| o.put(&v)).unwrap();
            t.close();
            s
        }
    };
    cx.count("written", 1);
    cx.distinct_str(&format!("{}{}", name, text));
    let tree = refjson::parse(&text, false).map_err(|_| format!("{:?} of type {} is written as {}", v, name, show(&text)))?;
    conforms(&m, &tree).map_err(|e| format!("{} of type {} is written as {}: {}", show(&format!("{:?}", v)), name, show(&text), e))
}

/// A value in any of the forms a reader must accept is read; with a fault it is refused.
fn read<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty
        + for<'s> Deserialize<TextDeserializer<&'s str>>
        + for<'s> Deserialize<TextDeserializer<MonReader<'s>>>
        + for<'s> Deserialize<TextDeserializer<Utf8Reader<Chunked<'s>>>>,
{
    let name = std::any::type_name::<T>();
    let v = T::gen(rng);
    let m = v.model();
    let ro = if rng.chance(1, 8) { Ro::plain() } else { Ro::random(rng) };
    let st = Style::random(rng, false);
    let r0 = rng.fork();
    let out = render(&mut r0.clone(), &m, &ro, &st, None);
    let sites = out.sites;
    let t = out.text;
    cx.count("read", 1);
    cx.count("liberties", out.liberties as u64);
    cx.distinct_str(&format!("{}{}", name, t));
    cx.sample(|| format!("{} <- {}", show(&format!("{:?}", v)), show(&t)));
    let which = rng.below(3);
    let get = |t: &str, rng: &mut Rng| -> Result<Result<T, String>, String> {
        quiet(|| match which {
            0 => from_str::<T>(t).map_err(|e| walk::emsg(&e)),
            1 => from_reader::<_, T>(MonReader::new(t)).map_err(|e| walk::emsg(&e)),
            _ => from_reader::<_, T>(Utf8Reader::new(Chunked::new(t.as_bytes(), vec![rng.range(1, 7)])).unwrap()).map_err(|e| walk::emsg(&e)),
        })
        .map_err(|p| format!("panic {} reading {} from {}", p, name, show(t)))
    };
    match get(&t, rng)? {
        Err(e) => return Err(format!("{} expected from {} but reading as {} fails: {}", show(&format!("{:?}", v)), show(&t), name, e)),
        Ok(got) => ensure!(same(&got, &v), "{} read as {} gives {} and not {}", show(&t), name, show(&format!("{:?}", got)), show(&format!("{:?}", v))),
    }
    // Structural faults
    if sites > 0 {
        cx.evals += 1;
        for _ in 0..3 {
            let k = rng.below(sites);
            let out = render(&mut r0.clone(), &m, &ro, &st, Some(k));
            let f = out.fault.unwrap();
            let c = match f.expect {
                Expect::BadName => "unknown_name",
                Expect::BadIndex(_) => "unknown_index",
                Expect::MissingKey(_) => "missing_key",
                Expect::MissingItems => "missing_items",
                Expect::ExcessItems => "excess_items",
                _ => continue,
            };
            cx.count(c, 1);
            if let Ok(got) = get(&out.text, rng)? {
                return Err(format!("{} with fault {:?} is read as {} {}", show(&out.text), f, name, show(&format!("{:?}", got))));
            }
            break;
        }
    }
    Ok(())
}

macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(written::<$t> as F, read::<$t> as F),*] };
}
const FAMILY: &[F] = all_types!(table);
const MORE: &[F] = more_types!(table);
const ONLY: &[F] = &[read::<Prox>, read::<ProxEnum>, read::<Prox>, read::<ProxEnum>];

fn family(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    FAMILY[idx as usize % FAMILY.len()](rng, cx)
}
fn more(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    MORE[idx as usize % MORE.len()](rng, cx)
}
/// Proxied fields are converted, each exactly once, and only when present.
fn proxies(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    CONV.with(|c| c.set(0));
    if idx % 8 == 0 {
        cx.count("conversions", 1);
        let v = Prox::gen(rng);
        let m = v.model();
        let M::Obj(fields) = &m else { run::harness_error("model") };
        let has = |k: &str| fields.iter().any(|f| f.key == k && f.val != M::Null) as usize;
        let want = 7 + has("d") + has("o\u{e9}");
        let ro = Ro { permute: 50, array: 0, ..Ro::random(rng) };
        let st = Style::random(rng, false);
        let text = render(rng, &m, &ro, &st, None).text;
        match from_str::<Prox>(&text) {
            Ok(_) => {}
            Err(e) => return Err(format!("{}: {}", show(&text), walk::emsg(&e))),
        }
        let got = CONV.with(|c| c.get());
        ensure!(got == want, "{} conversions, {} expected, reading {}", got, want, show(&text));
        return Ok(());
    }
    ONLY[idx as usize % ONLY.len()](rng, cx)
}

/// Every index up to beyond the last, and names near those of the variants, of every enum.
fn variants(rng: &mut Rng, _idx: u64, cx: &mut Cx) -> Result<(), String> {
    fn check<T>(rng: &mut Rng, cx: &mut Cx, what: &str, all: &[(&str, usize)], doc: &dyn Fn(&str) -> String) -> Result<(), String>
    where
        T: std::fmt::Debug + for<'s> Deserialize<TextDeserializer<&'s str>>,
    {
        let verdict = |lit: &str, want: Option<usize>| -> Result<(), String> {
            let t = doc(lit);
            let got = quiet(|| from_str::<T>(&t).map(|v| format!("{:?}", v)).map_err(|e| walk::emsg(&e)))
                .map_err(|p| format!("panic {} reading {} from {}", p, what, show(&t)))?;
            match (want, got) {
                (None, Err(_)) => Ok(()),
                (None, Ok(v)) => Err(format!("{} read as {} gives {}", show(&t), what, v)),
                (Some(_), Err(e)) => Err(format!("{} read as {} fails: {}", show(&t), what, e)),
                (Some(i), Ok(v)) => {
                    // The same variant as its name gives
                    let by_name = doc(&format!("{:?}", all[i].0));
                    let n = quiet(|| from_str::<T>(&by_name).map(|v| format!("{:?}", v)).map_err(|e| walk::emsg(&e)));
                    ensure!(n == Ok(Ok(v.clone())), "{} gives {} but {} gives {:?}", show(&t), v, show(&by_name), n);
                    Ok(())
                }
            }
        };
        let max = all.iter().map(|a| a.1).max().unwrap();
        let mut near: Vec<usize> = all.iter().flat_map(|a| [a.1.saturating_sub(1), a.1, a.1 + 1, a.1 + 256, a.1.wrapping_add(1 << 32)]).collect();
        near.extend(0..30);
        near.extend([max + 1, max * 2, usize::MAX, u32::MAX as usize, rng.below(2 * max + 3)]);
        for i in near {
            cx.count("indices", 1);
            verdict(&i.to_string(), all.iter().position(|a| a.1 == i))?;
        }
        let mut seen = std::collections::HashSet::new();
        for (i, a) in all.iter().enumerate() {
            cx.count("names", 1);
            verdict(&format!("{:?}", a.0), Some(i))?;
            let mut q = String::new();
            let st = Style { ws: 0, comments: 0, escape: 100 };
            quote(rng, a.0, &st, &mut q);
            verdict(&q, Some(i))?;
            let v = from_str::<T>(&doc(&q)).map(|v| format!("{:?}", v)).unwrap_or_default();
            ensure!(seen.insert(v.clone()), "two names of {} give {}", what, v);
        }
        let pool: Vec<String> = all.iter().map(|a| a.0.to_string()).chain(["Blue", "D", "Rect", "B", "N", "", "0", "1", "Unit2", "null"].map(String::from)).collect();
        for _ in 0..40 {
            let mut n = rng.pick(&pool).clone();
            match rng.below(6) {
                0 => n.push(any_char(rng)),
                1 => {
                    n.pop();
                }
                2 => n = n.to_lowercase(),
                3 => n = n.to_uppercase(),
                4 => n.insert(0, any_char(rng)),
                _ => {}
            }
            cx.count("near_names", 1);
            let mut q = String::new();
            let st = Style::random(rng, false);
            quote(rng, &n, &st, &mut q);
            verdict(&q, all.iter().position(|a| a.0 == n))?;
        }
        Ok(())
    }
    let plain = |l: &str| l.to_string();
    check::<Color>(rng, cx, "Color", &[("Red", 0), ("Green", 1), ("blue!\t\"", 2), ("Re", 3), ("Redd", 4), ("", 5), ("漢字", 6)], &plain)?;
    check::<Idx>(rng, cx, "Idx", &[("A", 5), ("B", 6), ("C", 2), ("dee", 300), ("E", 101), ("F", 3), ("G", 0), ("H", 70001)], &plain)?;
    check::<Level>(rng, cx, "Level", &[("Low", 0), ("Mid", 1), ("High", 2)], &plain)?;
    let many: Vec<(&str, usize)> = MANY.iter().map(|m| (m.1, m.2)).collect();
    check::<Many>(rng, cx, "Many", &many, &plain)?;
    let first = rng.bool();
    let with = |key: &'static str, rest: &'static str| {
        move |l: &str| match (first, rest) {
            (_, "") => format!("{{{:?}:{}}}", key, l),
            (true, _) => format!("{{{:?}:{},{}}}", key, l, rest),
            (false, _) => format!("{{{},{:?}:{}}}", rest, key, l),
        }
    };
    check::<Kind>(rng, cx, "Kind", &[("A", 0), ("b\\", 1), ("C", 2)], &with("kind", ""))?;
    check::<Shape>(rng, cx, "Shape", &[("Dot", 0), ("Circle", 1), ("rectangle", 2), ("P", 3), ("N", 9), ("Mix", 5)],
        &with("type", r#""r":1,"w":2,"height":3,"x":4,"y":5,"id":6,"tail":"t","tags":[]"#))?;
    check::<ProxEnum>(rng, cx, "ProxEnum", &[("A", 0), ("bee", 12), ("C", 2), ("D", 7)],
        &with("\u{3c0}", r#""d":1,"x":4,"y":5,"v":[1,2],"w":null,"inner":null,"l":true"#))?;
    check::<Outer>(rng, cx, "Outer", &[("In", 0), ("also", 1), ("Both", 2), ("Unit", 5), ("Empty", 999999)],
        &with("outer", r#""type":1,"r":2,"kind":"C","Type":4,"to":5,"fast":true"#))?;
    cx.evals += 1;
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C14",
        level: "exploration",
        rule: "values of a family of derived types covering each attribute and their combinations: the written form is compared with a hand-written model; the model rendered with permuted, omitted and null keys, unknown extra entries, array form and indices is read back and compared; structural faults must be refused; proxy conversions are counted; every enum is asked for every index up to beyond its last and for names near its own; distinct by type and text",
        assumptions: &["the hand-written models of the type family state what the attributes mean"],
        phases: vec![
            Phase { name: "family", quick: 1600000, thorough: 0, f: family },
            Phase { name: "more", quick: 800000, thorough: 0, f: more },
            Phase { name: "proxies", quick: 400000, thorough: 0, f: proxies },
            Phase { name: "variants", quick: 2000, thorough: 0, f: variants },
        ],
        floors: &[("written", 2000), ("read", 2000), ("liberties", 2000), ("missing_key", 100), ("missing_items", 50), ("excess_items", 50), ("unknown_name", 20), ("unknown_index", 20), ("conversions", 100), ("indices", 1000), ("names", 500), ("near_names", 1000)],
        hang_cpu_s: 30,
    });
}
