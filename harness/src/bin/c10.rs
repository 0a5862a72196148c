//! C10: errors point at the offending place, however the entry was reached.
use serdere::deserialize::{InvalidIndexError, InvalidNameError};
use serdere::*;
use serdere_json::*;
use std::error::Error;
use vh::free::Free;
use vh::gen::*;
use vh::mrender::{render, Expect, Ro};
use vh::place::{at, place, KINDS};
use vh::reader::{lc, str_offset, Chunked, MonReader};
use vh::run::{quiet, show};
use vh::types::*;
use vh::walk::TD;
use vh::*;
use DeserializeErrorMessage as Msg;

/// Everything judged about an error: its offset (`Err` if the position does not denote `want`).
struct Seen {
    msg: String,
    /// The message is of the expected form?
    form: Result<(), String>,
    place: Result<(), String>,
}

fn look<P: std::fmt::Debug + std::fmt::Display>(e: &DeserializeError<P>, at: bool, form: &dyn Fn(&DeserializeError<P>) -> Result<(), String>) -> Seen {
    Seen { msg: format!("{:?} ({}) at {:?}", e.message(), e.message(), e.position()), form: form(e), place: if at { Ok(()) } else { Err(format!("position {:?}", e.position())) } }
}

fn form<P: std::fmt::Debug + std::fmt::Display>(e: &DeserializeError<P>, expect: &Expect) -> Result<(), String> {
    let m = e.message();
    let ok = match expect {
        Expect::Type => matches!(m, Msg::Expected(_)),
        Expect::Overflow => matches!(m, Msg::NumberOverflow),
        Expect::NotInteger => matches!(m, Msg::NumberOverflow | Msg::Expected(_) | Msg::Custom(_)),
        Expect::BadName => e.source().map_or(false, |s| s.is::<InvalidNameError>()),
        Expect::BadIndex(i) => matches!(e.source().and_then(|s| s.downcast_ref::<InvalidIndexError>()), Some(x) if x.index == *i),
        Expect::MissingKey(k) => matches!(m, Msg::MissingKey(x) if x == k),
        Expect::MissingItems => matches!(m, Msg::MissingItems),
        Expect::ExcessItems => matches!(m, Msg::ExcessItems),
    };
    // The message is shown to people
    let shown = e.to_string();
    ensure!(shown.contains(&m.to_string()) && !m.to_string().is_empty(), "error shown as {:?}", shown);
    ensure!(ok, "the message does not say {:?}", expect);
    match (expect, m) {
        (_, Msg::Expected(l)) => names_types(&m.to_string(), l),
        (Expect::MissingKey(k), _) => {
            ensure!(m.to_string().contains(&format!("{:?}", k)) || m.to_string().contains(k.as_str()), "the message for key {:?} is shown as {:?}", k, m.to_string());
            Ok(())
        }
        (Expect::BadName, Msg::Custom(e)) => match e.downcast_ref::<InvalidNameError>() {
            Some(n) => names_options(&m.to_string(), n.expected),
            None => Ok(()),
        },
        _ => Ok(()),
    }
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;

/// One fault at a random place of a rendered value.
fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty
        + for<'s> Deserialize<TextDeserializer<&'s str>>
        + for<'s> Deserialize<TextDeserializer<MonReader<'s>>>
        + for<'s> Deserialize<TextDeserializer<Utf8Reader<Chunked<'s>>>>,
{
    cx.evals += 1;
    let m = T::gen(rng).model();
    let ro = Ro::random(rng);
    let st = Style::random(rng, false);
    let r0 = rng.fork();
    let sites = render(&mut r0.clone(), &m, &ro, &st, None).sites;
    if sites == 0 {
        return Ok(());
    }
    let k = rng.below(sites);
    let out = render(&mut r0.clone(), &m, &ro, &st, Some(k));
    let Some(fault) = out.fault else { run::harness_error("fault not placed") };
    let t = out.text;
    cx.distinct_str(&t);
    cx.sample(|| format!("{} {:?}", show(&t), fault));
    let name = std::any::type_name::<T>();
    for which in 0..3 {
        let got: Result<Option<Seen>, String> = quiet(|| match which {
            0 => from_str::<T>(&t).err().map(|e| look(&e, str_offset(&t, e.position()) == Some(fault.pos), &|e| form(e, &fault.expect))),
            1 => from_reader::<_, T>(MonReader::new(&t)).err().map(|e| look(&e, *e.position() == fault.pos, &|e| form(e, &fault.expect))),
            _ => {
                let r = Utf8Reader::new(Chunked::new(t.as_bytes(), vec![rng.range(1, 7)])).unwrap();
                from_reader::<_, T>(r).err().map(|e| look(&e, *e.position() == lc(&t, fault.pos), &|e| form(e, &fault.expect)))
            }
        });
        let got = got.map_err(|p| format!("panic {} reading {} from {}", p, name, show(&t)))?;
        let what = || format!("{} read as {} (reader {}), fault {:?} at offset {}", show(&t), name, which, fault.expect, fault.pos);
        let Some(s) = got else { return Err(format!("{}: accepted", what())) };
        s.form.map_err(|e| format!("{}: {}: {}", what(), s.msg, e))?;
        s.place.map_err(|e| format!("{}: {}: wrong {}", what(), s.msg, e))?;
    }
    cx.count(
        match fault.expect {
            Expect::Type => "wrong_type",
            Expect::Overflow => "overflow",
            Expect::NotInteger => "not_integer",
            Expect::BadName => "bad_name",
            Expect::BadIndex(_) => "bad_index",
            Expect::MissingKey(_) => "missing_key",
            Expect::MissingItems => "missing_items",
            Expect::ExcessItems => "excess_items",
        },
        1,
    );
    Ok(())
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);
fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

#[derive(Debug)]
struct MyError(u64);
impl std::fmt::Display for MyError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "my error {}", self.0)
    }
}
impl Error for MyError {}

#[derive(Debug, Clone, PartialEq)]
enum Say {
    /// `Expected` a list with the wanted type but not the actual one.
    Expected(ValueType, Option<ValueType>),
    Overflow,
    /// Any message, at the place.
    Any,
    Custom,
    Mine(u64),
    IntError,
    Index(usize),
    Name,
    MissingKey(&'static str),
    ExtraKey(&'static str),
    MissingItems,
    ExcessItems,
}

fn says<P: std::fmt::Debug + std::fmt::Display>(e: &DeserializeError<P>, s: &Say) -> Result<(), String> {
    let m = e.message();
    let ok = match s {
        Say::Expected(want, actual) => matches!(m, Msg::Expected(l) if l.contains(want) && !actual.map_or(false, |a| l.contains(&a))),
        Say::Overflow => matches!(m, Msg::NumberOverflow),
        Say::Any => true,
        Say::Custom => matches!(m, Msg::Custom(_)) && e.source().is_some(),
        Say::Mine(id) => {
            ensure!(m.to_string().contains(&format!("my error {}", id)), "message shown as {:?}", m.to_string());
            matches!(e.source().and_then(|s| s.downcast_ref::<MyError>()), Some(x) if x.0 == *id)
        }
        Say::IntError => e.source().map_or(false, |s| s.is::<std::num::TryFromIntError>()),
        Say::Index(i) => matches!(e.source().and_then(|s| s.downcast_ref::<InvalidIndexError>()), Some(x) if x.index == *i),
        Say::Name => e.source().map_or(false, |s| s.is::<InvalidNameError>()),
        Say::MissingKey(k) => matches!(m, Msg::MissingKey(x) if x == k),
        Say::ExtraKey(k) => matches!(m, Msg::ExtraKey(x) if x == k),
        Say::MissingItems => matches!(m, Msg::MissingItems),
        Say::ExcessItems => matches!(m, Msg::ExcessItems),
    };
    ensure!(ok, "the message does not say {:?}", s);
    let shown = m.to_string();
    match s {
        Say::Index(i) => ensure!(shown.contains(&i.to_string()), "the message for index {} is shown as {:?}", i, shown),
        Say::MissingKey(k) | Say::ExtraKey(k) => ensure!(shown.contains(k), "the message for key {:?} is shown as {:?}", k, shown),
        Say::Name => names_options(&shown, NAMES.unfix())?,
        _ => (),
    }
    if let Msg::Expected(l) = m {
        names_types(&shown, l)?;
    }
    Ok(())
}

/// The allowed names are all shown, apart from each other.
fn names_options(shown: &str, names: &'static NameMap<usize>) -> Result<(), String> {
    let mut rest = shown.to_string();
    for (name, _) in names.entries() {
        let lit = format!("{:?}", name);
        ensure!(rest.contains(&lit), "the message for an unknown name does not show the allowed {}: {:?}", lit, shown);
        rest = rest.replacen(&lit, "\u{0}", 1);
    }
    ensure!(!rest.contains("\u{0}\u{0}"), "the allowed names run into each other in {:?}", shown);
    Ok(())
}

/// The expected types are all shown.
fn names_types(shown: &str, l: &[ValueType]) -> Result<(), String> {
    for t in l {
        let word = match t {
            ValueType::String => "string",
            ValueType::Number => "number",
            ValueType::Object => "object",
            ValueType::Array => "array",
            ValueType::Bool => "bool",
            ValueType::Null => "null",
        };
        ensure!(shown.to_lowercase().matches(word).count() == l.iter().filter(|x| *x == t).count(), "the message for {:?} is shown as {:?}", l, shown);
    }
    ensure!(l.len() < 2 || shown.contains(' '), "the message for {:?} is shown as {:?}", l, shown);
    Ok(())
}

const LISTS: &[&[ValueType]] = {
    use ValueType::*;
    &[
        &[String], &[Number], &[Object], &[Array], &[Bool], &[Null], &[String, Number], &[Number, Null], &[Object, Array], &[Array, Object], &[String, Null, Bool], &[Number, String, Object],
        &[Null, Array, Bool, String], &[Object, Number, Bool, Null, Array], &[String, Number, Object, Array, Bool, Null], &[Null, Bool, Array, Object, Number, String],
    ]
};

/// How messages are shown, whatever they list.
fn shown(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    cx.evals += 1;
    cx.count("messages_shown", 1);
    let l = LISTS[idx as usize % LISTS.len()];
    let m = Msg::Expected(l);
    names_types(&quiet(|| m.to_string()).map_err(|p| format!("showing {:?} panics: {}", l, p))?, l)?;
    let key = gen::string(rng, true);
    for m in [Msg::MissingKey(key.clone()), Msg::ExtraKey(key.clone())] {
        let s = m.to_string();
        ensure!(s.contains(&key) || s.contains(&format!("{:?}", key)), "the message for key {} is shown as {}", show(&key), show(&s));
    }
    let mut all: Vec<String> = [Msg::UnexpectedEof, Msg::UnexpectedChar, Msg::InvalidLiteral, Msg::NumberOverflow, Msg::UnrecognizedEscape, Msg::KeyTooLong, Msg::MissingItems, Msg::ExcessItems].iter().map(|m| m.to_string()).collect();
    all.push(Msg::MissingKey("k".into()).to_string());
    all.push(Msg::ExtraKey("k".into()).to_string());
    all.extend(LISTS.iter().map(|l| Msg::Expected(l).to_string()));
    let n = all.len();
    all.sort();
    all.dedup();
    ensure!(all.len() == n && !all[0].is_empty(), "different messages are shown alike: {:?}", all);
    // Names of several lookup tables
    static ONE: FixedNameMap<usize, 1> = FixedNameMap::new([("only", 3)]);
    static TWO: FixedNameMap<usize, 2> = FixedNameMap::new([("left", 0), ("right", 1)]);
    static FIVE: FixedNameMap<usize, 5> = FixedNameMap::new([("", 0), ("Z", 1), ("a b", 2), ("a\"b", 9), ("é", 3)]);
    static DOZEN: FixedNameMap<usize, 12> = FixedNameMap::new([("Variant00", 0), ("Variant01", 1), ("Variant02", 2), ("Variant03", 3), ("Variant04", 4), ("Variant05", 5), ("Variant06", 6), ("Variant07", 7), ("Variant08", 8), ("Variant09", 9), ("Variant10", 10), ("Variant11", 11)]);
    static FORTY: FixedNameMap<usize, 40> = FixedNameMap::new([("a-0", 0), ("b-1", 1), ("c-2", 2), ("d-3", 3), ("e-4", 4), ("f-5", 5), ("g-6", 6), ("h-7", 7), ("i-8", 8), ("j-9", 9), ("k-10", 10), ("l-11", 11), ("m-12", 12), ("n-13", 13), ("o-14", 14), ("p-15", 15), ("q-16", 16), ("r-17", 17), ("s-18", 18), ("t-19", 19), ("u-20", 20), ("v-21", 21), ("w-22", 22), ("x-23", 23), ("y-24", 24), ("z-25", 25), ("a-26", 26), ("b-27", 27), ("c-28", 28), ("d-29", 29), ("e-30", 30), ("f-31", 31), ("g-32", 32), ("h-33", 33), ("i-34", 34), ("j-35", 35), ("k-36", 36), ("l-37", 37), ("m-38", 38), ("n-39", 39)]);
    static MANY: FixedNameMap<usize, 130> = FixedNameMap::new([("option_000", 0), ("option_001", 1), ("option_002", 2), ("option_003", 3), ("option_004", 4), ("option_005", 5), ("option_006", 6), ("option_007", 7), ("option_008", 8), ("option_009", 9), ("option_010", 10), ("option_011", 11), ("option_012", 12), ("option_013", 13), ("option_014", 14), ("option_015", 15), ("option_016", 16), ("option_017", 17), ("option_018", 18), ("option_019", 19), ("option_020", 20), ("option_021", 21), ("option_022", 22), ("option_023", 23), ("option_024", 24), ("option_025", 25), ("option_026", 26), ("option_027", 27), ("option_028", 28), ("option_029", 29), ("option_030", 30), ("option_031", 31), ("option_032", 32), ("option_033", 33), ("option_034", 34), ("option_035", 35), ("option_036", 36), ("option_037", 37), ("option_038", 38), ("option_039", 39), ("option_040", 40), ("option_041", 41), ("option_042", 42), ("option_043", 43), ("option_044", 44), ("option_045", 45), ("option_046", 46), ("option_047", 47), ("option_048", 48), ("option_049", 49), ("option_050", 50), ("option_051", 51), ("option_052", 52), ("option_053", 53), ("option_054", 54), ("option_055", 55), ("option_056", 56), ("option_057", 57), ("option_058", 58), ("option_059", 59), ("option_060", 60), ("option_061", 61), ("option_062", 62), ("option_063", 63), ("option_064", 64), ("option_065", 65), ("option_066", 66), ("option_067", 67), ("option_068", 68), ("option_069", 69), ("option_070", 70), ("option_071", 71), ("option_072", 72), ("option_073", 73), ("option_074", 74), ("option_075", 75), ("option_076", 76), ("option_077", 77), ("option_078", 78), ("option_079", 79), ("option_080", 80), ("option_081", 81), ("option_082", 82), ("option_083", 83), ("option_084", 84), ("option_085", 85), ("option_086", 86), ("option_087", 87), ("option_088", 88), ("option_089", 89), ("option_090", 90), ("option_091", 91), ("option_092", 92), ("option_093", 93), ("option_094", 94), ("option_095", 95), ("option_096", 96), ("option_097", 97), ("option_098", 98), ("option_099", 99), ("option_100", 100), ("option_101", 101), ("option_102", 102), ("option_103", 103), ("option_104", 104), ("option_105", 105), ("option_106", 106), ("option_107", 107), ("option_108", 108), ("option_109", 109), ("option_110", 110), ("option_111", 111), ("option_112", 112), ("option_113", 113), ("option_114", 114), ("option_115", 115), ("option_116", 116), ("option_117", 117), ("option_118", 118), ("option_119", 119), ("option_120", 120), ("option_121", 121), ("option_122", 122), ("option_123", 123), ("option_124", 124), ("option_125", 125), ("option_126", 126), ("option_127", 127), ("option_128", 128), ("option_129", 129)]);
    static LONG: FixedNameMap<usize, 6> = FixedNameMap::new([("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", 0), ("BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB", 1), ("CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC", 2), ("DDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD", 3), ("EEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE", 4), ("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", 5)]);
    for map in [ONE.unfix(), TWO.unfix(), FIVE.unfix(), NAMES.unfix(), DOZEN.unfix(), FORTY.unfix(), MANY.unfix(), LONG.unfix()] {
        names_options(&InvalidNameError { expected: map }.to_string(), map)?;
    }
    let i = rng.small(1 << 40);
    ensure!(InvalidIndexError { index: i }.to_string().contains(&i.to_string()), "index {} is shown as {}", i, InvalidIndexError { index: i });
    Ok(())
}

const GET: &[(&str, ValueType)] = &[
    ("bool", ValueType::Bool),
    ("i8", ValueType::Number),
    ("i16", ValueType::Number),
    ("i32", ValueType::Number),
    ("i64", ValueType::Number),
    ("u8", ValueType::Number),
    ("u16", ValueType::Number),
    ("u32", ValueType::Number),
    ("u64", ValueType::Number),
    ("f32", ValueType::Number),
    ("f64", ValueType::Number),
    ("char", ValueType::String),
    ("str", ValueType::String),
    ("open_str", ValueType::String),
    ("null", ValueType::Null),
    ("object", ValueType::Object),
    ("struct", ValueType::Object),
    ("list", ValueType::Array),
    ("tuple", ValueType::Array),
    ("tag", ValueType::Number),
];

static NAMES: FixedNameMap<usize, 3> = FixedNameMap::new([("a", 0), ("b", 1), ("c", 7)]);

fn get<R: TextReader>(d: &mut TD<R>, what: &str) -> Result<(), DeserializeError<R::Position>> {
    match what {
        "bool" => d.get_bool().map(|_| ()),
        "i8" => d.get_i8().map(|_| ()),
        "i16" => d.get_i16().map(|_| ()),
        "i32" => d.get_i32().map(|_| ()),
        "i64" => d.get_i64().map(|_| ()),
        "u8" => d.get_u8().map(|_| ()),
        "u16" => d.get_u16().map(|_| ()),
        "u32" => d.get_u32().map(|_| ()),
        "u64" => d.get_u64().map(|_| ()),
        "f32" => d.get_f32().map(|_| ()),
        "f64" => d.get_f64().map(|_| ()),
        "char" => d.get_char().map(|_| ()),
        "str" => d.read_str().map(|_| ()),
        "open_str" => d.open_str(),
        "null" => d.pop_null(),
        "object" => d.open_object(),
        "struct" => d.open_struct(None),
        "list" => d.open_list().map(|_| ()),
        "tuple" => d.open_tuple(None),
        "tag" => d.get_tag(10, NAMES.unfix()).map(|_| ()),
        _ => unreachable!(),
    }
}

fn ty_of_text(v: &str) -> ValueType {
    match v.as_bytes()[0] {
        b'"' => ValueType::String,
        b'{' => ValueType::Object,
        b'[' => ValueType::Array,
        b't' | b'f' => ValueType::Bool,
        b'n' => ValueType::Null,
        _ => ValueType::Number,
    }
}

/// Runs `f` on the value `v` at `kind` in each reader, and judges the error it must give.
/// `container`: reported at the start of the value `v` itself otherwise.
fn case(rng: &mut Rng, cx: &mut Cx, what: &str, v: &str, off: usize, say: &Say, g: &dyn Gen) -> Result<(), String> {
    let kind = rng.below(KINDS);
    let p = place(rng, kind, v);
    let want = p.start + off;
    cx.evals += 1;
    cx.distinct_str(&format!("{} {}", p.text, what));
    let t = p.text.as_str();
    for which in 0..3 {
        let got: Result<Option<Seen>, String> = quiet(|| match which {
            0 => {
                let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), t).unwrap();
                at(kind, &mut d, |d| g.str(d)).err().map(|e| look(&e, str_offset(t, e.position()) == Some(want), &|e| says(e, say)))
            }
            1 => {
                let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), MonReader::new(t)).unwrap();
                at(kind, &mut d, |d| g.mon(d)).err().map(|e| look(&e, *e.position() == want, &|e| says(e, say)))
            }
            _ => {
                let r = Utf8Reader::new(Chunked::new(t.as_bytes(), vec![rng.range(1, 7)])).unwrap();
                let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r).unwrap();
                at(kind, &mut d, |d| g.utf(d)).err().map(|e| look(&e, *e.position() == lc(t, want), &|e| says(e, say)))
            }
        });
        let got = got.map_err(|e| format!("panic {} in {} on {}", e, what, show(t)))?;
        let how = || format!("{} on {} (place {}, {}, reader {}), expected {:?} at offset {}", what, show(t), kind, if p.buffered { "buffered" } else { "streamed" }, which, say, want);
        let Some(s) = got else { return Err(format!("{}: no error", how())) };
        s.form.map_err(|e| format!("{}: {}: {}", how(), s.msg, e))?;
        s.place.map_err(|e| format!("{}: {}: wrong {}", how(), s.msg, e))?;
    }
    cx.count(if p.buffered { "buffered" } else { "streamed" }, 1);
    Ok(())
}

/// A function usable with all three readers.
trait Gen {
    fn str<'a>(&self, d: &mut TD<&'a str>) -> Result<(), DeserializeError<StrPosition<'a>>>;
    fn mon(&self, d: &mut TD<MonReader>) -> Result<(), DeserializeError<usize>>;
    fn utf(&self, d: &mut TD<Utf8Reader<Chunked>>) -> Result<(), DeserializeError<LineColumnPosition>>;
}
macro_rules! gens {
    ($name:ident { $($f:ident : $t:ty),* } |$s:ident, $d:ident| $body:expr) => {
        struct $name { $($f: $t),* }
        impl $name {
            fn go<R: TextReader>(&self, $d: &mut TD<R>) -> Result<(), DeserializeError<R::Position>> { let $s = self; let _ = $s; $body }
        }
        impl Gen for $name {
            fn str<'a>(&self, d: &mut TD<&'a str>) -> Result<(), DeserializeError<StrPosition<'a>>> { self.go(d) }
            fn mon(&self, d: &mut TD<MonReader>) -> Result<(), DeserializeError<usize>> { self.go(d) }
            fn utf(&self, d: &mut TD<Utf8Reader<Chunked>>) -> Result<(), DeserializeError<LineColumnPosition>> { self.go(d) }
        }
    };
}

gens!(Getter { what: &'static str } |s, d| get(d, s.what));
gens!(Valid { id: u64, op: u8 } |s, d| Value::with(d, |v| v.validate_with(|v| {
    match s.op {
        0 => { v.get_f64()?; }
        1 => { v.get_str()?; }
        2 => { v.get_bool()?; }
        3 => { v.skip()?; }
        4 => { v.get::<Vec<u8>>()?; }
        5 => { let mut o = v.into_object()?; while let Some(e) = o.next_entry()? { e.value()?.skip()?; } }
        6 => { let mut o = v.into_object()?; if let Some(x) = o.try_entry("z")? { x.skip()?; } if let Some(x) = o.try_entry("q")? { x.skip()?; } o.close()?; }
        7 => { v.get_char()?; }
        _ => { let mut t = v.into_tuple(None)?; t.element()?.get_u8()?; t.element()?.get_u8()?; t.close()?; }
    }
    Ok(Err::<(), _>(MyError(s.id)))
})));
gens!(NonZero { w: u8 } |s, d| Value::with(d, |v| match s.w {
    0 => v.get::<std::num::NonZeroU8>().map(|_| ()),
    1 => v.get::<std::num::NonZeroU16>().map(|_| ()),
    2 => v.get::<std::num::NonZeroU32>().map(|_| ()),
    3 => v.get::<std::num::NonZeroU64>().map(|_| ()),
    4 => v.get::<std::num::NonZeroI8>().map(|_| ()),
    5 => v.get::<std::num::NonZeroI16>().map(|_| ()),
    6 => v.get::<std::num::NonZeroI32>().map(|_| ()),
    _ => v.get::<std::num::NonZeroI64>().map(|_| ()),
}));
gens!(Unassigned { } |s, d| Value::with(d, |v| v.get::<Idx>().map(|_| ())));
gens!(Name { op: u8 } |s, d| match s.op {
    0 => d.get_name(NAMES.unfix()).map(|_| ()),
    1 => d.get_tag(10, NAMES.unfix()).map(|_| ()),
    _ => { d.open_str()?; d.next_char()?; d.flush_name(NAMES.unfix()).map(|_| ()) }
});
gens!(Missing { key: &'static str, first: Option<&'static str> } |s, d| {
    d.open_object()?;
    if let Some(k) = s.first { d.push_entry(k)?; d.skip_value()?; }
    d.push_entry(s.key)
});
gens!(Extra { first: Option<&'static str> } |s, d| {
    d.open_object()?;
    if let Some(k) = s.first { d.push_entry(k)?; d.skip_value()?; }
    d.close_object()
});
gens!(FieldMissing { key: &'static str, first: Option<&'static str>, how: u8 } |s, d| {
    d.open_struct(Some("S"))?;
    if let Some(k) = s.first { d.push_field(k)?; d.skip_value()?; }
    d.push_field(s.key)?;
    match s.how {
        0 => d.get_u8().map(|_| ()),
        1 => d.get_bool().map(|_| ()),
        2 => d.read_str().map(|_| ()),
        3 => d.open_list().map(|_| ()),
        4 => d.open_struct(None),
        5 => d.open_object(),
        6 => d.get_char().map(|_| ()),
        7 => d.get_tag(3, NAMES.unfix()).map(|_| ()),
        8 => d.get_f64().map(|_| ()),
        _ => d.open_str(),
    }
});
gens!(Few { n: usize, tuple: bool } |s, d| {
    if s.tuple { d.open_tuple(None)? } else { d.open_list()?; }
    for _ in 0..s.n { if s.tuple { d.push_element()? } else { d.push_item()? } d.skip_value()?; }
    if s.tuple { d.push_element() } else { d.push_item() }
});
gens!(Many { n: usize, tuple: u8 } |s, d| {
    match s.tuple { 0 => { d.open_list()?; } 1 => d.open_tuple(None)?, _ => d.open_struct(None)? }
    for _ in 0..s.n { match s.tuple { 0 => d.push_item()?, 1 => d.push_element()?, _ => d.push_field("f")? } d.skip_value()?; }
    match s.tuple { 0 => d.close_list(), 1 => d.close_tuple(), _ => d.close_struct() }
});

const VALUES: &[&str] = &[
    "null", "true", "false", "0", "-1.5e3", "12", "\"\"", "\"a\"", "\"abc\\n\\u00e9\"", "[]", "[1]", "[[],{}]", "{}", "{\"z\":1}", "{\"z\":{\"y\":[]},\"q\":2}", "1E400", "\"漢字\"",
];

fn manual(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    match rng.below(12) {
        // A getter on a value of another type
        0..=2 => {
            let (what, want) = *rng.pick(GET);
            let v = *rng.pick(VALUES);
            let ty = ty_of_text(v);
            if ty == want || (what == "tag" && ty == ValueType::String) || (what == "struct" && ty == ValueType::Array) {
                return Ok(());
            }
            cx.count("getter", 1);
            case(rng, cx, what, v, 0, &Say::Expected(want, Some(ty)), &Getter { what })
        }
        // Out of range
        3 => {
            let (what, vs): (&'static str, &[&str]) = *rng.pick(&[
                ("i8", &["128", "-129", "1000", "1e3", "12800e-2"][..]),
                ("u8", &["256", "-1", "1000", "2560e-1", "99999999999999999999999999999999999999999999"]),
                ("i16", &["32768", "-32769", "1e5"]),
                ("u16", &["65536", "-1", "655360e-1"]),
                ("i32", &["2147483648", "-2147483649"]),
                ("u32", &["4294967296", "-1"]),
                ("i64", &["9223372036854775808", "-9223372036854775809", "1e19"]),
                ("u64", &["18446744073709551616", "-1", "1e20", "1e400"]),
                ("tag", &["18446744073709551616", "340282366920938463463374607431768211456"]),
            ]);
            let v = *rng.pick(vs);
            cx.count("range", 1);
            let say = if v.starts_with('-') && what.starts_with('u') { Say::Any } else { Say::Overflow };
            case(rng, cx, what, v, 0, &say, &Getter { what })
        }
        4 => {
            let v = *rng.pick(&["\"\"", "\"ab\"", "\"\\u00e9\\n\"", "\"漢字\"", "\"\\ud83d\\ude00x\""]);
            cx.count("char", 1);
            case(rng, cx, "char", v, 0, &Say::Custom, &Getter { what: "char" })
        }
        // Rejected by the user's validation
        5 => {
            let op = rng.below(9) as u8;
            let v = match op {
                0 => *rng.pick(&["0", "-1.5", "1e5"]),
                1 => *rng.pick(&["\"\"", "\"plain\"", "\"\\u0041\""]),
                2 => *rng.pick(&["true", "false"]),
                3 => *rng.pick(VALUES),
                4 => *rng.pick(&["[]", "[1]", "[1, 2,\n3]"]),
                5 | 6 => *rng.pick(&["{}", "{\"z\":1}", "{ \"q\" : [1, {}],\n\"z\":\"s\" }"]),
                7 => *rng.pick(&["\"a\"", "\"\\n\"", "\"漢\""]),
                _ => *rng.pick(&["[1,2]", "[ 0 , 7 ]"]),
            };
            let id = rng.u64();
            cx.count("validation", 1);
            case(rng, cx, "validate_with", v, 0, &Say::Mine(id), &Valid { id, op })
        }
        6 => {
            let w = rng.below(8) as u8;
            cx.count("validation", 1);
            let v = *rng.pick(&["0", "-0", "0"]);
            if v == "-0" && w < 4 {
                return Ok(());
            }
            case(rng, cx, "non-zero", v, 0, &Say::IntError, &NonZero { w })
        }
        7 => {
            let i = *rng.pick(&[1usize, 4, 7, 8, 99, 100, 299, 70000]);
            cx.count("index", 1);
            case(rng, cx, "unassigned index", &i.to_string(), 0, &Say::Index(i), &Unassigned {})
        }
        8 => {
            let op = rng.below(3) as u8;
            let v = *rng.pick(&["\"ax\"", "\"\"", "\"\\u0061\\u0061\"", "\"cc\"", "\"A\""]);
            cx.count("name", 1);
            let op = if v == "\"ax\"" || v == "\"A\"" || op < 2 { op } else { 0 };
            case(rng, cx, "name", v, 0, &Say::Name, &Name { op })
        }
        // Entries
        9 => {
            cx.count("entries", 1);
            match rng.below(3) {
                0 => {
                    let (v, first) = *rng.pick(&[("{}", None), ("{\"z\":1}", None), ("{\"z\":[1,{\"y\":2}], \"q\":2}", Some("q")), ("{\"z\":1,\"q\":{\"no\":1}}", Some("z")), ("{\n\"no\\u0020\":1}", None)]);
                    case(rng, cx, "push_entry", v, 0, &Say::MissingKey("no"), &Missing { key: "no", first })
                }
                1 => {
                    let (v, first, k) = *rng.pick(&[
                        ("{\"z\":1}", None, "z"),
                        ("{\"z\":[1,{\"y\":2}], \"q\":2}", Some("q"), "z"),
                        ("{\"z\":1,\"q\":{\"no\":1}}", Some("z"), "q"),
                        ("{ \"\\u007a\" : [ ] }", None, "z"),
                    ]);
                    case(rng, cx, "close_object", v, 0, &Say::ExtraKey(k), &Extra { first })
                }
                _ => {
                    let (v, first) = *rng.pick(&[("{}", None), ("{\"z\":1}", None), ("{\"z\":[1,{\"y\":2}], \"q\":2}", Some("q")), ("{\"z\":1,\"q\":{\"no\":1}}", Some("z"))]);
                    let how = rng.below(10) as u8;
                    case(rng, cx, "field", v, 0, &Say::MissingKey("no"), &FieldMissing { key: "no", first, how })
                }
            }
        }
        // Items
        10 => {
            let (v, n) = *rng.pick(&[("[]", 0), ("[1]", 1), ("[1,[2,3]]", 2), ("[ {\"a\":[]} ,\n 2, null ]", 3)]);
            let tuple = rng.bool();
            cx.count("items", 1);
            case(rng, cx, "too few items", v, 0, &Say::MissingItems, &Few { n, tuple })
        }
        _ => {
            let (v, n) = *rng.pick(&[("[1]", 0), ("[1,2]", 1), ("[1,[2,3]]", 0), ("[ {\"a\":[]} ,\n 2, null ]", 2), ("[[[]]]", 0)]);
            let tuple = rng.below(3) as u8;
            cx.count("items", 1);
            case(rng, cx, "too many items", v, 0, &Say::ExcessItems, &Many { n, tuple })
        }
    }
}

/// A syntax error lies between the start of its token and the first character that cannot
/// continue a valid document.
fn syntax(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    cx.evals += 1;
    let comments = rng.chance(1, 4);
    let t = if rng.chance(1, 2000) {
        let (t, _) = big(rng, 1 << 17, 1 << 9);
        mutate(rng, &t)
    } else if rng.chance(1, 3) {
        hostile(rng)
    } else {
        let o = DocOpts { max_nodes: *rng.pick(&[3, 10, 40]), ..Default::default() };
        let st = Style::random(rng, comments);
        let (mut t, _) = doc_text(rng, &o, &st);
        t = mutate(rng, &t);
        t
    };
    let Err(err) = refjson::parse(&t, comments) else { return Ok(()) };
    cx.distinct_str(&t);
    cx.sample(|| format!("{} {:?}", show(&t), err));
    let mut f = Free::new(rng.fork());
    f.keys = Free::keys_of(&t);
    f.shuffle = if Free::repeated_keys(&t) { 0 } else { *rng.pick(&[0, 50, 100]) };
    f.skip = *rng.pick(&[0, 20, 100]);
    let out = if rng.bool() {
        quiet(|| f.doc(MonReader::new(&t), comments).map_err(|e| (*e.position(), format!("{:?}", e.message()))))
    } else {
        quiet(|| f.doc(t.as_str(), comments).map_err(|e| (str_offset(&t, e.position()).unwrap_or(usize::MAX), format!("{:?}", e.message()))))
    };
    let out = out.map_err(|p| format!("panic {} on {}", p, show(&t)))?;
    let Err((pos, msg)) = out else { return Err(format!("{} accepted, though {:?}", show(&t), err)) };
    ensure!(
        pos >= err.token_start && pos <= err.viable,
        "{}: error {} reported at offset {}, but the token starts at {} and the first impossible character is at {}",
        show(&t),
        msg,
        pos,
        err.token_start,
        err.viable
    );
    cx.count("syntax", 1);
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C10",
        level: "exploration",
        rule: "one fault (wrong type, out of range, fractional, unknown name or index, missing key, missing or excess items) at a random place of values of all types rendered with permuted keys, extra entries, array form and indices, read from string, byte and third-party readers, message and position compared with where the fault was put; raw deserializer and wrapper calls (getters, validation, entries, items) in 16 placements, streamed and buffered; syntax errors of invalid texts against the bounds from a reference parser; distinct by text",
        assumptions: &["the position of a missing or excess entry or item is the start of its container, as the code documents"],
        phases: vec![
            Phase { name: "types", quick: 1200000, thorough: 0, f: types },
            Phase { name: "manual", quick: 1600000, thorough: 0, f: manual },
            Phase { name: "shown", quick: 4000, thorough: 20000, f: shown },
            Phase { name: "syntax", quick: 1600000, thorough: 0, f: syntax },
        ],
        floors: &[
            ("wrong_type", 1000), ("overflow", 200), ("bad_name", 50), ("bad_index", 50), ("missing_key", 200), ("missing_items", 100), ("excess_items", 100),
            ("buffered", 1000), ("streamed", 1000), ("getter", 1000), ("range", 500), ("char", 500), ("validation", 500), ("index", 500), ("name", 500), ("entries", 500), ("items", 500), ("syntax", 5000),
        ],
        hang_cpu_s: 30,
    });
}
