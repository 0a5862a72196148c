//! C22: the caller's context reaches every nested value, once, in order.
use serdere::*;
use serdere_json::*;
use std::rc::Rc;
use vh::backend::*;
use vh::gen::{Style, V};
use vh::reader::{Chunked, MonReader};
use vh::run::{harness_error, quiet, show};
use vh::walk::emsg;
use vh::*;

/// What leaves do with their context.
trait Logger {
    fn log(&mut self, id: u32) -> bool;
    fn addr(&self) -> usize;
}
struct Log {
    at: usize,
    seen: Vec<u32>,
    /// The event with this number makes its leaf fail.
    fail: Option<usize>,
    wrong: usize,
    after: usize,
}
impl Log {
    fn new(fail: Option<usize>) -> Box<Log> {
        let mut l = Box::new(Log { at: 0, seen: vec![], fail, wrong: 0, after: 0 });
        l.at = &*l as *const Log as usize;
        l
    }
}
impl Logger for Log {
    fn log(&mut self, id: u32) -> bool {
        if self.addr() != self.at {
            self.wrong += 1;
        }
        if self.fail.map_or(false, |f| self.seen.len() > f) {
            self.after += 1;
        }
        self.seen.push(id);
        self.fail != Some(self.seen.len() - 1)
    }
    fn addr(&self) -> usize {
        self as *const Log as usize
    }
}

/// A leaf that records itself.
#[derive(Debug, PartialEq)]
struct Leaf(u32);
impl<D: Deserializer + ?Sized, C: Logger + ?Sized> Deserialize<D, C> for Leaf {
    const NULLABLE: bool = false;
    fn deserialize(mut v: Value<D>, ctx: &mut C) -> Result<Self, D::Error> {
        if v.check_null()? {
            panic!("a leaf is null");
        }
        let (d, done) = v.into_raw();
        let x = d.get_u32()?;
        *done = true;
        if !ctx.log(x) {
            return Err(d.error("stop here".into()));
        }
        Ok(Leaf(x))
    }
}
impl<S: Serializer + ?Sized, C: Logger + ?Sized> Serialize<S, C> for Leaf {
    const NULLABLE: bool = false;
    fn serialize(&self, v: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        ctx.log(self.0);
        v.put_u32(self.0)
    }
}
const DEFAULT: u32 = 424242;
impl Default for Leaf {
    fn default() -> Self {
        Leaf(DEFAULT)
    }
}
/// A nullable leaf: a user type that handles null itself.
#[derive(Debug, PartialEq)]
struct OrNull(Option<u32>);
impl<D: Deserializer + ?Sized, C: Logger + ?Sized> Deserialize<D, C> for OrNull {
    const NULLABLE: bool = true;
    fn deserialize(v: Value<D>, ctx: &mut C) -> Result<Self, D::Error> {
        let o: Option<Leaf> = v.get_using(ctx)?;
        Ok(OrNull(o.map(|l| l.0)))
    }
}
impl<S: Serializer + ?Sized, C: Logger + ?Sized> Serialize<S, C> for OrNull {
    const NULLABLE: bool = true;
    fn serialize(&self, v: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        v.put_using(&self.0.map(Leaf), ctx)
    }
}
/// A struct-like user type with hand-written content.
#[derive(Debug, PartialEq)]
struct Hand(Leaf, Leaf);
impl<D: Deserializer + ?Sized, C: Logger + ?Sized> Deserialize<D, C> for Hand {
    const NULLABLE: bool = false;
    fn deserialize(v: Value<D>, ctx: &mut C) -> Result<Self, D::Error> {
        serdere::deserialize::deserialize_struct(v, ctx, Some("Hand"))
    }
}
impl<D: Deserializer + ?Sized, C: Logger + ?Sized> serdere::deserialize::DeserializeStruct<D, C> for Hand {
    fn deserialize_content(st: &mut Struct<D>, ctx: &mut C) -> Result<Self, D::Error> {
        Ok(Hand(st.field("hand1")?.get_using(ctx)?, st.field("hand2")?.get_using(ctx)?))
    }
}
impl<S: Serializer + ?Sized, C: Logger + ?Sized> Serialize<S, C> for Hand {
    const NULLABLE: bool = false;
    fn serialize(&self, v: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        serdere::serialize::serialize_struct(v, self, ctx, Some("Hand"))
    }
}
impl<S: Serializer + ?Sized, C: Logger + ?Sized> serdere::serialize::SerializeStruct<S, C> for Hand {
    fn serialize_content(&self, st: &mut Struct<S>, ctx: &mut C) -> Result<(), S::Error> {
        st.field("hand1")?.put_using(&self.0, ctx)?;
        st.field("hand2")?.put_using(&self.1, ctx)
    }
}

// Fields whose key starts with `dflt` have a default. Keys are distinct also when flattened.
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct In {
    x: Leaf,
    y: Option<Leaf>,
}
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Around<T> {
    head: Leaf,
    t: T,
    tail: Leaf,
}
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Fl<T> {
    a: Leaf,
    #[serde(flatten)]
    i: T,
    b: Vec<Leaf>,
    #[serde(flatten)]
    h: Hand,
    c: Leaf,
}
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Df {
    #[serde(default)]
    dflt1: Leaf,
    m: Leaf,
    #[serde(default, rename = "dflt two")]
    n: Leaf,
    #[serde(default)]
    dflt3: Vec<Leaf>,
    #[serde(default)]
    dflt4: Option<Leaf>,
}
#[derive(Debug, PartialEq, Serialize, Deserialize)]
enum En<T> {
    A {
        p: Leaf,
        q: (Leaf, Leaf),
        #[serde(flatten)]
        r: Hand,
    },
    #[serde(transparent)]
    B(T),
    #[serde(transparent, rename = "see")]
    C { inner: Df },
    D,
}
#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "which")]
enum Tagged {
    One {
        #[serde(default)]
        dflt1: Leaf,
        last: [Leaf; 2],
    },
    Two {
        #[serde(rename = "k")]
        v: Option<Option<Leaf>>,
    },
}
mod w {
    use super::*;
    #[derive(Debug, PartialEq, Serialize)]
    pub struct Px {
        pub a: Leaf,
        pub dflt1: Leaf,
        #[serde(flatten)]
        pub f: In,
        pub l: Vec<Leaf>,
        pub z: Leaf,
    }
}
mod r {
    use super::*;
    #[derive(Debug, PartialEq)]
    pub struct Conv(pub u32);
    impl From<Leaf> for Conv {
        fn from(l: Leaf) -> Conv {
            Conv(l.0)
        }
    }
    impl Default for Conv {
        fn default() -> Conv {
            Conv(DEFAULT)
        }
    }
    #[derive(Debug, PartialEq)]
    pub struct ConvIn(pub u32, pub Option<u32>);
    impl From<In> for ConvIn {
        fn from(i: In) -> ConvIn {
            ConvIn(i.x.0, i.y.map(|l| l.0))
        }
    }
    #[derive(Debug, PartialEq)]
    pub struct ConvList(pub Vec<u32>);
    impl From<Vec<Leaf>> for ConvList {
        fn from(i: Vec<Leaf>) -> ConvList {
            ConvList(i.into_iter().map(|l| l.0).collect())
        }
    }
    #[derive(Debug, PartialEq, Deserialize)]
    pub struct Px {
        #[serde(proxy = Leaf)]
        pub a: Conv,
        #[serde(default, proxy = Leaf)]
        pub dflt1: Conv,
        #[serde(flatten, proxy = In)]
        pub f: ConvIn,
        #[serde(proxy = Vec<Leaf>)]
        pub l: ConvList,
        pub z: Leaf,
    }
}

thread_local! {
    /// The length of the next list that is made, if not 0.
    static MANY: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Values with leaves numbered in order.
trait Make: Sized {
    fn make(r: &mut Rng, n: &mut u32) -> Self;
}
impl Make for Leaf {
    fn make(_: &mut Rng, n: &mut u32) -> Self {
        *n += 1;
        Leaf(*n)
    }
}
impl Make for OrNull {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        OrNull(Option::<Leaf>::make(r, n).map(|l| l.0))
    }
}
impl<T: Make> Make for Option<T> {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        r.chance(2, 3).then(|| T::make(r, n))
    }
}
impl<T: Make> Make for Vec<T> {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        let len = match MANY.take() {
            0 => r.below(4),
            m => m,
        };
        (0..len).map(|_| T::make(r, n)).collect()
    }
}
impl<T: Make, const N: usize> Make for [T; N] {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        let v: Vec<T> = (0..N).map(|_| T::make(r, n)).collect();
        v.try_into().unwrap_or_else(|_| unreachable!())
    }
}
impl<T: Make, U: Make> Make for (T, U) {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        (T::make(r, n), U::make(r, n))
    }
}
impl<T: Make, U: Make, W: Make> Make for (T, U, W) {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        (T::make(r, n), U::make(r, n), W::make(r, n))
    }
}
macro_rules! make {
    ($r:ident $n:ident $($t:ty : $e:expr;)*) => {$(
        impl Make for $t {
            fn make($r: &mut Rng, $n: &mut u32) -> Self { $e }
        }
    )*};
}
make! { r n
    Hand: Hand(Make::make(r, n), Make::make(r, n));
    In: In { x: Make::make(r, n), y: Make::make(r, n) };
    Df: Df { dflt1: Make::make(r, n), m: Make::make(r, n), n: Make::make(r, n), dflt3: Make::make(r, n), dflt4: Make::make(r, n) };
    Tagged: if r.bool() { Tagged::One { dflt1: Make::make(r, n), last: Make::make(r, n) } } else { Tagged::Two { v: Make::make(r, n) } };
    w::Px: w::Px { a: Make::make(r, n), dflt1: Make::make(r, n), f: Make::make(r, n), l: Make::make(r, n), z: Make::make(r, n) };
}
impl<T: Make> Make for Around<T> {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        Around { head: Make::make(r, n), t: Make::make(r, n), tail: Make::make(r, n) }
    }
}
impl<T: Make> Make for Fl<T> {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        Fl { a: Make::make(r, n), i: Make::make(r, n), b: Make::make(r, n), h: Make::make(r, n), c: Make::make(r, n) }
    }
}
impl<T: Make> Make for En<T> {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        match r.below(5) {
            0 | 1 => En::A { p: Make::make(r, n), q: Make::make(r, n), r: Make::make(r, n) },
            2 => En::B(Make::make(r, n)),
            3 => En::C { inner: Make::make(r, n) },
            _ => En::D,
        }
    }
}

/// The leaves named in a debug text, in order.
fn leaves(s: &str) -> Vec<u32> {
    let mut out = vec![];
    let mut t = s;
    while let Some(i) = t.find(|c: char| c.is_ascii_digit()) {
        let before = t[..i].chars().last();
        t = &t[i..];
        let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
        if before == Some('(') || before == Some(' ') || before == Some('[') {
            out.push(t[..e].parse().unwrap());
        }
        t = &t[e..];
    }
    out
}

/// Another JSON form of the same value: entries in another order, defaults left out, structs as
/// arrays. Gives the leaves that are left.
fn vary(rng: &mut Rng, n: &JNode, left: &mut Vec<u32>) -> V {
    match &n.kind {
        JKind::Null => V::Null,
        JKind::Bool(b) => V::Bool(*b),
        JKind::Str(s) => V::Str(s.clone()),
        JKind::Num(s) => {
            left.push(s.parse().unwrap_or_else(|_| harness_error("number")));
            V::Num(s.clone())
        }
        JKind::Arr(xs) => V::Arr(xs.iter().map(|x| vary(rng, x, left)).collect()),
        JKind::Obj(es) => {
            if rng.chance(1, 8) {
                return V::Arr(es.iter().map(|e| vary(rng, &e.value, left)).collect());
            }
            let mut out = vec![];
            for e in es {
                if e.key.starts_with("dflt") && rng.chance(1, 3) {
                    if rng.bool() {
                        out.push((e.key.clone(), V::Null));
                    }
                    continue;
                }
                out.push((e.key.clone(), vary(rng, &e.value, left)));
            }
            if rng.bool() {
                for i in (1..out.len()).rev() {
                    out.swap(i, rng.below(i + 1));
                }
            }
            V::Obj(out)
        }
    }
}

fn judge(log: &Log, want: &[u32], what: &dyn Fn() -> String) -> Result<(), String> {
    ensure!(log.wrong == 0, "{}: {} values were given another context object", what(), log.wrong);
    ensure!(log.seen == want, "{}: the context saw {:?}, expected {:?}", what(), log.seen, want);
    Ok(())
}

/// Calls with the context as itself or as a trait object.
macro_rules! either {
    ($dynamic:expr, $log:ident, $c:ident => $e:expr) => {
        if $dynamic {
            let $c: &mut dyn Logger = &mut *$log;
            $e
        } else {
            let $c: &mut Log = &mut *$log;
            $e
        }
    };
}

fn write_all<T>(rng: &mut Rng, cx: &mut Cx, v: &T) -> Result<(Vec<u32>, String, Vec<Rc<Node>>), String>
where
    T: Make + std::fmt::Debug,
    T: for<'a> Serialize<TextSerializer<&'a mut String>, Log> + Serialize<RecSer, Log> + Serialize<TextSerializer<Utf8Writer<Vec<u8>>>, Log>,
    T: for<'a, 'b> Serialize<TextSerializer<&'a mut String>, dyn Logger + 'b> + for<'b> Serialize<RecSer, dyn Logger + 'b>,
{
    let name = std::any::type_name::<T>();
    let dbg = format!("{:?}", v);
    let want = leaves(&dbg);
    // JSON
    let mut log = Log::new(None);
    let dynamic = rng.bool();
    let text = either!(dynamic, log, c => to_str_using(v, c));
    judge(&log, &want, &|| format!("writing {} as {}", dbg, text))?;
    let tree = refjson::parse(&text, false).map_err(|e| format!("{} written as {}: {:?}", dbg, show(&text), e))?;
    let mut nums = vec![];
    for n in tree.all() {
        if let JKind::Num(s) = &n.kind {
            nums.push(s.parse::<u32>().map_err(|e| e.to_string())?);
        }
    }
    ensure!(nums == want, "{} of type {} is written as {}", dbg, name, text);
    let mut log = Log::new(None);
    let mut s = String::new();
    to_writer_using(&mut s, v, &mut *log).unwrap();
    judge(&log, &want, &|| format!("writing {} to a writer", dbg))?;
    ensure!(s == text, "{} written as {} and as {}", dbg, text, s);
    cx.count("written", 1);
    // Recorded
    let mut nodes = vec![];
    for i in [0, 7] {
        let mut ser = RecSer::new(Caps::all(i));
        let mut log = Log::new(None);
        let dynamic = rng.bool();
        quiet(|| either!(dynamic, log, c => Value::with(&mut ser, |o| o.put_using(v, c))))?.map_err(|e| e.0)?;
        judge(&log, &want, &|| format!("recording {} with {:?}", dbg, Caps::all(i)))?;
        nodes.push(Rc::new(ser.finish()?));
        cx.count("recorded", 1);
    }
    cx.distinct_str(&dbg);
    cx.count("leaves", want.len() as u64);
    cx.sample(|| text.clone());
    Ok((want, text, nodes))
}

fn read_all<T>(rng: &mut Rng, cx: &mut Cx, orig: &str, want: &[u32], text: &str, nodes: &[Rc<Node>], same: bool) -> Result<(), String>
where
    T: std::fmt::Debug,
    T: for<'a> Deserialize<TextDeserializer<&'a str>, Log> + Deserialize<RecDe, Log>,
    T: for<'a> Deserialize<TextDeserializer<MonReader<'a>>, Log> + for<'a> Deserialize<TextDeserializer<Utf8Reader<Chunked<'a>>>, Log>,
    T: for<'a, 'b> Deserialize<TextDeserializer<&'a str>, dyn Logger + 'b> + for<'b> Deserialize<RecDe, dyn Logger + 'b>,
{
    for k in 0..2 {
        let caps = Caps::all([0, 7][k]);
        let mut d = RecDe::new(caps, nodes[k].clone());
        let mut log = Log::new(None);
        let dynamic = rng.bool();
        let got: T = quiet(|| either!(dynamic, log, c => Value::with(&mut d, |v| v.get_using(c))))?.map_err(|e| e.0)?;
        d.finish()?;
        judge(&log, want, &|| format!("reading {} back with {:?}", orig, caps))?;
        ensure!(!same || format!("{:?}", got) == orig, "{} is read back as {:?}", orig, got);
        cx.count("replayed", 1);
    }
    for k in 0..3 {
        let tree = refjson::parse(text, false).unwrap_or_else(|_| harness_error("text"));
        let mut left = vec![];
        let v = if k == 0 {
            left = want.to_vec();
            None
        } else {
            Some(vary(rng, &tree, &mut left))
        };
        let t = match v {
            None => text.to_string(),
            Some(v) => gen::render(rng, &v, &Style { ws: 10, comments: 0, escape: 5 }),
        };
        cx.distinct_str(&t);
        // Possibly with a leaf that fails
        let fail = (rng.chance(1, 3) && !left.is_empty()).then(|| rng.below(left.len()));
        let mut log = Log::new(fail);
        let dynamic = rng.bool();
        let r: Result<T, String> = quiet(|| match rng.below(3) {
            0 => either!(dynamic, log, c => from_str_using(&t, c).map_err(|e| emsg(&e))),
            1 => from_reader_using(MonReader::new(&t), &mut *log).map_err(|e| emsg(&e)),
            _ => {
                let r = Utf8Reader::new(Chunked::new(t.as_bytes(), vec![3])).unwrap();
                from_reader_using(r, &mut *log).map_err(|e| emsg(&e))
            }
        })
        .map_err(|p| format!("{} reading {}", p, show(&t)))?;
        let want: Vec<u32> = match fail {
            None => left,
            Some(k) => left[..=k].to_vec(),
        };
        judge(&log, &want, &|| format!("reading {} (event {:?} fails)", show(&t), fail))?;
        ensure!(r.is_ok() == fail.is_none(), "reading {} (event {:?} fails) gives {:?}", show(&t), fail, r);
        if fail.is_some() {
            ensure!(matches!(&r, Err(e) if e.contains("stop here")), "reading {}: the error of a leaf becomes {:?}", show(&t), r);
            cx.count("failed", 1);
        }
        if let (Ok(v), true) = (&r, k == 0 && same) {
            ensure!(format!("{:?}", v) == orig, "{} is read back as {:?}", orig, v);
        }
        cx.count("read", 1);
    }
    Ok(())
}

fn case<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Make + std::fmt::Debug,
    T: for<'a> Serialize<TextSerializer<&'a mut String>, Log> + Serialize<RecSer, Log> + Serialize<TextSerializer<Utf8Writer<Vec<u8>>>, Log>,
    T: for<'a, 'b> Serialize<TextSerializer<&'a mut String>, dyn Logger + 'b> + for<'b> Serialize<RecSer, dyn Logger + 'b>,
    T: for<'a> Deserialize<TextDeserializer<&'a str>, Log> + Deserialize<RecDe, Log>,
    T: for<'a> Deserialize<TextDeserializer<MonReader<'a>>, Log> + for<'a> Deserialize<TextDeserializer<Utf8Reader<Chunked<'a>>>, Log>,
    T: for<'a, 'b> Deserialize<TextDeserializer<&'a str>, dyn Logger + 'b> + for<'b> Deserialize<RecDe, dyn Logger + 'b>,
{
    let v = T::make(rng, &mut 0);
    let (want, text, nodes) = write_all(rng, cx, &v)?;
    read_all::<T>(rng, cx, &format!("{:?}", v), &want, &text, &nodes, true)
}

fn proxied(rng: &mut Rng, cx: &mut Cx) -> Result<(), String> {
    let v = w::Px::make(rng, &mut 0);
    let (want, text, nodes) = write_all(rng, cx, &v)?;
    cx.count("proxied", 1);
    read_all::<r::Px>(rng, cx, &format!("{:?}", v), &want, &text, &nodes, false)
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
const CASES: &[F] = &[
    case::<Leaf>,
    case::<Vec<Leaf>>,
    case::<Vec<Vec<Leaf>>>,
    case::<[Leaf; 0]>,
    case::<[Leaf; 1]>,
    case::<[Leaf; 5]>,
    case::<[[Leaf; 2]; 3]>,
    case::<(Leaf, Leaf)>,
    case::<(Leaf, Vec<Leaf>, Leaf)>,
    case::<Option<Leaf>>,
    case::<Option<Option<Option<Leaf>>>>,
    case::<OrNull>,
    case::<Option<OrNull>>,
    case::<Vec<Option<OrNull>>>,
    case::<(Option<Leaf>, Option<Option<Leaf>>)>,
    case::<Vec<Option<Option<Leaf>>>>,
    case::<Hand>,
    case::<In>,
    case::<Vec<In>>,
    case::<Around<Leaf>>,
    case::<Around<Vec<Option<In>>>>,
    case::<Around<(OrNull, Hand, Option<Df>)>>,
    case::<Fl<In>>,
    case::<Fl<Tagged>>,
    case::<Vec<Fl<Df>>>,
    case::<Df>,
    case::<Vec<Df>>,
    case::<En<In>>,
    case::<En<Around<Leaf>>>,
    case::<En<Tagged>>,
    case::<Vec<En<Df>>>,
    case::<Tagged>,
    case::<Around<Around<(En<Hand>, [En<In>; 3])>>>,
    case::<Option<Vec<Around<Df>>>>,
    case::<Fl<Around<En<In>>>>,
    case::<Fl<Around<Option<Fl<In>>>>>,
    proxied,
    proxied,
];
fn all(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    CASES[idx as usize % CASES.len()](rng, cx)
}

const LISTS: &[F] = &[
    case::<Vec<Leaf>>,
    case::<Vec<Option<Option<Leaf>>>>,
    case::<Vec<(Leaf, Leaf)>>,
    case::<Vec<Fl<Df>>>,
    case::<Vec<Vec<Leaf>>>,
    case::<Around<Vec<Option<In>>>>,
    case::<Fl<Around<Leaf>>>,
    case::<(Leaf, Vec<Leaf>, Leaf)>,
    case::<[Leaf; 300]>,
    proxied,
];
/// A list with many items.
fn many(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    MANY.set(gen::length(rng, 70000));
    let r = LISTS[idx as usize % LISTS.len()](rng, cx);
    MANY.set(0);
    cx.count("many", 1);
    r
}

/// The helpers that take a context, one by one, on hand-made documents.
fn helpers(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = rng.range(1, 5) as u32;
    let mut out = String::new();
    let mut log = Log::new(None);
    let mut s = TextSerializer::new(TextSerializerConfig { indent: None }, &mut out);
    let mut want = vec![];
    let r: Result<(), std::convert::Infallible> = quiet(|| {
        Value::with(&mut s, |v| {
            let mut o = v.into_object()?;
            o.entry("first")?.put_using(&Leaf(1), &mut *log)?;
            for (i, k) in ["x", "y", "hand1", "hand2"].iter().enumerate() {
                o.entry(k)?.put_using(&Leaf(2 + i as u32), &mut *log)?;
            }
            let mut l = o.entry("list")?.into_list_streaming()?;
            for i in 0..n {
                l.push()?.put_using(&Leaf(6 + i), &mut *log)?;
            }
            l.close()?;
            let mut st = o.entry("struct")?.into_struct(Some("S"))?;
            st.inline_put_using(&Hand(Leaf(20), Leaf(21)), &mut *log)?;
            st.field("f")?.put_using(&Leaf(22), &mut *log)?;
            st.close()?;
            o.close()
        })
    })?;
    r.unwrap();
    s.close();
    want.extend(1..=5 + n);
    want.extend(20..=22);
    judge(&log, &want, &|| format!("writing {}", out))?;
    let mut log = Log::new(None);
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), MonReader::new(&out)).map_err(|e| emsg(&e))?;
    let mut want = vec![];
    quiet(|| -> Result<(), DeserializeError<usize>> {
        Value::with(&mut d, |v| {
            let mut o = v.into_object()?;
            let _: Leaf = o.entry("first")?.get_using(&mut *log)?;
            want.push(1);
            let swap = rng.bool();
            if swap {
                let _: Hand = o.inline_using(&mut *log)?;
                want.extend([4, 5]);
            }
            let _: In = o.inline_using(&mut *log)?;
            want.extend([2, 3]);
            if !swap {
                let _: Hand = o.inline_using(&mut *log)?;
                want.extend([4, 5]);
            }
            let mut l = o.entry("list")?.into_list()?;
            let mut i = 0;
            while let Some(x) = l.next()? {
                let _: Leaf = x.get_using(&mut *log)?;
                want.push(6 + i);
                i += 1;
            }
            let mut st = o.entry("struct")?.into_struct(Some("S"))?;
            if swap {
                let _: Leaf = st.field("f")?.get_using(&mut *log)?;
                want.push(22);
            }
            let _: Hand = st.inline_get_using(&mut *log)?;
            want.extend([20, 21]);
            if !swap {
                let _: Leaf = st.field("f")?.get_using(&mut *log)?;
                want.push(22);
            }
            st.close()?;
            o.close()
        })
    })?
    .map_err(|e| format!("{}: {}", out, emsg(&e)))?;
    judge(&log, &want, &|| format!("reading {}", out))?;
    cx.count("helpers", 1);
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C22",
        level: "exploration",
        rule: "random values of 37 nestings (options, tuples, arrays, lists, generic, flattened, transparent, tagged, defaulted, proxied, hand-written, nullable) over leaves that log themselves, with identity of the context object, in the context; written and read through every entry point with a context, sized and unsized context types, JSON in varied forms (permuted, as arrays, defaults left out) and two recording backends; the log must list exactly the leaves in declared order, up to a leaf that fails; lists of up to 70000 items; distinct by value",
        assumptions: &["the order in which structs declare their fields is the expected order, whatever the order in the document"],
        phases: vec![
            Phase { name: "all", quick: 1750000, thorough: 0, f: all },
            Phase { name: "helpers", quick: 5_000, thorough: 20_000, f: helpers },
            Phase { name: "many", quick: 120, thorough: 2400, f: many },
        ],
        floors: &[("written", 1000), ("recorded", 2000), ("replayed", 2000), ("read", 3000), ("failed", 200), ("leaves", 3000), ("proxied", 50), ("helpers", 50), ("many", 10)],
        hang_cpu_s: 30,
    });
}
