//! C16: in-order reading and writing is streaming.
use serdere::*;
use serdere_json::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io;
use std::rc::Rc;
use vh::gen::{doc_text, DocOpts, Style, V};
use vh::reader::MonReader;
use vh::rng::hash_bytes;
use vh::run::{harness_error, show};
use vh::types::*;
use vh::walk::{emsg, walk, walk_doc, Walk};
use vh::*;

// ---------------------------------------------------------------- live memory

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// Counts the bytes each thread has allocated and not freed.
struct Counting;
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Watches the peak of live memory while items go by.
struct Mem {
    n: usize,
    base: isize,
    /// The peak at the last item: what comes later may be memory of the check itself.
    last: Option<isize>,
}
impl Mem {
    fn new() -> Mem {
        Mem { n: 0, base: 0, last: None }
    }
    /// To be called after each item, out of `of`.
    fn item(&mut self, of: usize) {
        self.n += 1;
        if self.n == of / 4 {
            self.base = PEAK.with(|p| p.get());
        }
        if self.n == of {
            self.last = Some(PEAK.with(|p| p.get()));
        }
    }
    fn start(&mut self) -> isize {
        let l = LIVE.with(|l| l.get());
        PEAK.with(|p| p.set(l));
        l
    }
    fn growth(&self) -> isize {
        self.last.unwrap_or_else(|| harness_error("not all items were seen")) - self.base
    }
}

const SLACK: isize = 2048;

// ---------------------------------------------------------------- look-ahead

/// The offset after whitespace and comments starting at `i`.
fn ws(text: &str, mut i: usize, comments: bool) -> usize {
    let b = text.as_bytes();
    loop {
        while i < b.len() && b" \t\r\n".contains(&b[i]) {
            i += 1;
        }
        if comments && b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if comments && b[i..].starts_with(b"/*") {
            i += text[i + 2..].find("*/").unwrap_or_else(|| harness_error("comment")) + 4;
        } else {
            return i;
        }
    }
}

/// How far input may be consumed once the value that ends at `end` is delivered: the separator and
/// whitespace leading to the next item, or the bracket that ends the container.
fn limit(text: &str, end: usize, comments: bool) -> usize {
    let mut i = ws(text, end, comments);
    match text.as_bytes().get(i) {
        Some(b',') => i = ws(text, i + 1, comments),
        Some(b']' | b'}') => i += 1,
        _ => (),
    }
    i
}

/// A byte source that counts what was taken from it.
struct Counted<'a> {
    data: &'a [u8],
    taken: Rc<Cell<usize>>,
}
impl io::Read for Counted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let at = self.taken.get();
        let n = buf.len().min(self.data.len() - at);
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.taken.set(at + n);
        Ok(n)
    }
}

fn opts(rng: &mut Rng) -> DocOpts {
    DocOpts {
        max_nodes: *rng.pick(&[4, 10, 30, 80]),
        max_depth: *rng.pick(&[2, 4, 8, 20]),
        dup_keys: *rng.pick(&[0, 0, 10]),
        unique_nums: rng.bool(),
        objecty: rng.bool(),
    }
}

fn walked<R: TextReader>(rng: &mut Rng, r: R, pos: &Cell<usize>, ahead: usize, text: &str, tree: &JNode, comments: bool, cx: &mut Cx) -> Result<(), String> {
    let at = |_: &R::Position, _: usize| true;
    let n = Cell::new(0u64);
    let exact = Cell::new(0u64);
    let after = |v: &JNode| {
        n.set(n.get() + 1);
        let lim = limit(text, v.end, comments);
        if pos.get() == v.end + ahead {
            exact.set(exact.get() + 1);
        }
        ensure!(
            pos.get() <= (lim + ahead).min(text.len()),
            "when the value {} is delivered, input is consumed up to byte {} but may be only up to {}",
            show(&text[v.start..v.end]),
            pos.get(),
            lim
        );
        Ok(())
    };
    let mut w = Walk::new(rng.fork(), &at);
    w.skip = *rng.pick(&[0, 5, 30]);
    w.probe = false;
    w.in_order = true;
    w.after = Some(&after);
    let r = walk_doc(&mut w, r, comments, tree);
    cx.count("values", n.get());
    cx.count("exact", exact.get());
    cx.distinct(hash_bytes(w.trace.as_bytes()) ^ hash_bytes(text.as_bytes()).rotate_left(17));
    cx.sample(|| format!("{} walked as {}", show(text), w.trace));
    r.map_err(|e| format!("{}\n  document: {}\n  walk: {}", e, show(text), w.trace))
}

/// Documents walked in document order.
fn ahead(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let comments = rng.chance(1, 4);
    let st = Style::random(rng, comments);
    let o = opts(rng);
    let (text, tree) = doc_text(rng, &o, &st);
    if rng.bool() {
        let r = MonReader::new(&text);
        let pos = r.pos.clone();
        walked(rng, r, &pos, 0, &text, &tree, comments, cx)
    } else {
        let taken = Rc::new(Cell::new(0));
        let r = Utf8Reader::new(Counted { data: text.as_bytes(), taken: taken.clone() }).map_err(|e| e.to_string())?;
        cx.count("bytes", 1);
        // One decoded character is held
        walked(rng, r, &taken, 4, &text, &tree, comments, cx)
    }
}

/// The same at the level of single calls: opening, keys, characters of strings.
fn calls(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let comments = rng.chance(1, 4);
    let st = Style::random(rng, comments);
    let o = DocOpts { dup_keys: 0, ..opts(rng) };
    let (text, tree) = doc_text(rng, &o, &st);
    let r = MonReader::new(&text);
    let pos = r.pos.clone();
    let cfg = if comments { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    let mut d = TextDeserializer::new(cfg, r).map_err(|e| emsg(&e))?;
    let mut c = Calls { text: &text, pos: &pos, comments, rng: rng.fork(), n: 0, chars: 0 };
    let r = c.to("creation", ws(&text, 0, comments)).and_then(|_| c.value(&mut d, &tree));
    cx.count("calls", c.n);
    cx.count("chars", c.chars);
    r.map_err(|e| format!("{}\n  document: {}", e, show(&text)))
}

struct Calls<'a> {
    text: &'a str,
    pos: &'a Cell<usize>,
    comments: bool,
    rng: Rng,
    n: u64,
    chars: u64,
}
impl Calls<'_> {
    fn to(&mut self, what: &str, lim: usize) -> Result<(), String> {
        self.n += 1;
        ensure!(self.pos.get() <= lim, "after {} input is consumed up to byte {} but may be only up to {}", what, self.pos.get(), lim);
        Ok(())
    }
    fn value<D: JsonDeserializer<Error = DeserializeError<usize>>>(&mut self, d: &mut D, n: &JNode) -> Result<(), String> {
        let lim = limit(self.text, n.end, self.comments);
        d.peek_value_type();
        self.to("peek_value_type", n.start)?;
        if self.rng.chance(1, 4) && !matches!(n.kind, JKind::Null) {
            d.check_null().map_err(|e| emsg(&e))?;
            self.to("check_null of a value that is not null", n.start)?;
        }
        match &n.kind {
            JKind::Str(s) => {
                d.open_str().map_err(|e| emsg(&e))?;
                self.to("open_str", n.start + 1)?;
                self.string(d, s, n.start, lim)?;
            }
            JKind::Arr(xs) => {
                d.open_list().map_err(|e| emsg(&e))?;
                self.to("open_list", xs.first().map_or(lim, |x| x.start))?;
                let mut prev = false;
                for x in xs {
                    let _ = prev;
                    prev = true;
                    if self.rng.bool() {
                        d.push_item().map_err(|e| emsg(&e))?;
                    } else {
                        ensure!(d.next_item().map_err(|e| emsg(&e))?, "item missing");
                    }
                    self.to("next item", x.start)?;
                    self.value(d, x)?;
                }
                d.close_list().map_err(|e| emsg(&e))?;
                self.to("close_list", lim)?;
            }
            JKind::Obj(es) => {
                d.open_object().map_err(|e| emsg(&e))?;
                self.to("open_object", es.first().map_or(lim, |e| e.key_start))?;
                for e in es {
                    match self.rng.below(4) {
                        0 => d.push_entry(&e.key).map_err(|e| emsg(&e))?,
                        1 => ensure!(d.try_push_entry(&e.key).map_err(|e| emsg(&e))?, "entry missing"),
                        _ => {
                            ensure!(d.next_entry().map_err(|e| emsg(&e))?, "entry missing");
                            self.to("next_entry", e.key_start + 1)?;
                            self.string(d, &e.key, e.key_start, e.value.start)?;
                        }
                    }
                    self.to("getting the value of an entry", e.value.start)?;
                    self.value(d, &e.value)?;
                }
                d.close_object().map_err(|e| emsg(&e))?;
                self.to("close_object", lim)?;
            }
            JKind::Null => d.pop_null().map_err(|e| emsg(&e))?,
            JKind::Bool(_) => drop(d.get_bool().map_err(|e| emsg(&e))?),
            JKind::Num(_) if self.rng.bool() => drop(d.get_f64().map_err(|e| emsg(&e))?),
            _ => d.skip_value().map_err(|e| emsg(&e))?,
        }
        self.to("a value", lim)
    }
    /// Reads an opened string in pieces.
    fn string<D: Deserializer<Error = DeserializeError<usize>>>(&mut self, d: &mut D, s: &str, start: usize, end: usize) -> Result<(), String> {
        // Offsets after each character
        let mut offs = vec![];
        let raw: Vec<(usize, char)> = self.text[start + 1..].char_indices().map(|(i, c)| (start + 1 + i, c)).collect();
        let mut i = 0;
        for c in s.chars() {
            for _ in 0..if c >= '\u{10000}' && raw[i].1 == '\\' { 2 } else { 1 } {
                i += if raw[i].1 != '\\' {
                    1
                } else if raw[i + 1].1 == 'u' {
                    6
                } else {
                    2
                };
            }
            offs.push(raw[i].0);
        }
        let k = if self.rng.bool() { offs.len() } else { self.rng.below(offs.len() + 1) };
        for o in &offs[..k] {
            ensure!(d.next_char().map_err(|e| emsg(&e))?.is_some(), "character missing");
            self.chars += 1;
            self.to("next_char", *o)?;
        }
        match self.rng.below(4) {
            0 if k == offs.len() => d.close_str().map_err(|e| emsg(&e))?,
            1 => drop(d.flush_str().map_err(|e| emsg(&e))?),
            2 if k == offs.len() => ensure!(d.next_char().map_err(|e| emsg(&e))?.is_none(), "extra character"),
            _ => d.skip_str().map_err(|e| emsg(&e))?,
        }
        self.to("a string", end)
    }
}

// ---------------------------------------------------------------- typed reading

#[derive(Default)]
struct Log {
    /// Input consumed so far, or output written so far.
    pos: Rc<Cell<usize>>,
    seen: Vec<(u32, usize)>,
}

/// A leaf that records how far input was consumed when it was read.
#[derive(Debug, PartialEq)]
struct Probe(u32);
impl<D: Deserializer + ?Sized> Deserialize<D, Log> for Probe {
    const NULLABLE: bool = false;
    fn deserialize(v: Value<D>, ctx: &mut Log) -> Result<Self, D::Error> {
        let x = v.get_u32()?;
        ctx.seen.push((x, ctx.pos.get()));
        Ok(Probe(x))
    }
}
impl<S: Serializer + ?Sized> Serialize<S, Log> for Probe {
    const NULLABLE: bool = false;
    fn serialize(&self, v: Value<S>, ctx: &mut Log) -> Result<(), S::Error> {
        v.put_u32(self.0)?;
        ctx.seen.push((self.0, ctx.pos.get()));
        Ok(())
    }
}
impl Default for Probe {
    fn default() -> Self {
        Probe(7)
    }
}

#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct In { x: Probe, y: Option<Probe> }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Around<T> { head: Probe, t: T, tail: Probe }
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Fl {
    a: Probe,
    #[serde(flatten)]
    i: In,
    b: Vec<Probe>,
}
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Df {
    #[serde(default)]
    a: Probe,
    b: Probe,
    #[serde(default)]
    c: Probe,
}
#[derive(Debug, PartialEq, Serialize, Deserialize)]
enum En {
    A { x: Probe, y: (Probe, Probe) },
    #[serde(transparent)]
    B(In),
    C,
}

trait Make: Sized {
    fn make(r: &mut Rng, n: &mut u32) -> Self;
}
impl Make for Probe {
    fn make(_: &mut Rng, n: &mut u32) -> Self {
        *n += 1;
        Probe(1000 + *n)
    }
}
impl<T: Make> Make for Option<T> {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        r.chance(2, 3).then(|| T::make(r, n))
    }
}
impl<T: Make> Make for Vec<T> {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        (0..r.below(5)).map(|_| T::make(r, n)).collect()
    }
}
impl<T: Make> Make for [T; 3] {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        [T::make(r, n), T::make(r, n), T::make(r, n)]
    }
}
impl<T: Make, U: Make> Make for (T, U) {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        (T::make(r, n), U::make(r, n))
    }
}
impl Make for In {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        In { x: Make::make(r, n), y: Make::make(r, n) }
    }
}
impl<T: Make> Make for Around<T> {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        Around { head: Make::make(r, n), t: Make::make(r, n), tail: Make::make(r, n) }
    }
}
impl Make for Fl {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        Fl { a: Make::make(r, n), i: Make::make(r, n), b: Make::make(r, n) }
    }
}
impl Make for Df {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        Df { a: Make::make(r, n), b: Make::make(r, n), c: Make::make(r, n) }
    }
}
impl Make for En {
    fn make(r: &mut Rng, n: &mut u32) -> Self {
        match r.below(3) {
            0 => En::A { x: Make::make(r, n), y: Make::make(r, n) },
            1 => En::B(Make::make(r, n)),
            _ => En::C,
        }
    }
}

/// Adds whitespace between the tokens of a text.
fn spread(rng: &mut Rng, text: &str) -> String {
    let mut out = String::new();
    for (s, e) in refjson::tokens(text) {
        if rng.chance(1, 3) {
            out.push_str(*rng.pick(&[" ", "\n", "\t  ", "\r\n"]));
        }
        out.push_str(&text[s..e]);
    }
    out
}

/// The numbers of a document, with the ends of their literals, in document order.
fn numbers(t: &JNode) -> Vec<(u32, usize)> {
    let mut out = vec![];
    for n in t.all() {
        if let JKind::Num(s) = &n.kind {
            out.push((s.parse().unwrap_or_else(|_| harness_error("number")), n.end));
        }
    }
    out
}

/// A writer that counts.
struct CountingWriter<'a>(&'a mut String, Rc<Cell<usize>>);
impl TextWriter for CountingWriter<'_> {
    type Error = std::convert::Infallible;
    fn write_char(&mut self, c: char) -> Result<(), Self::Error> {
        self.0.push(c);
        self.1.set(self.0.len());
        Ok(())
    }
}

struct Bytes(Rc<Cell<usize>>);
impl io::Write for Bytes {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.set(self.0.get() + b.len());
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Make + std::fmt::Debug + PartialEq,
    T: for<'a> Serialize<TextSerializer<CountingWriter<'a>>, Log> + Serialize<TextSerializer<Utf8Writer<Bytes>>, Log>,
    T: for<'a> Deserialize<TextDeserializer<MonReader<'a>>, Log> + for<'a> Deserialize<TextDeserializer<Utf8Reader<Counted<'a>>>, Log>,
{
    let name = std::any::type_name::<T>();
    let v = T::make(rng, &mut 0);
    let indent = *rng.pick(&[None, Some("  "), Some("\t")]);
    // Writing
    let mut text = String::new();
    let mut log = Log::default();
    {
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, CountingWriter(&mut text, log.pos.clone()));
        Value::with(&mut s, |x| v.serialize(x, &mut log)).unwrap();
        s.close();
    }
    let tree = refjson::parse(&text, false).map_err(|e| format!("{}: {:?} written as {}: {:?}", name, v, show(&text), e))?;
    let nums = numbers(&tree);
    ensure!(log.seen.len() == nums.len(), "{}: {} leaves but {} numbers in {}", name, log.seen.len(), nums.len(), show(&text));
    for (a, b) in log.seen.iter().zip(&nums) {
        ensure!(a.0 == b.0, "{}: leaf {} written as {}", name, a.0, b.0);
        ensure!(a.1 >= b.1, "{}: when the leaf {} was written, only {} bytes of {} had been passed to the sink", name, a.0, a.1, show(&text));
        cx.count("leaves_written", 1);
    }
    let mut log2 = Log::default();
    {
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(Bytes(log2.pos.clone())));
        Value::with(&mut s, |x| v.serialize(x, &mut log2)).map_err(|e| e.to_string())?;
        s.close();
    }
    ensure!(log2.seen == log.seen, "{}: output arrives at a byte sink at {:?}, at a text sink at {:?}", name, log2.seen, log.seen);
    // Reading
    let text = if rng.bool() { spread(rng, &text) } else { text };
    let tree = refjson::parse(&text, false).unwrap_or_else(|_| harness_error("spread"));
    let nums = numbers(&tree);
    let mut log = Log::default();
    let bytes = rng.bool();
    let got: T = if bytes {
        let r = Utf8Reader::new(Counted { data: text.as_bytes(), taken: log.pos.clone() }).unwrap();
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r).map_err(|e| emsg(&e))?;
        Value::with(&mut d, |x| T::deserialize(x, &mut log)).map_err(|e| emsg(&e))?
    } else {
        let r = MonReader { pos: log.pos.clone(), ..MonReader::new(&text) };
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r).map_err(|e| emsg(&e))?;
        Value::with(&mut d, |x| T::deserialize(x, &mut log)).map_err(|e| emsg(&e))?
    };
    ensure!(got == v, "{}: {} read as {:?}", name, show(&text), got);
    ensure!(log.seen.len() == nums.len(), "{}: {} leaves but {} numbers in {}", name, log.seen.len(), nums.len(), show(&text));
    for (a, b) in log.seen.iter().zip(&nums) {
        let lim = (limit(&text, b.1, false) + if bytes { 4 } else { 0 }).min(text.len());
        ensure!(a.0 == b.0, "{}: leaf {} read as {}", name, b.0, a.0);
        ensure!(a.1 <= lim, "{}: when the leaf {} was read, {} bytes of {} had been consumed, but may be only {}", name, a.0, a.1, show(&text), lim);
        cx.count("leaves_read", 1);
    }
    cx.distinct(hash_bytes(text.as_bytes()));
    Ok(())
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
const TYPED: &[F] = &[
    typed::<Probe>,
    typed::<Vec<Probe>>,
    typed::<Vec<Vec<Probe>>>,
    typed::<[Probe; 3]>,
    typed::<(Probe, Vec<Probe>)>,
    typed::<(Option<Probe>, Option<Option<Probe>>)>,
    typed::<Vec<Option<Option<Probe>>>>,
    typed::<In>,
    typed::<Vec<In>>,
    typed::<Around<Vec<Option<In>>>>,
    typed::<Fl>,
    typed::<Vec<Fl>>,
    typed::<Df>,
    typed::<Vec<Df>>,
    typed::<En>,
    typed::<Vec<En>>,
    typed::<Around<Around<(En, [En; 3])>>>,
    typed::<Option<Vec<Around<Df>>>>,
];
fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TYPED[idx as usize % TYPED.len()](rng, cx)
}

// ---------------------------------------------------------------- writing by calls

fn writing(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = opts(rng);
    let v = vh::gen::doc(rng, &o);
    let indent = *rng.pick(&[None, Some("  "), Some("\t")]);
    let pos = Rc::new(Cell::new(0));
    let mut text = String::new();
    let mut log = vec![];
    {
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, CountingWriter(&mut text, pos.clone()));
        put(rng, &mut s, &v, &pos, &mut log).unwrap();
        s.close();
    }
    let tree = refjson::parse(&text, false).map_err(|e| format!("{:?} written as {}: {:?}", v, show(&text), e))?;
    let mut ends = vec![];
    fn post(n: &JNode, out: &mut Vec<usize>) {
        match &n.kind {
            JKind::Arr(xs) => xs.iter().for_each(|x| post(x, out)),
            JKind::Obj(es) => es.iter().for_each(|e| post(&e.value, out)),
            JKind::Str(_) => out.push(n.start + 1),
            _ => (),
        }
        out.push(n.end);
    }
    post(&tree, &mut ends);
    ensure!(ends.len() == log.len(), "{:?} written as {}", v, show(&text));
    for (e, l) in ends.iter().zip(&log) {
        ensure!(l >= e, "{:?}: when the value that ends at byte {} was written, only {} bytes of {} had been passed to the sink", v, e, l, show(&text));
        cx.count("values_written", 1);
    }
    cx.distinct(hash_bytes(text.as_bytes()));
    Ok(())
}

fn put<S: JsonSerializer>(rng: &mut Rng, s: &mut S, v: &V, pos: &Cell<usize>, log: &mut Vec<usize>) -> Result<(), S::Error> {
    match v {
        V::Null => s.pop_null()?,
        V::Bool(b) => s.put_bool(*b)?,
        // Written as null; only the place matters
        V::Num(_) => s.put_u64(rng.u64() >> rng.below(64))?,
        V::Str(x) => {
            s.open_str()?;
            log.push(pos.get());
            if rng.bool() {
                s.append_str(x)?;
            } else {
                x.chars().try_for_each(|c| s.append_char(c))?;
            }
            s.close_str()?;
        }
        V::Arr(xs) => {
            if rng.bool() {
                s.open_list_streaming()?;
            } else {
                s.open_list_sized(xs.len())?;
            }
            for x in xs {
                s.push_item()?;
                put(rng, s, x, pos, log)?;
            }
            s.close_list()?;
        }
        V::Obj(es) => {
            s.open_object()?;
            for (k, x) in es {
                if rng.bool() {
                    s.push_entry(k)?;
                } else {
                    s.add_entry()?;
                    s.append_str(k)?;
                    s.close_str()?;
                }
                put(rng, s, x, pos, log)?;
            }
            s.close_object()?;
        }
    }
    log.push(pos.get());
    Ok(())
}

// ---------------------------------------------------------------- long sequences

/// A text made of a head, many items taken in turn from templates, and a tail, made as it is read.
struct Long<'a> {
    head: &'a str,
    items: &'a [String],
    sep: &'a str,
    n: usize,
    tail: &'a str,
    /// The part: 0 head, 1 item, 2 separator, 3 tail.
    part: u8,
    done: usize,
    cur: std::str::Chars<'a>,
    /// Numbered items: `#` stands for the number.
    digits: ([u8; 20], usize),
    at: u64,
    next: Option<char>,
}
impl<'a> Long<'a> {
    fn new(head: &'a str, items: &'a [String], sep: &'a str, n: usize, tail: &'a str) -> Self {
        let mut l = Long { head, items, sep, n, tail, part: 0, done: 0, cur: head.chars(), digits: ([0; 20], 0), at: 0, next: None };
        let _ = l.head;
        l.next = l.make();
        l
    }
    fn make(&mut self) -> Option<char> {
        loop {
            if self.digits.1 > 0 {
                self.digits.1 -= 1;
                return Some(self.digits.0[self.digits.1] as char);
            }
            match self.cur.next() {
                Some('#') => {
                    let mut x = self.done;
                    loop {
                        self.digits.0[self.digits.1] = b'0' + (x % 10) as u8;
                        self.digits.1 += 1;
                        x /= 10;
                        if x == 0 {
                            break;
                        }
                    }
                }
                Some(c) => return Some(c),
                None => {
                    let s = match self.part {
                        0 | 2 if self.n > 0 => {
                            self.part = 1;
                            &self.items[self.done % self.items.len()]
                        }
                        1 => {
                            self.done += 1;
                            if self.done < self.n {
                                self.part = 2;
                                self.sep
                            } else {
                                self.part = 3;
                                self.tail
                            }
                        }
                        0 => {
                            self.part = 3;
                            self.tail
                        }
                        _ => return None,
                    };
                    self.cur = s.chars();
                }
            }
        }
    }
}
impl TextReader for Long<'_> {
    type Position = u64;
    fn next(&mut self) -> Option<char> {
        let c = self.next?;
        self.at += 1;
        self.next = self.make();
        Some(c)
    }
    fn peek(&self) -> Option<char> {
        self.next
    }
    fn position(&self) -> u64 {
        self.at
    }
}

fn count(thorough: bool) -> usize {
    if thorough {
        20000
    } else {
        4000
    }
}

fn grew(what: &str, m: &Mem, n: usize, items: &[String]) -> Result<(), String> {
    ensure!(m.n == n, "harness: {} of {} items", m.n, n);
    ensure!(
        m.growth() <= SLACK,
        "{}: live memory grew by {} bytes between item {} and item {} of the sequence of {}",
        what,
        m.growth(),
        n / 4,
        n,
        show(&items.join(" | "))
    );
    Ok(())
}

/// Long arrays and objects, read item by item.
fn long(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = count(cx.thorough);
    let object = rng.bool();
    let depth = *rng.pick(&[0, 0, 1, 3, 20]);
    let comments = rng.chance(1, 4);
    let o = DocOpts { max_nodes: *rng.pick(&[1, 3, 8]), max_depth: 3, dup_keys: 0, unique_nums: true, objecty: true };
    let st = Style { ws: *rng.pick(&[0, 20]), comments: if comments { 10 } else { 0 }, escape: *rng.pick(&[0, 10]) };
    let mut values = vec![];
    while values.len() < 3 {
        let (t, tree) = doc_text(rng, &o, &st);
        if t.len() < 120 && !t.contains('#') {
            values.push((t, tree));
        }
    }
    // Keys: numbered or all alike
    let same_key = rng.bool();
    let key = if same_key { "k" } else { "key #" };
    let items: Vec<String> =
        values.iter().map(|(t, _)| if object { format!("\"{}\":{}", key, t) } else { t.clone() }).collect();
    let wraps: Vec<bool> = (0..depth).map(|_| rng.bool()).collect();
    let mut head = String::new();
    let mut tail = String::new();
    for w in &wraps {
        head.push_str(if *w { "{\"first\": 1, \"w\":" } else { "[1," });
        tail.insert(0, if *w { '}' } else { ']' });
    }
    head.push_str(if object { "{" } else { "[" });
    tail.insert(0, if object { '}' } else { ']' });
    let cfg = if comments { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
    // Which way to go through
    let mode = rng.below(if object { 5 } else { 4 });
    let at = |_: &u64, _: usize| true;
    let mut w = Walk::new(rng.fork(), &at);
    w.probe = false;
    w.in_order = true;
    w.no_absent = true;
    w.trace.reserve(5000);
    let mut d = TextDeserializer::new(cfg, Long::new(&head, &items, ",", n, &tail)).map_err(|e| emsg(&e))?;
    let mut keys = String::new();
    let mut m = Mem::new();
    let what = format!("{} of {} values, depth {}, mode {}", if object { "object" } else { "array" }, n, depth, mode);
    let mut go = || -> Result<(), String> {
        for obj in &wraps {
            if *obj {
                d.open_object().map_err(|e| emsg(&e))?;
                d.push_entry("first").map_err(|e| emsg(&e))?;
                d.get_u8().map_err(|e| emsg(&e))?;
                d.push_entry("w").map_err(|e| emsg(&e))?;
            } else {
                d.open_list().map_err(|e| emsg(&e))?;
                d.push_item().map_err(|e| emsg(&e))?;
                d.get_u8().map_err(|e| emsg(&e))?;
                d.push_item().map_err(|e| emsg(&e))?;
            }
        }
        if object {
            d.open_object().map_err(|e| emsg(&e))?;
        } else {
            d.open_list().map_err(|e| emsg(&e))?;
        }
        m.start();
        for i in 0..n {
            let node = &values[i % values.len()].1;
            w.trace.clear();
            w.obs.clear();
            use std::fmt::Write;
            keys.clear();
            if same_key {
                keys.push('k');
            } else {
                write!(keys, "key {}", i).unwrap();
            }
            match mode {
                _ if !object => {
                    if mode == 0 {
                        d.push_item().map_err(|e| emsg(&e))?;
                    } else {
                        ensure!(d.next_item().map_err(|e| emsg(&e))?, "item {} missing", i);
                    }
                    if mode == 1 {
                        d.skip_value().map_err(|e| emsg(&e))?;
                    } else {
                        walk(&mut w, &mut d, node)?;
                    }
                }
                0 => {
                    ensure!(d.try_push_entry(&keys).map_err(|e| emsg(&e))?, "entry {} missing", i);
                    walk(&mut w, &mut d, node)?;
                }
                1 => {
                    d.push_entry(&keys).map_err(|e| emsg(&e))?;
                    d.skip_value().map_err(|e| emsg(&e))?;
                }
                2 => {
                    ensure!(d.next_entry().map_err(|e| emsg(&e))?, "entry {} missing", i);
                    d.skip_str().map_err(|e| emsg(&e))?;
                    walk(&mut w, &mut d, node)?;
                }
                _ => {
                    ensure!(d.next_entry().map_err(|e| emsg(&e))?, "entry {} missing", i);
                    let k = d.flush_str().map_err(|e| emsg(&e))?;
                    ensure!(k == keys, "key {:?} read as {:?}", keys, k);
                    walk(&mut w, &mut d, node)?;
                }
            }
            m.item(n);
        }
        if object {
            d.close_object().map_err(|e| emsg(&e))?;
        } else {
            d.close_list().map_err(|e| emsg(&e))?;
        }
        Ok(())
    };
    go().map_err(|e| format!("{}: {}\n  items: {}", what, e, show(&items.join(" | "))))?;
    cx.count("items", n as u64);
    cx.count("long", 1);
    cx.distinct(hash_bytes(what.as_bytes()) ^ hash_bytes(items.join(",").as_bytes()));
    cx.sample(|| format!("{}: {}", what, items.join(" | ")));
    grew(&what, &m, n, &items)
}

/// A list read to its end without being kept.
struct Discard<T>(usize, std::marker::PhantomData<T>);
thread_local!(static WATCH: std::cell::RefCell<Mem> = std::cell::RefCell::new(Mem::new()));
impl<D: Deserializer + ?Sized, T: Deserialize<D>> Deserialize<D> for Discard<T> {
    const NULLABLE: bool = false;
    fn deserialize(v: Value<D>, _: &mut ()) -> Result<Self, D::Error> {
        let mut l = v.into_list()?;
        let mut n = 0;
        WATCH.with(|w| *w.borrow_mut() = Mem::new());
        WATCH.with(|w| w.borrow_mut().start());
        while let Some(x) = l.next()? {
            let x: T = x.get()?;
            drop(x);
            n += 1;
            WATCH.with(|w| w.borrow_mut().item(TYPED_N));
        }
        Ok(Discard(n, std::marker::PhantomData))
    }
}
const TYPED_N: usize = 3000;

/// Long lists of typed values, written by the library, read one by one.
fn long_typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>> + Serialize<TextSerializer<Null>> + for<'a> Deserialize<TextDeserializer<Long<'a>>>,
{
    let name = std::any::type_name::<T>();
    let mut items: Vec<String> = vec![];
    let mut values = vec![];
    for _ in 0..200 {
        let v = T::gen(rng);
        let t = to_str(&v);
        if t.len() < 400 && !t.contains('#') {
            items.push(t);
            values.push(v);
            if items.len() == 4 {
                break;
            }
        }
    }
    if items.is_empty() {
        return Ok(());
    }
    let d: Discard<T> = {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), Long::new("[", &items, ",", TYPED_N, "]")).map_err(|e| emsg(&e))?;
        Value::with(&mut d, |v| v.get()).map_err(|e| format!("{}: {}, items {}", name, emsg(&e), show(&items.join(","))))?
    };
    ensure!(d.0 == TYPED_N, "{}: {} items instead of {}", name, d.0, TYPED_N);
    WATCH.with(|w| grew(&format!("reading values of {}", name), &w.borrow(), TYPED_N, &items))?;
    cx.count("typed_read", 1);
    // Writing the same
    let mut m = Mem::new();
    let mut s = TextSerializer::new(TextSerializerConfig { indent: if rng.bool() { Some("  ") } else { None } }, Null(0));
    m.start();
    if rng.bool() {
        s.open_list_streaming().unwrap();
        for i in 0..TYPED_N {
            s.push_item().unwrap();
            Value::with(&mut s, |v| v.put(&values[i % values.len()])).unwrap();
            m.item(TYPED_N);
        }
        s.close_list().unwrap();
    } else {
        use std::fmt::Write;
        let mut k = String::with_capacity(20);
        s.open_object().unwrap();
        for i in 0..TYPED_N {
            k.clear();
            write!(k, "k{}", i).unwrap();
            s.push_entry(&k).unwrap();
            Value::with(&mut s, |v| v.put(&values[i % values.len()])).unwrap();
            m.item(TYPED_N);
        }
        s.close_object().unwrap();
    }
    s.close();
    cx.count("typed_written", 1);
    cx.distinct(hash_bytes(name.as_bytes()) ^ hash_bytes(items.join(",").as_bytes()));
    grew(&format!("writing values of {}", name), &m, TYPED_N, &items)
}

/// A sink that keeps nothing.
struct Null(usize);
impl TextWriter for Null {
    type Error = std::convert::Infallible;
    fn write_char(&mut self, _: char) -> Result<(), Self::Error> {
        self.0 += 1;
        Ok(())
    }
}

macro_rules! table { ($($t:ty),* $(,)?) => { &[$(long_typed::<$t> as F),*] }; }
const LONG_TYPED: &[F] = all_types!(table);
fn long_types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    LONG_TYPED[idx as usize % LONG_TYPED.len()](rng, cx)
}

#[derive(Debug, PartialEq, Deserialize)]
struct Start {
    a: u8,
    b: String,
}
#[derive(Debug, PartialEq, Deserialize)]
struct Nothing {}

/// Single long things: strings in pieces, skipped values, blanks, comments.
fn long_one(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let n = count(cx.thorough) * 5;
    const TAIL: (&str, &str, &str) = ("{\"a\": 1, \"b\": \"x\", ", "\"k#\": {\"q\": [true, null]}, \"\\nk#\": #,", "\"z\": {}}");
    let kinds: [(&str, &str, &str); 14] = [
        ("\"", "ab\u{e9}\\n\\u0041\u{1f600}", "\""),
        ("[", "1,", "1]"),
        ("[", "[[],{\"a\": \"x\\n\"}],", "1]"),
        ("{", "\"k#\": \"v\", ", "\"z\": 1}"),
        ("{", "\"k#\": {\"q\": [true, null]}, ", "\"z\": {}}"),
        ("[1,", " \t\n\r", "2]"),
        ("[1,", "/* x#\n */", "2]"),
        ("[1", " // x#\n", ",2]"),
        ("[\"", "\\\\x#", "\",2]"),
        // Known fields, then many unknown ones
        TAIL,
        TAIL,
        TAIL,
        TAIL,
        TAIL,
    ];
    let k = idx as usize % kinds.len();
    let (head, item, tail) = kinds[k];
    let items = [item.to_string()];
    let mut peak = [0; 2];
    for (i, n) in [n / 4, n].into_iter().enumerate() {
        let cfg = TextDeserializerConfig::permissive();
        let mut d = TextDeserializer::new(cfg, Long::new(head, &items, "", n, tail)).map_err(|e| emsg(&e))?;
        let before = Mem::new().start();
        let mut r = Rng::new(idx);
        match k {
            0 => {
                d.open_str().map_err(|e| emsg(&e))?;
                let mut c = 0;
                if r.bool() {
                    while d.next_char().map_err(|e| emsg(&e))?.is_some() {
                        c += 1;
                    }
                    ensure!(c == n * 6, "{} characters instead of {}", c, n * 6);
                } else {
                    d.skip_str().map_err(|e| emsg(&e))?;
                }
            }
            1..=4 => d.skip_value().map_err(|e| emsg(&e))?,
            5..=7 => {
                d.open_list().map_err(|e| emsg(&e))?;
                for want in 1..=2 {
                    d.push_item().map_err(|e| emsg(&e))?;
                    let got = d.get_u8().map_err(|e| emsg(&e))?;
                    ensure!(got == want, "read {}", got);
                }
                d.close_list().map_err(|e| emsg(&e))?;
            }
            9 => {
                let got: Start = Value::with(&mut d, |v| v.get()).map_err(|e| emsg(&e))?;
                ensure!(got == Start { a: 1, b: "x".into() }, "read {:?}", got);
            }
            10 => {
                Value::with(&mut d, |v| {
                    let mut s = v.into_struct(None)?;
                    let a: u8 = s.field("a")?.get()?;
                    let b: String = s.field("b")?.get()?;
                    if a != 1 || b != "x" {
                        harness_error("fields");
                    }
                    s.close()
                })
                .map_err(|e| emsg(&e))?;
            }
            11 => {
                d.open_object().map_err(|e| emsg(&e))?;
                d.push_entry("a").map_err(|e| emsg(&e))?;
                d.skip_value().map_err(|e| emsg(&e))?;
                d.skip_object().map_err(|e| emsg(&e))?;
            }
            12 => {
                let got: Nothing = Value::with(&mut d, |v| v.get()).map_err(|e| emsg(&e))?;
                ensure!(got == Nothing {}, "read {:?}", got);
            }
            13 => {
                Value::with(&mut d, |v| {
                    let mut o = v.into_object()?;
                    let a: u8 = o.entry("a")?.get()?;
                    if a != 1 {
                        harness_error("entries");
                    }
                    let mut n = 0;
                    while let Some(mut e) = o.next_entry()? {
                        let key = e.key()?.len();
                        if key > 12 {
                            harness_error("key");
                        }
                        n += 1;
                        let (d, done) = e.value()?.into_raw();
                        d.skip_value()?;
                        *done = true;
                    }
                    if n < 100 {
                        harness_error("count");
                    }
                    Ok(())
                })
                .map_err(|e| emsg(&e))?;
            }
            _ => {
                d.open_list().map_err(|e| emsg(&e))?;
                d.push_item().map_err(|e| emsg(&e))?;
                d.skip_value().map_err(|e| emsg(&e))?;
                d.push_item().map_err(|e| emsg(&e))?;
                let got = d.get_u8().map_err(|e| emsg(&e))?;
                ensure!(got == 2, "read {}", got);
                d.close_list().map_err(|e| emsg(&e))?;
            }
        }
        d.close().map_err(|e| emsg(&e))?;
        peak[i] = PEAK.with(|p| p.get()) - before;
    }
    cx.count("long_one", 1);
    cx.distinct(k as u64);
    ensure!(
        peak[1] - peak[0] <= SLACK,
        "peak memory is {} bytes with {} and {} bytes with {} repetitions of {:?} in {:?}..{:?}",
        peak[0],
        n / 4,
        peak[1],
        n,
        item,
        head,
        tail
    );
    // Writing a long string in pieces
    let mut s = TextSerializer::new(TextSerializerConfig { indent: None }, Null(0));
    let mut m = Mem::new();
    m.start();
    s.open_str().unwrap();
    for _ in 0..n {
        if rng.bool() {
            s.append_char('x').unwrap();
        } else {
            s.append_str("\u{1}\"y\u{e9}").unwrap();
        }
        m.item(n);
    }
    s.close_str().unwrap();
    grew("writing a string in pieces", &m, n, &[])
}

fn main() {
    run::main(Check {
        id: "C16",
        level: "exploration",
        rule: "look-ahead: random documents walked in document order by random wrapper and raw call sequences over a counting reader (and over the byte reader with a counting source), input consumed compared after every value, key, opening and character with the limit found in the text; leaves inside derived and built-in types that record input consumed / output written; memory: a counting allocator watches the peak of live bytes while thousands of items stream by (random arrays and objects at random depth, all types, long strings, blanks, comments, skipped values, unknown entries after the known ones), reading and writing; distinct by document and walk",
        assumptions: &["memory growth below 2 KiB between the first quarter of a sequence and its end is not growth"],
        phases: vec![
            Phase { name: "ahead", quick: 900000, thorough: 0, f: ahead },
            Phase { name: "calls", quick: 600000, thorough: 0, f: calls },
            Phase { name: "types", quick: 540000, thorough: 0, f: types },
            Phase { name: "writing", quick: 600000, thorough: 0, f: writing },
            Phase { name: "long", quick: 2000, thorough: 0, f: long },
            Phase { name: "long_types", quick: 450, thorough: 2000, f: long_types },
            Phase { name: "long_one", quick: 56, thorough: 280, f: long_one },
        ],
        floors: &[("values", 1000), ("exact", 200), ("bytes", 20), ("calls", 1000), ("chars", 100), ("leaves_written", 500), ("leaves_read", 500), ("values_written", 500), ("long", 20), ("typed_read", 40), ("typed_written", 40), ("long_one", 9)],
        hang_cpu_s: 60,
    });
}
