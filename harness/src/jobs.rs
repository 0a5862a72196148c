//! Jobs: self-contained uses of the library, each a function of a seed, whose outcome is recorded
//! completely. They are repeated under different circumstances and the records compared.
use crate::free::Free;
use crate::gen::*;
use crate::reader::{str_offset, Chunked, Sink};
use crate::run::quiet;
use crate::types::*;
use crate::walk::emsg;
use crate::{all_types, prog, Rng};
use serdere::*;
use serdere_json::*;
use std::cell::Cell;
use std::fmt::Write as _;

thread_local! {
    static BUSY: Cell<bool> = const { Cell::new(false) };
    /// What the current outermost job may still have run within it: jobs, and time until when.
    static LEFT: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static NOISES: Cell<u64> = const { Cell::new(0) };
    static INNER: std::cell::RefCell<Vec<(u64, String)>> = const { std::cell::RefCell::new(vec![]) };
}

/// Number of jobs that ran within others on this thread.
pub fn noises() -> u64 {
    NOISES.with(|n| n.get())
}

/// Sets what may run within the current job.
pub fn allow_noise() {
    LEFT.with(|l| l.set((if cfg!(miri) { 8 } else { 400 }, crate::run::thread_cpu_ns() + 2_000_000_000)));
}

/// Runs another job in the middle of something.
pub fn noise(seed: u64) {
    let (left, until) = LEFT.with(|l| l.get());
    if left == 0 || BUSY.with(|b| b.replace(true)) {
        return;
    }
    // (a job on a long text has very many places for others)
    let over = left % 16 == 0 && crate::run::thread_cpu_ns() > until;
    LEFT.with(|l| l.set((if over { 0 } else { left - 1 }, until)));
    NOISES.with(|n| n.set(n.get() + 1));
    let l = plain(seed);
    INNER.with(|i| {
        let mut i = i.borrow_mut();
        // A few of them are compared with what they give alone
        let n = NOISES.with(|n| n.get());
        if i.len() < 2 {
            i.push((seed, l));
        } else if n % 16 == 0 {
            i[n as usize / 16 % 2] = (seed, l);
        }
    });
    BUSY.with(|b| b.set(false));
}

/// Some of the jobs that ran within others on this thread since the last call, with their records.
pub fn inner() -> Vec<(u64, String)> {
    INNER.with(|i| std::mem::take(&mut *i.borrow_mut()))
}

/// A reader which has other jobs run in between.
pub struct NoisyReader<R> {
    pub inner: R,
    pub every: u64,
    pub turn: Cell<u64>,
    pub seed: u64,
}

impl<R> NoisyReader<R> {
    fn tick(&self) {
        let t = self.turn.get();
        self.turn.set(t + 1);
        if t % self.every == self.every - 1 {
            noise(self.seed.wrapping_add(t));
        }
    }
}

impl<R: TextReader> TextReader for NoisyReader<R> {
    type Position = R::Position;
    fn next(&mut self) -> Option<char> {
        self.tick();
        self.inner.next()
    }
    fn peek(&self) -> Option<char> {
        self.tick();
        self.inner.peek()
    }
    fn position(&self) -> R::Position {
        self.inner.position()
    }
}

/// A writer which has other jobs run in between.
pub struct NoisyWriter<'a> {
    pub out: &'a mut String,
    pub every: u64,
    pub turn: u64,
    pub seed: u64,
}

impl TextWriter for NoisyWriter<'_> {
    type Error = std::convert::Infallible;
    fn write_char(&mut self, ch: char) -> Result<(), Self::Error> {
        self.turn += 1;
        if self.turn % self.every == 0 {
            noise(self.seed.wrapping_add(self.turn));
        }
        self.out.push(ch);
        Ok(())
    }
}

/// A byte source or sink which has other jobs run in between.
pub struct NoisyIo<T> {
    pub inner: T,
    pub every: u64,
    pub turn: u64,
    pub seed: u64,
}

impl<T> NoisyIo<T> {
    fn new(inner: T, mode: Mode) -> Self {
        let (every, seed) = mode.noise();
        NoisyIo { inner, every, turn: 0, seed }
    }
    fn tick(&mut self) {
        self.turn += 1;
        if self.every > 0 && self.turn % self.every == 0 {
            noise(self.seed.wrapping_add(self.turn));
        }
    }
}

impl<T: std::io::Read> std::io::Read for NoisyIo<T> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.tick();
        self.inner.read(buf)
    }
}

impl<T: std::io::Write> std::io::Write for NoisyIo<T> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.tick();
        self.inner.write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}

thread_local! {
    static USER: Cell<(u64, u64, u64)> = const { Cell::new((0, 0, 0)) };
}

/// A user's type that uses the library itself while it is read or written.
#[derive(Debug, Clone, Default)]
pub struct Noisy<T>(pub T);

fn user() {
    let (every, turn, seed) = USER.with(|u| u.get());
    USER.with(|u| u.set((every, turn + 1, seed)));
    if every > 0 && turn % every == 0 {
        noise(seed.wrapping_add(turn));
    }
}

impl<D: Deserializer + ?Sized, C: ?Sized, T: Deserialize<D, C>> Deserialize<D, C> for Noisy<T> {
    const NULLABLE: bool = T::NULLABLE;
    fn deserialize(value: Value<D>, ctx: &mut C) -> Result<Self, D::Error> {
        user();
        let r = T::deserialize(value, ctx);
        user();
        r.map(Noisy)
    }
}

impl<S: Serializer + ?Sized, C: ?Sized, T: Serialize<S, C>> Serialize<S, C> for Noisy<T> {
    const NULLABLE: bool = T::NULLABLE;
    fn serialize(&self, value: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        user();
        let r = self.0.serialize(value, ctx);
        user();
        r
    }
}

fn config(comments: bool) -> TextDeserializerConfig {
    if comments {
        TextDeserializerConfig::permissive()
    } else {
        TextDeserializerConfig::strict()
    }
}

fn end<P>(log: &mut String, r: Result<(), DeserializeError<P>>, pos: impl FnOnce(&P) -> String) {
    match r {
        Ok(()) => log.push_str(" ok"),
        Err(e) => {
            let _ = write!(log, " {} at {}", emsg(&e), pos(e.position()));
        }
    }
}
fn off(text: &str) -> impl FnOnce(&StrPosition) -> String + '_ {
    move |p| format!("{:?}", str_offset(text, p))
}
fn line(p: &LineColumnPosition) -> String {
    p.to_string()
}

const INDENTS: [Option<&str>; 4] = [None, Some("  "), Some("\t"), Some("")];

/// How a job is run.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Plain,
    /// Other jobs run while this one runs, started by its reader, writer or values.
    Noisy(u64, u64),
}

impl Mode {
    fn noise(self) -> (u64, u64) {
        match self {
            Mode::Plain => (0, 0),
            Mode::Noisy(a, b) => (a, b),
        }
    }
}

/// Another job on the same material, mostly of the same kind.
pub fn relative(seed: u64, other: u64) -> u64 {
    let keep = if other >> 32 & 3 == 0 { 0 } else { KINDS - 1 };
    (seed & !0xFFFF_FFFF) | (other & 0xFFFF_FFFF & !keep) | (seed & keep)
}

type TypedFn = fn(&mut Rng, &mut Rng, Mode, &mut String);

fn typed<T>(data: &mut Rng, rng: &mut Rng, mode: Mode, log: &mut String)
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'s> Deserialize<TextDeserializer<&'s str>> + for<'s> Deserialize<TextDeserializer<Utf8Reader<NoisyIo<Chunked<'s>>>>>,
{
    let v = [T::gen(data), T::gen(data)];
    let indent = *rng.pick(&INDENTS);
    let muts = rng.below(3);
    let text = |noisy: bool| {
        let mut out = String::new();
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, &mut out);
        let [a, b] = &v;
        let r = if noisy {
            Value::with(&mut s, |x| x.put(&(Noisy(RefT(a)), Noisy(RefT(b)))))
        } else {
            Value::with(&mut s, |x| x.put(&(RefT(a), RefT(b))))
        };
        r.unwrap();
        s.close();
        out
    };
    let mut t = text(mode != Mode::Plain);
    let _ = write!(log, "{} ", t);
    for _ in 0..muts {
        t = mutate(rng, &t);
    }
    match mode {
        Mode::Plain => match from_str::<(T, T)>(&t) {
            Ok(v) => {
                let _ = write!(log, "{:?}", v);
            }
            Err(e) => end(log, Err(e), off(&t)),
        },
        Mode::Noisy(..) => match from_str::<(Noisy<T>, Noisy<T>)>(&t) {
            Ok((a, b)) => {
                let _ = write!(log, "{:?}", (a.0, b.0));
            }
            Err(e) => end(log, Err(e), off(&t)),
        },
    }
    match Utf8Reader::new(NoisyIo::new(Chunked::new(t.as_bytes(), vec![3, 1, 7]), mode)) {
        Ok(r) => match mode {
            Mode::Plain => match from_reader::<_, (T, T)>(r) {
                Ok(v) => {
                    let _ = write!(log, "{:?}", v);
                }
                Err(e) => end(log, Err(e), line),
            },
            Mode::Noisy(..) => match from_reader::<_, (Noisy<T>, Noisy<T>)>(r) {
                Ok((a, b)) => {
                    let _ = write!(log, "{:?}", (a.0, b.0));
                }
                Err(e) => end(log, Err(e), line),
            },
        },
        Err(e) => {
            let _ = write!(log, "{}", e);
        }
    }
}

struct RefT<'a, T>(&'a T);
impl<S: Serializer + ?Sized, C: ?Sized, T: Serialize<S, C>> Serialize<S, C> for RefT<'_, T> {
    const NULLABLE: bool = T::NULLABLE;
    fn serialize(&self, value: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        self.0.serialize(value, ctx)
    }
}

macro_rules! table { ($($t:ty),* $(,)?) => { &[$(typed::<$t> as TypedFn),*] }; }
pub const TABLE: &[TypedFn] = all_types!(table);

static NAMES: FixedNameMap<usize, 12> = FixedNameMap::new([
    ("", 0),
    ("a", 1),
    ("ab", 2),
    ("abc", 3),
    ("b", 4),
    ("\u{e9}", 5),
    ("\u{e9}\u{e8}", 6),
    ("name", 7),
    ("names", 8),
    ("nam\u{1f600}", 9),
    ("x", 10),
    ("null", 11),
]);

/// Partly the same names, with other indices.
static OTHERS: FixedNameMap<usize, 8> = FixedNameMap::new([
    ("names", 0),
    ("abc", 1),
    ("\u{e9}", 2),
    ("", 3),
    ("a", 4),
    ("ac", 5),
    ("x", 7),
    ("xx", 8),
]);

/// The record of the job.
pub fn plain(seed: u64) -> String {
    job(seed, Mode::Plain)
}

pub const KINDS: u64 = 8;

pub fn job(seed: u64, mode: Mode) -> String {
    if !BUSY.with(|b| b.get()) {
        allow_noise();
    }
    let mut log = String::new();
    match quiet(|| {
        let mut l = String::new();
        run(seed, mode, &mut l);
        l
    }) {
        Ok(l) => log = l,
        Err(p) => {
            let _ = write!(log, "panic {}", p);
        }
    }
    log
}

fn text(rng: &mut Rng) -> (String, bool) {
    let comments = rng.chance(1, 3);
    let t = if rng.chance(1, 3) {
        hostile(rng)
    } else {
        let o = DocOpts { max_nodes: *rng.pick(&[5, 15, 40]), max_depth: *rng.pick(&[2, 4, 8]), ..Default::default() };
        let st = Style::random(rng, comments);
        let (t, _) = doc_text(rng, &o, &st);
        if rng.chance(1, 3) {
            mutate(rng, &t)
        } else {
            t
        }
    };
    (t, comments)
}

fn run(seed: u64, mode: Mode, log: &mut String) {
    let rng = &mut Rng::new(seed);
    // What is read or written only depends on the upper half of the seed, so that there are other
    // jobs on the same material
    let data = &mut Rng::new(seed >> 32 | 1 << 40);
    let (every, nseed) = mode.noise();
    USER.with(|u| {
        if mode != Mode::Plain {
            u.set((every, 0, nseed))
        }
    });
    match seed % KINDS {
        0 | 1 => {
            let (t, comments) = text(data);
            let mut f = Free::new(rng.fork());
            f.log = Some(String::new());
            f.keys = Free::keys_of(&t);
            f.wrong = *rng.pick(&[0, 5, 20]);
            f.skip = *rng.pick(&[0, 5, 30]);
            f.shuffle = *rng.pick(&[0, 60, 100]);
            if rng.chance(1, 8) {
                f.stop_at = rng.below(30) as u64;
            }
            if seed % KINDS == 0 {
                let r = match mode {
                    Mode::Plain => f.doc(&t[..], comments),
                    _ => f.doc(NoisyReader { inner: &t[..], every, turn: Cell::new(0), seed: nseed }, comments),
                };
                log.push_str(&f.log.take().unwrap());
                end(log, r, off(&t));
            } else {
                let mut bytes = t.clone().into_bytes();
                if rng.chance(1, 6) && !bytes.is_empty() {
                    let i = rng.below(bytes.len());
                    bytes[i] = rng.below(256) as u8;
                }
                let chunks = vec![rng.range(1, 9), rng.range(1, 3)];
                // The bytes or the characters come with other jobs in between
                let (outer, inner) = if nseed % 2 == 0 { (mode, Mode::Plain) } else { (Mode::Plain, mode) };
                match Utf8Reader::new(NoisyIo::new(Chunked::new(&bytes, chunks), inner)) {
                    Ok(r) => {
                        let r = match outer {
                            Mode::Plain => f.doc(r, comments),
                            _ => f.doc(NoisyReader { inner: r, every, turn: Cell::new(0), seed: nseed }, comments),
                        };
                        log.push_str(&f.log.take().unwrap());
                        end(log, r, line);
                    }
                    Err(e) => {
                        let _ = write!(log, "{}", e);
                    }
                }
            }
        }
        2 | 3 => {
            let k = data.below(TABLE.len());
            TABLE[k](data, rng, mode, log)
        }
        4 => {
            let p = prog::program(data, &prog::Opts { max_nodes: 25, max_depth: 5 });
            let indent = *rng.pick(&INDENTS);
            let mut r = rng.fork();
            let mut out = String::new();
            match mode {
                Mode::Plain => out = prog::write(&p, &mut r, indent),
                _ => {
                    let w = NoisyWriter { out: &mut out, every, turn: 0, seed: nseed };
                    let mut s = TextSerializer::new(TextSerializerConfig { indent }, w);
                    prog::exec(&p, &mut r, &mut s).unwrap();
                    s.close();
                }
            }
            log.push_str(&out);
        }
        5 => {
            // Writing to bytes, in pieces, possibly failing
            let p = prog::program(data, &prog::Opts { max_nodes: 15, max_depth: 4 });
            let mut sink = Sink::new(vec![rng.range(1, 5), rng.range(1, 5)]);
            if rng.bool() {
                sink.fail_at = Some(rng.below(60));
            }
            let data = sink.data.clone();
            let mut s = TextSerializer::new(TextSerializerConfig { indent: *rng.pick(&INDENTS) }, Utf8Writer::new(NoisyIo::new(sink, mode)));
            let mut r = rng.fork();
            match prog::exec(&p, &mut r, &mut s) {
                Ok(()) => {
                    s.close();
                    log.push_str("ok ");
                }
                Err(e) => {
                    let _ = write!(log, "{} ", e);
                }
            }
            let _ = write!(log, "{}", String::from_utf8_lossy(&data.borrow()));
        }
        6 => {
            // A few numbers, each read as one type or another
            let ts: Vec<String> = (0..data.range(1, 3)).map(|_| number(data)).collect();
            for _ in 0..rng.range(1, 4) {
                let t = rng.pick(&ts).clone();
                if mode != Mode::Plain {
                    user();
                }
                macro_rules! as_types {
                    ($k:expr; $($n:literal $t:ty),*) => {
                        match $k {
                            $($n => match from_str::<$t>(&t) {
                                Ok(v) => {
                                    let _ = write!(log, "{:?}", v);
                                    // Written again, too
                                    log.push_str(&to_str(&v));
                                }
                                Err(e) => end(log, Err(e), off(&t)),
                            },)*
                            _ => {
                                let r = from_with(&t, |d| d.skip_value());
                                end(log, r, off(&t))
                            }
                        }
                    };
                }
                as_types!(rng.below(16); 0 f32, 1 f64, 2 u8, 3 i8, 4 u16, 5 i16, 6 u32, 7 i32, 8 u64, 9 i64, 10 f64, 11 f64, 12 f32);
                log.push(';');
            }
        }
        _ => {
            // Lookups, character by character, two tables' worth of them in turns
            let table = *rng.pick(&[NAMES.unfix(), NAMES.unfix(), OTHERS.unfix()]);
            let pick = |rng: &mut Rng| -> String {
                let (n, _) = NAMES.unfix().entries().nth(rng.below(12)).unwrap();
                let mut s = n.to_string();
                match rng.below(4) {
                    0 => s.push(any_char(rng)),
                    1 => {
                        s.pop();
                    }
                    _ => (),
                }
                s
            };
            for _ in 0..data.range(1, 6) {
                let (a, b) = (pick(data), pick(data));
                let (mut la, mut lb) = (table.lookup(), table.lookup());
                for (x, y) in a.chars().zip(b.chars()) {
                    la.write_char(x);
                    if mode != Mode::Plain {
                        user();
                    }
                    lb.write_char(y);
                }
                let n = a.chars().count().min(b.chars().count());
                let rest = |s: &str| s.chars().skip(n).collect::<String>();
                la.write_str(&rest(&a));
                lb.write_bytes(rest(&b).as_bytes());
                let _ = write!(log, "{:?} {:?} {:?} {:?};", a, la.result(), b, lb.result());
                let t = format!("[{:?},{:?},{}]", a, b, rng.below(14));
                let r = from_with(&t, |d| {
                    let mut v = vec![];
                    d.open_list()?;
                    for _ in 0..2 {
                        d.push_item()?;
                        v.push(d.get_name(table)?);
                    }
                    d.push_item()?;
                    v.push(d.get_tag(11, table)?);
                    d.close_list()?;
                    Ok(v)
                });
                match r {
                    Ok(v) => {
                        let _ = write!(log, "{:?}", v);
                    }
                    Err(e) => end(log, Err(e), off(&t)),
                }
            }
        }
    }
}

fn from_with<'a, T>(t: &'a str, f: impl FnOnce(&mut TextDeserializer<&'a str>) -> Result<T, DeserializeError<StrPosition<'a>>>) -> Result<T, DeserializeError<StrPosition<'a>>> {
    let mut d = TextDeserializer::new(config(false), t)?;
    let v = f(&mut d)?;
    d.close()?;
    Ok(v)
}
