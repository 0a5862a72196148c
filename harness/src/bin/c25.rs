//! C25: a failing or malformed byte source never yields a value.
use serdere::*;
use serdere_json::*;
use std::io::{self, Read};
use vh::free::Free;
use vh::gen::*;
use vh::reader::{After, Chunked, FaultKind, INJECTED};
use vh::run::{quiet, show};
use vh::types::*;
use vh::*;

const FAULTS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WriteZero,
];

/// The recorded finding: the failure surfaces as a panic that carries the source's error.
fn is_known(panic: &str) -> bool {
    panic.contains(INJECTED) || panic.contains("InvalidData") || panic.contains("UnexpectedEof") || panic.contains("failed to fill whole buffer") || panic.contains("invalid utf-8") || panic.contains("incomplete utf-8")
}

/// Judges one deserialization from a source that must not yield a value.
fn outcome(cx: &mut Cx, what: &dyn Fn() -> String, f: impl FnOnce() -> Result<String, String>) -> Result<(), String> {
    cx.evals += 1;
    match quiet(f) {
        Ok(Err(_)) => cx.count("error", 1),
        Ok(Ok(v)) => return Err(format!("a value was returned: {} from {}", v, what())),
        Err(p) if is_known(&p) => {
            cx.count("known_panic", 1);
            cx.known("utf8reader-next-unwrap", || format!("panic {} reading {}", p, what()));
        }
        Err(p) => return Err(format!("panic {} (not the source's error) reading {}", p, what())),
    }
    Ok(())
}

fn faulty<'a>(rng: &mut Rng, text: &'a [u8], at: usize) -> Chunked<'a> {
    let k = rng.range(1, 4);
    let mut c = Chunked::new(text, (0..k).map(|_| rng.range(1, 6)).collect());
    c.interrupt = *rng.pick(&[0, 0, 2, 3]);
    c.fail_at = Some((at, FaultKind(*rng.pick(FAULTS))));
    c.after = *rng.pick(&[After::Sticky, After::Eof, After::Continue]);
    c
}

fn offsets(rng: &mut Rng, len: usize) -> Vec<usize> {
    if len <= 60 {
        (0..=len).collect()
    } else {
        let mut v: Vec<usize> = (0..25).map(|_| rng.below(len + 1)).collect();
        v.extend([len, len - 1, 0]);
        v
    }
}

fn walk(rng: Rng, src: Chunked, comments: bool, keys: Vec<String>) -> Result<String, String> {
    let mut f = Free::new(rng);
    f.keys = keys;
    f.shuffle = 60;
    f.skip = 20;
    let r = Utf8Reader::new(src).map_err(|e| format!("reader: {}", e))?;
    f.doc(r, comments).map_err(|e| e.to_string())?;
    Ok(format!("walked in {} calls", f.calls))
}

/// The source fails at every place of a valid document.
fn faults(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[1, 3, 8, 40]), ..Default::default() };
    let comments = rng.chance(1, 4);
    let st = Style::random(rng, comments);
    let (t, _) = doc_text(rng, &o, &st);
    cx.distinct_str(&t);
    cx.sample(|| show(&t));
    let keys = Free::keys_of(&t);
    let mut ok = Chunked::new(t.as_bytes(), vec![]);
    ok.interrupt = 3;
    ensure!(matches!(quiet(|| walk(rng.clone(), ok, comments, keys.clone())), Ok(Ok(_))), "healthy source refused: {}", show(&t));
    for at in offsets(rng, t.len()) {
        let c = faulty(rng, t.as_bytes(), at);
        let (fail, after, failed) = (c.fail_at, c.after, c.failed.clone());
        let what = || format!("{} with a source failing with {:?}, then {:?}", show(&t), fail, after);
        let r = rng.fork();
        outcome(cx, &what, || walk(r, c, comments, keys.clone()))?;
        ensure!(failed.get(), "the fault was not reached: {}", what());
        cx.count("faults", 1);
    }
    Ok(())
}

const BAD: &[&[u8]] = &[
    &[0x80],
    &[0xbf],
    &[0xc0, 0x80],
    &[0xc1, 0xbf],
    &[0xc2],
    &[0xc2, 0x22],
    &[0xe0, 0x80, 0xa2],
    &[0xe2, 0x82],
    &[0xe2, 0x82, 0x22],
    &[0xed, 0xa0, 0x80],
    &[0xed, 0xa0, 0xbd, 0xed, 0xb8, 0x80],
    &[0xf0, 0x80, 0x80, 0xa2],
    &[0xf0, 0x9f, 0x98],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xf5, 0x80, 0x80, 0x80],
    &[0xf8, 0x88, 0x80, 0x80, 0x80],
    &[0xfe],
    &[0xff],
    &[0xff, 0xfe],
];

/// Invalid UTF-8 put into a valid document, at every place.
fn malformed(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let o = DocOpts { max_nodes: *rng.pick(&[1, 3, 8, 40]), ..Default::default() };
    let comments = rng.chance(1, 4);
    let st = Style::random(rng, comments);
    let (t, _) = doc_text(rng, &o, &st);
    let keys = Free::keys_of(&t);
    for at in offsets(rng, t.len()) {
        let bad = *rng.pick(BAD);
        let mut b = t.as_bytes()[..at].to_vec();
        match rng.below(3) {
            // Truncated there (inside a character if the text has one)
            0 if at < t.len() && !t.is_char_boundary(at) => (),
            1 => {
                b.extend_from_slice(bad);
                let skip = rng.below(3).min(t.len() - at);
                b.extend_from_slice(&t.as_bytes()[at + skip..]);
            }
            _ => {
                b.extend_from_slice(bad);
                b.extend_from_slice(&t.as_bytes()[at..]);
            }
        }
        if std::str::from_utf8(&b).is_ok() {
            continue;
        }
        cx.distinct(rng::hash_bytes(&b));
        let k = rng.range(1, 4);
        let mut c = Chunked::new(&b, (0..k).map(|_| rng.range(1, 6)).collect());
        c.interrupt = *rng.pick(&[0, 0, 2, 3]);
        let r = rng.fork();
        outcome(cx, &|| format!("{:?} (bytes {:02x?})", String::from_utf8_lossy(&b), b), || walk(r, c, comments, keys.clone()))?;
        cx.count("malformed", 1);
    }
    Ok(())
}

/// Documents with one large dimension, failing or malformed far in.
fn sizes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    run::on_stack(256 << 20, || {
        let (t, _) = big(rng, 1 << 17, 1 << 8);
        cx.distinct_str(&t);
        cx.max("text_bytes", t.len() as u64);
        let keys: Vec<String> = Free::keys_of(&t).into_iter().take(20).collect();
        for k in 0..4 {
            let at = match k {
                0 => t.len() - rng.below(3).min(t.len()),
                1 => gen::length(rng, 1 << 20).min(t.len()),
                _ => rng.below(t.len() + 1),
            };
            let r = rng.fork();
            let bad;
            let mut c = if rng.chance(2, 3) {
                faulty(rng, t.as_bytes(), at)
            } else {
                let mut b = t.as_bytes()[..at].to_vec();
                b.extend_from_slice(*rng.pick(BAD));
                b.extend_from_slice(&t.as_bytes()[at..]);
                bad = b;
                if std::str::from_utf8(&bad).is_ok() {
                    continue;
                }
                Chunked::new(&bad, vec![])
            };
            if rng.bool() {
                c.interrupt = 0;
            }
            let (fail, after) = (c.fail_at, c.after);
            let what = || format!("{} with a source failing with {:?}, then {:?}, or bad data at {}", show(&t), fail, after, at);
            outcome(cx, &what, || walk(r, c, false, keys.clone()))?;
            cx.count("large", 1);
        }
        Ok(())
    })?
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'s> Deserialize<TextDeserializer<Utf8Reader<Chunked<'s>>>>,
{
    let mut t = to_str(&T::gen(rng));
    if rng.chance(1, 3) {
        t.push_str(rng.pick(&[" ", "\n", "  \r\n\t"]));
    }
    for at in offsets(rng, t.len()) {
        if t.len() > 30 && rng.chance(2, 3) && at != t.len() {
            continue;
        }
        let c = faulty(rng, t.as_bytes(), at);
        let (fail, after) = (c.fail_at, c.after);
        let what = || format!("{} as {} with a source failing with {:?}, then {:?}", show(&t), std::any::type_name::<T>(), fail, after);
        outcome(cx, &what, || {
            let r = Utf8Reader::new(c).map_err(|e| e.to_string())?;
            from_reader::<_, T>(r).map(|v| format!("{:?}", v)).map_err(|e| e.to_string())
        })?;
        cx.count("typed", 1);
    }
    Ok(())
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);
fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

/// Below the reader: `read_utf8` and `Utf8Reader::new` hand the source's own error on.
fn direct(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let t = gen::string(rng, false);
    for at in 0..=t.len() {
        cx.evals += 1;
        let mut c = faulty(rng, t.as_bytes(), at);
        c.after = After::Sticky;
        let kind = c.fail_at.unwrap().1 .0;
        let mut got = String::new();
        let e = loop {
            match read_utf8(&mut c) {
                Ok(Some(ch)) => got.push(ch),
                Ok(None) => return Err(format!("{:?} failing at {} with {:?}: end of data reported after {:?}", t, at, kind, got)),
                Err(e) => break e,
            }
        };
        let mut whole = at;
        while !t.is_char_boundary(whole) {
            whole -= 1;
        }
        ensure!(got == t[..whole], "{:?} failing at {}: {:?} read before", t, at, got);
        ensure!(e.kind() == kind && e.to_string() == INJECTED, "{:?} failing at {} with {:?}: reported as {:?}", t, at, kind, e);
        cx.count("direct", 1);
    }
    let first = t.chars().next().map_or(0, |c| c.len_utf8());
    for at in 0..first.max(1) {
        let c = faulty(rng, t.as_bytes(), at);
        let kind = c.fail_at.unwrap().1 .0;
        match quiet(|| Utf8Reader::new(c)) {
            Ok(Err(e)) => ensure!(e.kind() == kind && e.to_string() == INJECTED, "{:?} failing at {}: reader made with {:?}", t, at, e),
            Ok(Ok(_)) => return Err(format!("{:?} failing at {} with {:?}: reader made", t, at, kind)),
            Err(p) => return Err(format!("{:?} failing at {}: panic {}", t, at, p)),
        }
    }
    cx.distinct_str(&t);
    Ok(())
}

/// A source whose reads fail as a whole (such as a directory) or which is empty.
struct Never;
impl Read for Never {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::new(io::ErrorKind::Other, INJECTED))
    }
}
fn trivial(_: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    cx.evals += 2;
    ensure!(Utf8Reader::new(Never).is_err(), "a source that never works was accepted");
    let r = Utf8Reader::new(io::empty()).map_err(|e| e.to_string())?;
    ensure!(from_reader::<_, ()>(r).is_err(), "a value came from an empty source");
    cx.distinct(1);
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C25",
        level: "fault_enumeration",
        rule: "valid documents and serialized values of all types through byte sources that fail (nine error kinds, UnexpectedEof among them; failing on, ending, or recovering afterwards) at every offset including after the last byte, or contain invalid UTF-8 at every offset (at sampled offsets of documents with one large dimension); any value returned is a violation, a panic that carries the source's error is the recorded finding; read_utf8 and Utf8Reader::new must hand on the source's own error; distinct by text or bytes",
        assumptions: &[],
        phases: vec![
            Phase { name: "faults", quick: 80000, thorough: 0, f: faults },
            Phase { name: "malformed", quick: 64000, thorough: 0, f: malformed },
            Phase { name: "sizes", quick: 800, thorough: 0, f: sizes },
            Phase { name: "types", quick: 80000, thorough: 0, f: types },
            Phase { name: "direct", quick: 160000, thorough: 0, f: direct },
            Phase { name: "trivial", quick: 1, thorough: 1, f: trivial },
        ],
        floors: &[("faults", 5000), ("malformed", 5000), ("typed", 5000), ("direct", 5000), ("error", 100)],
        hang_cpu_s: 30,
    });
}
