//! C12: a failing byte sink is reported, and what was written is a clean prefix.
use serdere::*;
use serdere_json::*;
use std::cell::Cell;
use std::io;
use std::rc::Rc;
use vh::prog::*;
use vh::reader::{Sink, INJECTED};
use vh::run::quiet;
use vh::types::*;
use vh::*;

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
];

fn sink(rng: &mut Rng) -> Sink {
    let pieces = match rng.below(4) {
        0 => vec![],
        1 => vec![1],
        _ => (0..rng.range(1, 4)).map(|_| rng.range(1, 9)).collect(),
    };
    let mut s = Sink::new(pieces);
    s.interrupt = *rng.pick(&[0, 0, 0, 2, 3, 7]);
    s
}

/// Runs `f` against a sink failing after `at` bytes and judges the outcome.
fn fault(rng: &mut Rng, cx: &mut Cx, what: &dyn Fn() -> String, healthy: &[u8], at: usize, f: &mut dyn FnMut(Sink) -> io::Result<()>) -> Result<(), String> {
    cx.evals += 1;
    let mut s = sink(rng);
    s.fail_at = Some(at);
    s.fail_kind = *rng.pick(KINDS);
    s.fail_zero = rng.chance(1, 4);
    let (data, failed, after) = (s.data.clone(), s.failed.clone(), s.after_fail.clone());
    let (kind, zero) = (s.fail_kind, s.fail_zero);
    let how = format!("(failing after {} of {} bytes, kind {:?}, as Ok(0): {})", at, healthy.len(), kind, zero);
    let out = quiet(|| f(s)).map_err(|p| format!("panic {} {} writing {}", p, how, what()))?;
    let data = data.borrow();
    if at >= healthy.len() {
        cx.count("fault_after_end", 1);
        ensure!(out.is_ok() && !failed.get() && *data == healthy, "{:?} though everything fits {} writing {}", out, how, what());
        return Ok(());
    }
    ensure!(failed.get(), "fault not reached, {:?} {} writing {}", out, how, what());
    ensure!(after.get() == 0, "{} more writes after the failure {} writing {}", after.get(), how, what());
    ensure!(*data == healthy[..at], "accepted {:?}, not a prefix of {:?} {} writing {}", String::from_utf8_lossy(&data), String::from_utf8_lossy(healthy), how, what());
    let Err(e) = out else { return Err(format!("success reported {} writing {}", how, what())) };
    if zero {
        ensure!(e.kind() == io::ErrorKind::WriteZero, "error {:?} for a sink that accepts nothing {} writing {}", e, how, what());
    } else {
        ensure!(e.kind() == kind && e.to_string() == INJECTED, "error {:?} is not the sink's {} writing {}", e, how, what());
    }
    cx.count("faults", 1);
    Ok(())
}

fn offsets(rng: &mut Rng, len: usize) -> Vec<usize> {
    if len <= 120 {
        (0..=len).collect()
    } else {
        let mut v: Vec<usize> = (0..40).map(|_| rng.below(len + 1)).collect();
        v.extend([0, 1, len - 1, len]);
        v
    }
}

fn programs(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let p = if rng.chance(1, 10) {
        let depth = rng.range(1, 40);
        deep(rng, depth)
    } else {
        let max_nodes = *rng.pick(&[3, 8, 30]);
        program(rng, &Opts { max_nodes, max_depth: 6 })
    };
    let indent = *rng.pick(&[None, None, Some("  "), Some("\t"), Some("")]);
    let calls = rng.fork();
    let healthy = write(&p, &mut calls.clone(), indent).into_bytes();
    cx.distinct(rng::hash_bytes(&healthy));
    cx.sample(|| format!("{:?}", p));
    for at in offsets(rng, healthy.len()) {
        let what = || format!("{:?} with indent {:?}", p, indent);
        fault(rng, cx, &what, &healthy, at, &mut |s| {
            let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(s));
            exec(&p, &mut calls.clone(), &mut s)?;
            s.close();
            Ok(())
        })?;
        if indent.is_none() && rng.chance(1, 3) {
            let v = Prog(&p, calls.clone());
            let alone = rng.bool();
            let what = || format!("{:?} by {}", p, if alone { "to_writer" } else { "to_writer_using" });
            fault(rng, cx, &what, &healthy, at, &mut |s| {
                if alone {
                    to_writer(Utf8Writer::new(s), &v)
                } else {
                    to_writer_using(Utf8Writer::new(s), &v, &mut [0u8; 3][..])
                }
            })?;
            cx.count("entry_points", 1);
        }
        chars(rng, cx, &p, &calls, indent, std::str::from_utf8(&healthy).unwrap())?;
    }
    // Arbitrary pieces and interruptions without a failure change nothing
    let s = sink(rng);
    let data = s.data.clone();
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(s));
    exec(&p, &mut calls.clone(), &mut s).map_err(|e| format!("healthy sink: {}", e))?;
    s.close();
    ensure!(*data.borrow() == healthy, "{:?}: partial writes give {:?}", p, String::from_utf8_lossy(&data.borrow()));
    cx.count("healthy", 1);
    Ok(())
}

/// Outputs with one large dimension, failing far in.
fn sizes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    run::on_stack(256 << 20, || {
        let p = big(rng, 1 << 17, 1 << 8);
        let indent = *rng.pick(&[None, None, Some(" ")]);
        let calls = rng.fork();
        let healthy = write(&p, &mut calls.clone(), indent).into_bytes();
        cx.distinct(rng::hash_bytes(&healthy));
        cx.max("output_bytes", healthy.len() as u64);
        cx.count("large", 1);
        let short = || format!("{:?}", p).chars().take(600).collect::<String>();
        for k in 0..4 {
            let at = match k {
                0 => healthy.len() - rng.below(3).min(healthy.len()),
                1 => gen::length(rng, 1 << 20),
                _ => rng.below(healthy.len() + 1),
            };
            fault(rng, cx, &short, &healthy, at, &mut |s| {
                let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(s));
                exec(&p, &mut calls.clone(), &mut s)?;
                s.close();
                Ok(())
            })?;
        }
        let s = sink(rng);
        let data = s.data.clone();
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(s));
        exec(&p, &mut calls.clone(), &mut s).map_err(|e| format!("healthy sink: {}", e))?;
        s.close();
        ensure!(*data.borrow() == healthy, "{}: partial writes change the output", short());
        Ok(())
    })?
}

#[derive(Debug)]
struct MyError(u64);
impl std::fmt::Display for MyError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mine {}", self.0)
    }
}
impl std::error::Error for MyError {}

/// A third-party text writer that fails at its `fail`-th call and records what follows.
struct Mine {
    out: Rc<std::cell::RefCell<String>>,
    calls: u64,
    fail: u64,
    id: u64,
    after: Rc<Cell<usize>>,
}
impl Mine {
    fn call(&mut self, s: &str) -> Result<(), MyError> {
        self.calls += 1;
        if self.calls == self.fail {
            return Err(MyError(self.id));
        }
        if self.calls > self.fail {
            self.after.set(self.after.get() + 1);
        }
        self.out.borrow_mut().push_str(s);
        Ok(())
    }
}
impl TextWriter for Mine {
    type Error = MyError;
    fn write_char(&mut self, ch: char) -> Result<(), MyError> {
        self.call(ch.encode_utf8(&mut [0; 4]))
    }
    fn write_str(&mut self, s: &str) -> Result<(), MyError> {
        self.call(s)
    }
}

fn chars(rng: &mut Rng, cx: &mut Cx, p: &P, calls: &Rng, indent: Option<&'static str>, healthy: &str) -> Result<(), String> {
    cx.evals += 1;
    let m = Mine { out: Default::default(), calls: 0, fail: rng.range(1, 60) as u64, id: rng.u64(), after: Default::default() };
    let (out, after, id) = (m.out.clone(), m.after.clone(), m.id);
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, m);
    let res = quiet(|| exec(p, &mut calls.clone(), &mut s)).map_err(|e| format!("panic {} with a failing text writer, {:?}", e, p))?;
    ensure!(after.get() == 0, "{} calls to the text writer after its failure, {:?}", after.get(), p);
    let out = out.borrow();
    match res {
        Ok(()) => ensure!(*out == healthy, "success with {:?} instead of {:?}", out, healthy),
        Err(e) => {
            cx.count("text_writer_faults", 1);
            ensure!(e.0 == id, "error {:?} is not the writer's ({})", e, id);
            ensure!(healthy.starts_with(&**out), "{:?} is not a prefix of {:?}", out, healthy);
        }
    }
    Ok(())
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
fn typed<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + for<'a> Serialize<TextSerializer<&'a mut String>> + Serialize<TextSerializer<Utf8Writer<Sink>>>,
{
    let v = T::gen(rng);
    let healthy = to_str(&v).into_bytes();
    cx.distinct(rng::hash_bytes(&healthy));
    for at in offsets(rng, healthy.len()) {
        if healthy.len() > 30 && rng.chance(2, 3) {
            continue;
        }
        fault(rng, cx, &|| format!("{:?}", v), &healthy, at, &mut |s| to_writer(Utf8Writer::new(s), &v).map(|_| ()))?;
    }
    cx.count("typed", 1);
    Ok(())
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(typed::<$t> as F),*] };
}
const TABLE: &[F] = all_types!(table);
fn types(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

fn main() {
    run::main(Check {
        id: "C12",
        level: "fault_enumeration",
        rule: "random serializer programs (by calls, to_writer and to_writer_using) and typed values written to sinks that take arbitrary pieces, interrupt, and fail (with every error kind or by accepting nothing) after every offset of outputs up to 120 bytes and sampled offsets of longer ones, outputs with one large dimension among them (a string of up to 131072 characters, as many items); a failing third-party text writer at call granularity; sinks recover after the failure so that any later write shows; distinct by output",
        assumptions: &[],
        phases: vec![
            Phase { name: "programs", quick: 300000, thorough: 0, f: programs },
            Phase { name: "sizes", quick: 1500, thorough: 0, f: sizes },
            Phase { name: "types", quick: 600000, thorough: 0, f: types },
        ],
        floors: &[("entry_points", 100), ("faults", 10000), ("fault_after_end", 500), ("healthy", 500), ("typed", 500), ("text_writer_faults", 1000)],
        hang_cpu_s: 30,
    });
}
