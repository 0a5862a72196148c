//! C27: results depend only on the input and the calls.
use serdere::*;
use serdere_json::*;
use std::sync::Barrier;
use vh::free::Free;
use vh::gen::*;
use vh::jobs::{inner, job, allow_noise, noise, noises, plain, relative, Mode, KINDS};
use vh::run::{quiet, show};
use vh::walk::emsg;
use vh::*;

fn check(cx: &mut Cx, what: &str, seed: u64, base: &str, got: &str) -> Result<(), String> {
    cx.evals += 1;
    ensure!(base == got, "job {} gives another outcome {}:\n  first {}\n  then  {}", seed, what, show(base), show(got));
    Ok(())
}

/// Jobs again after others, with other jobs in between, and with abandoned ones around.
fn repeated(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let seeds: Vec<u64> = (0..rng.range(1, 4)).map(|_| rng.u64()).collect();
    let first: Vec<String> = seeds.iter().map(|s| plain(*s)).collect();
    for (s, l) in seeds.iter().zip(&first) {
        cx.count(["free", "free_bytes", "typed", "typed", "program", "sink", "numbers", "lookup"][(s % KINDS) as usize], 1);
        if l.contains(" at ") {
            cx.count("failing_jobs", 1);
        }
        cx.distinct_str(l);
        cx.sample(|| show(l));
    }
    for _ in 0..2 {
        let i = rng.below(seeds.len());
        match rng.below(6) {
            0 => abandoned(rng, cx),
            1 => unwound(rng, cx),
            2 => drop(plain(rng.u64())),
            3 | 4 => {
                // On the same material
                cx.count("relatives", 1);
                for _ in 0..rng.range(1, 3) {
                    plain(relative(seeds[i], rng.u64()));
                }
            }
            _ => (),
        }
        check(cx, "after other jobs", seeds[i], &first[i], &plain(seeds[i]))?;
    }
    // From within
    let i = rng.below(seeds.len());
    let n = noises();
    let other = rng.u64();
    let other = if rng.bool() { relative(seeds[i], other) } else { other };
    let got = job(seeds[i], Mode::Noisy(*rng.pick(&[1, 2, 3, 7, 20]), other));
    cx.count("jobs_within_jobs", noises() - n);
    check(cx, "with other jobs within", seeds[i], &first[i], &got)?;
    for (s, l) in inner() {
        cx.count("inner_records", 1);
        check(cx, "within another than afterwards", s, &l, &plain(s))?;
    }
    check(cx, "after one with others within", seeds[i], &first[i], &plain(seeds[i]))
}

/// A deserializer and a serializer that are dropped half way.
fn abandoned(rng: &mut Rng, cx: &mut Cx) {
    cx.count("abandoned", 1);
    let t = doc_text(rng, &DocOpts::default(), &Style::plain()).0;
    let mut f = Free::new(rng.fork());
    f.keys = Free::keys_of(&t);
    f.stop_at = rng.below(20) as u64;
    let _ = quiet(|| {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), &t[..]).ok()?;
        let _ = f.val(&mut d, 0);
        std::mem::drop(d);
        let mut out = String::new();
        let mut s = TextSerializer::new(TextSerializerConfig { indent: Some(" ") }, &mut out);
        s.open_object().ok()?;
        s.push_entry("k").ok()
    });
}

/// One whose reader, writer or value panics half way.
fn unwound(rng: &mut Rng, cx: &mut Cx) {
    cx.count("unwound", 1);
    struct Bomb<'a>(&'a str, usize);
    impl<'a> TextReader for Bomb<'a> {
        type Position = usize;
        fn next(&mut self) -> Option<char> {
            if self.1 == 0 {
                panic!("bomb");
            }
            self.1 -= 1;
            self.0.next()
        }
        fn peek(&self) -> Option<char> {
            self.0.peek()
        }
        fn position(&self) -> usize {
            self.1
        }
    }
    struct Fuse(usize);
    impl TextWriter for Fuse {
        type Error = std::convert::Infallible;
        fn write_char(&mut self, _: char) -> Result<(), Self::Error> {
            if self.0 == 0 {
                panic!("bomb");
            }
            self.0 -= 1;
            Ok(())
        }
    }
    let t = doc_text(rng, &DocOpts::default(), &Style::plain()).0;
    let mut f = Free::new(rng.fork());
    f.keys = Free::keys_of(&t);
    let n = rng.below(60);
    let _ = quiet(|| f.doc(Bomb(&t, n), false).map_err(|e| emsg(&e)));
    let p = prog::program(rng, &prog::Opts { max_nodes: 15, max_depth: 4 });
    let mut r = rng.fork();
    let _ = quiet(|| {
        let mut s = TextSerializer::new(TextSerializerConfig { indent: Some("  ") }, Fuse(n));
        prog::exec(&p, &mut r, &mut s).unwrap();
    });
}

/// The same jobs on several threads at once, in different orders.
fn parallel(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let (jobs, each) = if cfg!(miri) { (2, 2) } else { (12, 24) };
    let seeds: Vec<u64> = (0..jobs).map(|_| rng.u64()).collect();
    let first: Vec<String> = seeds.iter().map(|s| plain(*s)).collect();
    for l in &first {
        cx.distinct_str(l);
    }
    const N: usize = if cfg!(miri) { 2 } else { 4 };
    let barrier = Barrier::new(N);
    let rngs: Vec<Rng> = (0..N).map(|_| rng.fork()).collect();
    let rs: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = rngs
            .into_iter()
            .map(|mut r| {
                let (seeds, barrier) = (&seeds, &barrier);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        barrier.wait();
                        (0..each)
                            .map(|_| {
                                let i = r.below(seeds.len());
                                let m = if r.chance(1, 4) { Mode::Noisy(r.range(1, 9) as u64, r.u64()) } else { Mode::Plain };
                                (i, job(seeds[i], m))
                            })
                            .collect()
                    })
                    .unwrap_or_else(|e| run::harness_error(&format!("thread: {}", e)))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| run::harness_error("thread panicked"))).collect()
    });
    cx.count("threads", N as u64);
    for (i, l) in rs.into_iter().flatten() {
        check(cx, "on one of several threads", seeds[i], &first[i], &l)?;
    }
    Ok(())
}

/// A deserializer or serializer that goes on on another thread after each step.
fn moved(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    struct Carry<T>(T);
    // The other thread is waited for, so that nothing is shared
    unsafe impl<T> Send for Carry<T> {}
    fn away<T, R>(x: T, f: fn(T) -> R) -> R {
        let c = Carry((x, f));
        std::thread::scope(|s| {
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let c = c;
                    let Carry((x, f)) = c;
                    allow_noise();
                    noise(7);
                    Carry(f(x))
                })
                .unwrap_or_else(|e| run::harness_error(&format!("thread: {}", e)));
            h.join().unwrap_or_else(|_| run::harness_error("thread panicked")).0
        })
    }
    let n = rng.range(2, 6);
    let o = DocOpts { max_nodes: 12, max_depth: 4, ..Default::default() };
    let items: Vec<String> = (0..n)
        .map(|_| {
            let st = Style::random(rng, false);
            doc_text(rng, &o, &st).0
        })
        .collect();
    // an object whose last entry is asked for first half of the time, so that the list is buffered
    let buffered = rng.bool();
    let t = format!("{{\"list\":[{}],\"z\":0}}", items.join(","));
    let seeds: Vec<Rng> = (0..n).map(|_| rng.fork()).collect();
    let go = |moving: bool| -> Result<String, String> {
        let mut log = String::new();
        let e = |e: DeserializeError<StrPosition>| emsg(&e);
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), &t[..]).map_err(e)?;
        d.open_object().map_err(e)?;
        if buffered {
            d.push_entry("z").map_err(e)?;
            d.get_u8().map_err(e)?;
        }
        d.push_entry("list").map_err(e)?;
        d.open_list().map_err(e)?;
        for r in &seeds {
            d.push_item().map_err(e)?;
            let mut f = Free::new(r.clone());
            f.log = Some(String::new());
            f.keys = Free::keys_of(&t);
            let mut run = |mut d: TextDeserializer<_>| {
                let r = f.val(&mut d, 0).map_err(e);
                (d, r)
            };
            type Args<'a, 'b> = (TextDeserializer<&'a str>, &'b mut dyn FnMut(TextDeserializer<&'a str>) -> (TextDeserializer<&'a str>, Result<(), String>));
            fn call<'a, 'b>((d, f): Args<'a, 'b>) -> (TextDeserializer<&'a str>, Result<(), String>) {
                f(d)
            }
            let (d2, r) = if moving { away((d, &mut run as &mut dyn FnMut(_) -> _), call) } else { run(d) };
            d = d2;
            log.push_str(&f.log.take().unwrap());
            if let Err(m) = r {
                log.push_str(&m);
                return Ok(log);
            }
        }
        d.close_list().map_err(e)?;
        if !buffered {
            d.push_entry("z").map_err(e)?;
            d.get_u8().map_err(e)?;
        }
        d.close_object().map_err(e)?;
        d.close().map_err(e)?;
        Ok(log)
    };
    let a = quiet(|| go(false));
    let b = quiet(|| go(true));
    cx.count("moves_between_threads", n as u64);
    cx.distinct_str(&t);
    cx.evals += 1;
    ensure!(a == b, "reading {} gives another outcome when continued on other threads:\n  {:?}\n  {:?}", show(&t), a, b);
    Ok(())
}

/// In a process of its own.
fn process(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    if cfg!(miri) {
        return Ok(());
    }
    let seeds: Vec<u64> = (0..30).map(|_| rng.u64()).collect();
    let mut own = seeds.clone();
    // In another order
    for i in (1..own.len()).rev() {
        own.swap(i, rng.below(i + 1));
    }
    let exe = std::env::current_exe().unwrap_or_else(|e| run::harness_error(&e.to_string()));
    let out = std::process::Command::new(exe).arg("--jobs").args(own.iter().map(|s| s.to_string())).output();
    let out = out.unwrap_or_else(|e| run::harness_error(&e.to_string()));
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut seen = 0;
    for line in text.lines() {
        if let Some((s, l)) = line.split_once(' ') {
            if let Ok(s) = s.parse::<u64>() {
                check(cx, "in another process", s, l, &format!("{:?}", plain(s)))?;
                seen += 1;
            }
        }
    }
    cx.count("jobs_in_other_processes", seen);
    ensure!(seen == seeds.len() as u64 && out.status.success(), "jobs {:?} end the process: {:?} after {} of them", own, out.status, seen);
    Ok(())
}

/// Different material at the same places in memory: what is found there must not be taken for what
/// was there before.
fn places(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    #[inline(never)]
    fn in_table<const N: usize>(e: [(&'static str, u32); N], name: &str, pieces: bool) -> Option<u32> {
        let table = FixedNameMap::new(e);
        if pieces {
            let mut l = table.unfix().lookup();
            let mut buf = [0; 4];
            for c in name.chars() {
                l.write_str(c.encode_utf8(&mut buf));
            }
            l.result().copied()
        } else {
            table.unfix().get(name).copied()
        }
    }
    fn tables<const N: usize>(rng: &mut Rng, buf: &mut String, cx: &mut Cx) -> Result<(), String> {
        const WORDS: [&str; 16] = ["", "a", "b", "c", "aa", "ab", "ba", "bb", "ac", "ca", "cc", "aba", "abb", "bab", "bba", "aab"];
        let keep = rng.bool();
        let mut last = *rng.pick(&WORDS);
        for _ in 0..6 {
            let at = rng.below(WORDS.len());
            let e: [(&'static str, u32); N] = std::array::from_fn(|i| (WORDS[(at + i * 3) % WORDS.len()], rng.below(50) as u32));
            for _ in 0..2 {
                if !(keep && rng.bool()) {
                    last = if rng.bool() { *rng.pick(&WORDS) } else { rng.pick(&e).0 };
                }
                buf.clear();
                buf.push_str(last);
                let pieces = rng.chance(1, 3);
                let got = in_table(e, buf, pieces);
                let want = e.iter().find(|x| x.0 == last).map(|x| x.1);
                cx.evals += 1;
                cx.count("names_at_same_place", 1);
                ensure!(got == want, "{:?} gives {:?} in the table {:?} (another table was at its place before)", last, got, e);
            }
        }
        Ok(())
    }
    let mut buf = String::with_capacity(1 << 14);
    match rng.below(4) {
        0 => tables::<1>(rng, &mut buf, cx)?,
        1 => tables::<2>(rng, &mut buf, cx)?,
        2 => tables::<3>(rng, &mut buf, cx)?,
        _ => tables::<5>(rng, &mut buf, cx)?,
    }
    // Texts that differ in few places, in one buffer
    let st = Style::random(rng, true);
    let text = doc_text(rng, &DocOpts { max_nodes: 12, max_depth: 4, ..Default::default() }, &st).0;
    let go = |t: &str, r: &Rng, bytes: bool| {
        let mut f = Free::new(r.clone());
        f.log = Some(String::new());
        f.keys = Free::keys_of(&text);
        f.wrong = 10;
        let res = quiet(|| {
            if bytes {
                f.doc(Utf8Reader::new(t.as_bytes()).unwrap(), true).map_err(|e| format!("{:?} {:?}", emsg(&e), e.position()))
            } else {
                f.doc(t, true).map_err(|e| format!("{:?} {:?}", emsg(&e), vh::reader::str_offset(t, e.position())))
            }
        });
        format!("{:?} {:?}", res, f.log.take())
    };
    for _ in 0..4 {
        let mut v = text.clone().into_bytes();
        for b in v.iter_mut() {
            if matches!(*b, b'1'..=b'9') && rng.chance(1, 2) {
                *b = b'1' + rng.below(9) as u8;
            }
        }
        let v = String::from_utf8(v).unwrap();
        let r = rng.fork();
        let bytes = rng.chance(1, 3);
        buf.clear();
        buf.push_str(&v);
        let got = go(&buf, &r, bytes);
        let own = Box::<str>::from(&v[..]);
        let want = go(&own, &r, bytes);
        cx.evals += 1;
        cx.count("texts_at_same_place", 1);
        ensure!(got == want, "reading {} gives another outcome where another text was before:\n  {}\n  {}", show(&v), got, want);
        // The first time that this text is at a place of its own
        let third = go(&Box::<str>::from(&v[..]), &r, bytes);
        ensure!(got == third, "reading {} gives another outcome at another place:\n  {}\n  {}", show(&v), got, third);
    }
    // Keys asked for and values written from one buffer
    let n = rng.range(2, 7);
    let words: Vec<String> = (0..n).map(|i| format!("{}{}", ["k", "ke", "", "\u{e9}"][rng.below(4)], (b'a' + i as u8) as char)).collect();
    let obj = format!("{{{}}}", words.iter().enumerate().map(|(i, k)| format!("\"{}\":{}", k, i)).collect::<Vec<_>>().join(","));
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, rng.below(i + 1));
    }
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), &obj[..]).map_err(|e| emsg(&e))?;
    d.open_object().map_err(|e| emsg(&e))?;
    for i in order {
        buf.clear();
        buf.push_str(&words[i]);
        cx.count("keys_at_same_place", 1);
        ensure!(d.try_push_entry(&buf).map_err(|e| emsg(&e))?, "{} has no entry {:?}", obj, buf);
        let got = d.get_u8().map_err(|e| emsg(&e))?;
        ensure!(got as usize == i, "the entry {:?} of {} is read as {}", buf, obj, got);
        let w = serdere_json::to_str(&buf);
        ensure!(w == format!("{:?}", words[i]), "{:?} is written as {}", words[i], w);
    }
    d.close_object().map_err(|e| emsg(&e))?;
    d.close().map_err(|e| emsg(&e))?;
    cx.distinct_str(&obj);
    cx.distinct_str(&text);
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|a| a == "--jobs").unwrap_or(false) {
        run::install_hook();
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            for a in &args[2..] {
                println!("{} {:?}", a, plain(a.parse().unwrap()));
            }
        });
        h.unwrap().join().unwrap();
        return;
    }
    run::main(Check {
        id: "C27",
        level: "exploration",
        rule: "jobs (untyped walks over texts and bytes, typed trips, call programs into strings and failing sinks, numbers read as one type and another, name lookups), each a function of a seed with a complete record of its outcome: first record against records made after other jobs, failing, abandoned and unwound ones and such on the same material, with other jobs run from within the reader, the writer, the byte source or sink, or the value, on four threads at once, moved between threads, and in other processes; tables, names, texts and keys that take the place of others in memory, against fresh copies; distinct by record",
        assumptions: &["state that no job of the workload reaches is not observed"],
        phases: vec![
            Phase { name: "repeated", quick: 60000, thorough: 0, f: repeated },
            Phase { name: "places", quick: 20000, thorough: 0, f: places },
            Phase { name: "parallel", quick: 1500, thorough: 0, f: parallel },
            Phase { name: "moved", quick: 5000, thorough: 0, f: moved },
            Phase { name: "process", quick: 200, thorough: 5000, f: process },
        ],
        floors: &[("abandoned", 20), ("unwound", 20), ("jobs_within_jobs", 100), ("threads", 8), ("moves_between_threads", 10), ("jobs_in_other_processes", 30), ("failing_jobs", 20), ("relatives", 20), ("inner_records", 20), ("names_at_same_place", 100), ("texts_at_same_place", 50), ("keys_at_same_place", 50)],
        hang_cpu_s: 60,
    });
}
