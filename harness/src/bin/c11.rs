//! C11: UTF-8 is decoded and encoded exactly as the standard defines it.
use serdere::*;
use std::io::Read;
use vh::reader::{Chunked, Sink};
use vh::run::quiet;
use vh::*;

/// What follows the characters that could be decoded.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Tail {
    End,
    Bad,
}

/// Table 3-7 of the Unicode standard: the length of the well-formed sequence at the start of `b`.
fn well_formed(b: &[u8]) -> Option<(usize, u32)> {
    let c = |i: usize| *b.get(i).unwrap_or(&0) as u32;
    let cont = |i: usize, lo: u8, hi: u8| matches!(b.get(i), Some(x) if (lo..=hi).contains(x));
    match *b.first()? {
        x @ 0..=0x7f => Some((1, x as u32)),
        0xc2..=0xdf if cont(1, 0x80, 0xbf) => Some((2, (c(0) & 0x1f) << 6 | (c(1) & 0x3f))),
        x @ 0xe0..=0xef => {
            let (lo, hi) = match x {
                0xe0 => (0xa0, 0xbf),
                0xed => (0x80, 0x9f),
                _ => (0x80, 0xbf),
            };
            if cont(1, lo, hi) && cont(2, 0x80, 0xbf) {
                Some((3, (c(0) & 0xf) << 12 | (c(1) & 0x3f) << 6 | (c(2) & 0x3f)))
            } else {
                None
            }
        }
        x @ 0xf0..=0xf4 => {
            let (lo, hi) = match x {
                0xf0 => (0x90, 0xbf),
                0xf4 => (0x80, 0x8f),
                _ => (0x80, 0xbf),
            };
            if cont(1, lo, hi) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) {
                Some((4, (c(0) & 7) << 18 | (c(1) & 0x3f) << 12 | (c(2) & 0x3f) << 6 | (c(3) & 0x3f)))
            } else {
                None
            }
        }
        _ => None,
    }
}

/// Characters (with the offsets after them) of the longest valid prefix, and what follows.
fn decode(b: &[u8]) -> (Vec<(char, usize)>, Tail) {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match well_formed(&b[i..]) {
            Some((n, c)) => {
                i += n;
                out.push((char::from_u32(c).expect("oracle"), i));
            }
            None => return (out, Tail::Bad),
        }
    }
    (out, Tail::End)
}

/// Compares `read_utf8` with the table, call by call.
fn check_fn(b: &[u8], r: &mut dyn PosRead) -> Result<Tail, String> {
    let mut off = 0;
    loop {
        let got = read_utf8(r);
        if off == b.len() {
            ensure!(matches!(got, Ok(None)), "{:02x?}: {:?} at the end of data", b, got);
            let again = read_utf8(r);
            ensure!(matches!(again, Ok(None)), "{:02x?}: {:?} after the end of data", b, again);
            return Ok(Tail::End);
        }
        match well_formed(&b[off..]) {
            Some((n, c)) => {
                let want = char::from_u32(c);
                ensure!(matches!(got, Ok(g) if g == want), "{:02x?}: read {:?} at offset {}, expected {:?}", b, got, off, want);
                off += n;
                ensure!(r.taken() == off, "{:02x?}: {} bytes taken from the source for the characters up to offset {}", b, r.taken(), off);
            }
            None => {
                ensure!(got.is_err(), "{:02x?}: invalid or partial sequence at offset {} read as {:?}", b, off, got);
                return Ok(Tail::Bad);
            }
        }
    }
}

trait PosRead: Read {
    fn taken(&self) -> usize;
}
struct Slice<'a>(&'a [u8], usize);
impl Read for Slice<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.read(buf)?;
        self.1 += n;
        Ok(n)
    }
}
impl PosRead for Slice<'_> {
    fn taken(&self) -> usize {
        self.1
    }
}
impl PosRead for Chunked<'_> {
    fn taken(&self) -> usize {
        self.pos
    }
}

fn plain(cx: &mut Cx, b: &[u8]) -> Result<(), String> {
    cx.evals += 1;
    match quiet(|| check_fn(b, &mut Slice(b, 0))).map_err(|p| format!("panic {} on {:02x?}", p, b))?? {
        Tail::End => cx.count("valid_sequences", 1),
        Tail::Bad => cx.count("invalid_sequences", 1),
    }
    Ok(())
}

/// All byte sequences of up to three bytes: case `idx` covers one first byte and length.
fn short(_: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let a = (idx & 255) as u8;
    cx.distinct(idx);
    if a == 0 {
        plain(cx, &[])?;
    }
    plain(cx, &[a])?;
    for b in 0..=255 {
        plain(cx, &[a, b])?;
        for c in 0..=255 {
            plain(cx, &[a, b, c])?;
        }
    }
    Ok(())
}

const EDGE: &[u8] = &[
    0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0,
    0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff,
];

/// All sequences of four and five boundary bytes: one case per pair of first bytes.
fn edges(_: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let n = EDGE.len();
    let (a, b) = (EDGE[idx as usize % n], EDGE[idx as usize / n % n]);
    cx.distinct(idx);
    for &c in EDGE {
        for &d in EDGE {
            plain(cx, &[a, b, c, d])?;
            for &e in EDGE {
                plain(cx, &[a, b, c, d, e])?;
            }
        }
    }
    Ok(())
}

/// All four-byte sequences with a lead byte of at least 0xe0 (thorough): one case per two bytes.
fn fours(_: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let (a, b) = (0xe0 + (idx >> 8) as u8 % 32, idx as u8);
    cx.distinct(idx);
    for c in 0..=255 {
        for d in 0..=255 {
            plain(cx, &[a, b, c, d])?;
        }
    }
    Ok(())
}

fn random_bytes(rng: &mut Rng) -> Vec<u8> {
    let mut out = Vec::new();
    let n = rng.small(60);
    for _ in 0..n {
        match rng.below(8) {
            0 => out.push(rng.u64() as u8),
            1 => out.push(*rng.pick(EDGE)),
            2 => {
                // A truncated or altered character
                let mut b = [0; 4];
                let c = gen::any_char(rng);
                let s = c.encode_utf8(&mut b).len();
                if rng.chance(1, 6) {
                    let cut = rng.range(1, s);
                    out.extend_from_slice(&b[..cut]);
                } else {
                    out.extend_from_slice(&b[..s]);
                }
            }
            _ => {
                let c = gen::any_char(rng);
                out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
            }
        }
    }
    if rng.bool() {
        // Make it valid up to a point
        while let (cs, Tail::Bad) = decode(&out) {
            let keep = cs.last().map_or(0, |c| c.1);
            out.remove(keep);
        }
    }
    out
}

fn chunked<'a>(rng: &mut Rng, b: &'a [u8]) -> Chunked<'a> {
    let k = rng.range(1, 5);
    let mut c = Chunked::new(b, (0..k).map(|_| rng.range(1, 5)).collect());
    c.interrupt = *rng.pick(&[0, 0, 2, 3, 5]);
    c
}

/// Longer sequences through split and interrupted sources, and through the character reader.
fn mixed(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let b = random_bytes(rng);
    cx.evals += 1;
    cx.distinct(rng::hash_bytes(&b));
    cx.sample(|| format!("{:02x?}", b));
    let mut src = chunked(rng, &b);
    quiet(|| check_fn(&b, &mut src)).map_err(|p| format!("panic {} on {:02x?}", p, b))??;
    let (chars, tail) = decode(&b);
    // Utf8Reader: the characters, then the end exactly if everything is valid
    let r = match Utf8Reader::new(chunked(rng, &b)) {
        Ok(r) => r,
        Err(e) => {
            ensure!(chars.is_empty() && tail == Tail::Bad, "{:02x?}: reader refused: {}", b, e);
            cx.count("refused_at_start", 1);
            return Ok(());
        }
    };
    ensure!(!(chars.is_empty() && tail == Tail::Bad), "{:02x?}: invalid first character accepted", b);
    let mut r = r;
    for (i, c) in chars.iter().enumerate() {
        ensure!(r.peek() == Some(c.0), "{:02x?}: peek gives {:?} at character {}, expected {:?}", b, r.peek(), i, c.0);
        match quiet(|| r.next()) {
            Ok(got) => ensure!(got == Some(c.0), "{:02x?}: reader gives {:?} at character {}, expected {:?}", b, got, i, c.0),
            Err(p) => {
                // How the failure surfaces is property C25's matter; here only that it is one
                ensure!(i + 1 == chars.len() && tail == Tail::Bad, "{:02x?}: panic {} at character {}", b, p, i);
                cx.count("stopped_by_panic", 1);
                return Ok(());
            }
        }
    }
    match quiet(|| (r.peek(), r.next(), r.next())) {
        Ok(end) => ensure!(tail == Tail::End && end == (None, None, None), "{:02x?}: {:?} after the valid prefix", b, end),
        Err(p) => ensure!(tail == Tail::Bad, "{:02x?}: panic {} at the end", b, p),
    }
    cx.count("reader_to_end", 1);
    Ok(())
}

/// My own encoder.
fn encode(c: char, out: &mut Vec<u8>) {
    let c = c as u32;
    match c {
        0..=0x7f => out.push(c as u8),
        0x80..=0x7ff => out.extend([0xc0 | (c >> 6) as u8, 0x80 | (c & 0x3f) as u8]),
        0x800..=0xffff => out.extend([0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 0x3f) as u8, 0x80 | (c & 0x3f) as u8]),
        _ => out.extend([0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 0x3f) as u8, 0x80 | (c >> 6 & 0x3f) as u8, 0x80 | (c & 0x3f) as u8]),
    }
}

/// A writer with only the required method: exercises the default `write_str`.
#[derive(Default)]
struct Chars(Vec<char>);
impl TextWriter for Chars {
    type Error = std::convert::Infallible;
    fn write_char(&mut self, ch: char) -> Result<(), Self::Error> {
        self.0.push(ch);
        Ok(())
    }
}

/// Every scalar value, written and read: one case per block of 4096.
fn scalars(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let base = (idx as u32 % 0x110) << 12;
    cx.distinct(base as u64);
    let mut want = Vec::new();
    let mut w = Utf8Writer::new(Vec::new());
    let mut all = String::new();
    for c in base..base + 0x1000 {
        if let Some(c) = char::from_u32(c) {
            cx.evals += 1;
            cx.count("scalars", 1);
            let mut one = Vec::new();
            encode(c, &mut one);
            let mut w1 = Utf8Writer::new(Vec::new());
            w1.write_char(c).map_err(|e| e.to_string())?;
            let got = w1.into_inner();
            ensure!(got == one, "{:?} written as {:02x?}, expected {:02x?}", c, got, one);
            ensure!(read_utf8(&mut &one[..]).ok() == Some(Some(c)), "{:?}: not read back from {:02x?}", c, one);
            want.extend(one);
            w.write_char(c).map_err(|e| e.to_string())?;
            all.push(c);
        }
    }
    ensure!(w.into_inner() == want, "block {:x}: characters written differ", base);
    let mut w = Utf8Writer::new(Sink::new(vec![rng.range(1, 9)]));
    w.write_str(&all).map_err(|e| e.to_string())?;
    let got = w.into_inner().data.borrow().clone();
    ensure!(got == want, "block {:x}: string written differs", base);
    Ok(())
}

/// Mixed writes into sinks that take small pieces and interrupt; and the other writers.
fn writes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    cx.evals += 1;
    let mut want: Vec<char> = Vec::new();
    let mut bytes = Vec::new();
    let mut sink = Sink::new((0..rng.range(1, 4)).map(|_| rng.range(1, 6)).collect());
    sink.interrupt = *rng.pick(&[0, 2, 3]);
    let data = sink.data.clone();
    let mut w = Utf8Writer::new(sink);
    let mut s = String::new();
    let mut cs = Chars::default();
    fn through<T: TextWriter>(w: &mut T, piece: &str, by_char: bool, by_ref: bool) -> Result<(), String> {
        let mut w2 = w;
        if by_ref {
            let r: &mut &mut T = &mut w2;
            return if by_char {
                piece.chars().try_for_each(|c| r.write_char(c)).map_err(|e| e.to_string())
            } else {
                r.write_str(piece).map_err(|e| e.to_string())
            };
        }
        if by_char {
            piece.chars().try_for_each(|c| w2.write_char(c)).map_err(|e| e.to_string())
        } else {
            w2.write_str(piece).map_err(|e| e.to_string())
        }
    }
    for _ in 0..rng.range(1, 10) {
        let piece = gen::string(rng, false);
        let (a, b) = (rng.bool(), rng.bool());
        through(&mut w, &piece, a, b)?;
        through(&mut s, &piece, a, b)?;
        through(&mut cs, &piece, a, b)?;
        for c in piece.chars() {
            want.push(c);
            encode(c, &mut bytes);
        }
        ensure!(*data.borrow() == bytes, "sink holds {:02x?} after writing {:?}", data.borrow(), want);
    }
    cx.distinct(rng::hash_bytes(&bytes));
    cx.count("written_strings", 1);
    ensure!(s.as_bytes() == bytes, "string writer holds {:?}, expected {:?}", s, want);
    ensure!(cs.0 == want, "default write_str passed {:?}, expected {:?}", cs.0, want);
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C11",
        level: "exploration",
        rule: "all byte sequences of up to three bytes, all of four and five boundary bytes and all of four with a lead byte of at least 0xe0 against Table 3-7 of the Unicode standard, with the bytes taken from the source counted; random longer ones through split, interrupted sources and through Utf8Reader; every scalar value written and read; random writes by character, string and reference into partial sinks; distinct by sequence or block",
        assumptions: &["how an invalid sequence surfaces from Utf8Reader::next is judged by C25"],
        phases: vec![
            Phase { name: "short", quick: 256, thorough: 256, f: short },
            Phase { name: "edges", quick: 33 * 33, thorough: 33 * 33, f: edges },
            Phase { name: "fours", quick: 32 * 256, thorough: 32 * 256, f: fours },
            Phase { name: "scalars", quick: 0x110, thorough: 0x110, f: scalars },
            Phase { name: "mixed", quick: 600000, thorough: 0, f: mixed },
            Phase { name: "writes", quick: 300000, thorough: 0, f: writes },
        ],
        floors: &[("valid_sequences", 100000), ("invalid_sequences", 100000), ("scalars", 1112064), ("written_strings", 1000)],
        hang_cpu_s: 30,
    });
}
