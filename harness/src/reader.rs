//! Instrumented readers and writers.
use serdere::{LineColumnPosition, StrPosition, TextReader};
use std::cell::Cell;
use std::io::{self, Read, Write};
use std::rc::Rc;

/// A third-party `TextReader` over a string whose positions are byte offsets, and which counts the
/// calls made to it and the input consumed.
pub struct MonReader<'a> {
    pub text: &'a str,
    pub pos: Rc<Cell<usize>>,
    pub nexts: Rc<Cell<u64>>,
    pub peeks: Rc<Cell<u64>>,
}

impl<'a> MonReader<'a> {
    pub fn new(text: &'a str) -> Self {
        MonReader { text, pos: Default::default(), nexts: Default::default(), peeks: Default::default() }
    }
}

impl TextReader for MonReader<'_> {
    type Position = usize;
    fn next(&mut self) -> Option<char> {
        self.nexts.set(self.nexts.get() + 1);
        let c = self.text[self.pos.get()..].chars().next()?;
        self.pos.set(self.pos.get() + c.len_utf8());
        Some(c)
    }
    fn peek(&self) -> Option<char> {
        self.peeks.set(self.peeks.get() + 1);
        self.text[self.pos.get()..].chars().next()
    }
    fn position(&self) -> usize {
        self.pos.get()
    }
}

/// Converts a `StrPosition` into a byte offset in `text`, using only its ordering.
pub fn str_offset(text: &str, pos: &StrPosition) -> Option<usize> {
    let b: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    let (mut lo, mut hi) = (0, b.len());
    while lo < hi {
        let mid = (lo + hi) / 2;
        let p = (&text[b[mid]..]).position();
        match pos.cmp(&p) {
            std::cmp::Ordering::Equal => return if *pos == p { Some(b[mid]) } else { None },
            std::cmp::Ordering::Less => hi = mid,
            std::cmp::Ordering::Greater => lo = mid + 1,
        }
    }
    None
}

pub fn lc(text: &str, off: usize) -> LineColumnPosition {
    let (line, column) = crate::refjson::line_col(text, off);
    LineColumnPosition { line, column }
}

/// A byte source that delivers data in the given chunk sizes (cyclically), optionally reporting
/// `Interrupted` before some reads, and optionally failing at a given byte offset.
pub struct Chunked<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunks: Vec<usize>,
    pub turn: usize,
    /// Every how many calls to report `Interrupted` (0: never).
    pub interrupt: usize,
    pub calls: usize,
    /// Fail with this error once this many bytes have been delivered.
    pub fail_at: Option<(usize, FaultKind)>,
    pub failed: Rc<Cell<bool>>,
    /// How many reads were made after the failure was reported.
    pub after_fail: Rc<Cell<usize>>,
    /// Whether the fault keeps being reported, or is followed by end-of-file / further data.
    pub after: After,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum After {
    Sticky,
    Eof,
    Continue,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct FaultKind(pub io::ErrorKind);

pub const INJECTED: &str = "injected-fault-7f3a";

impl<'a> Chunked<'a> {
    pub fn new(data: &'a [u8], chunks: Vec<usize>) -> Self {
        Chunked {
            data,
            pos: 0,
            chunks,
            turn: 0,
            interrupt: 0,
            calls: 0,
            fail_at: None,
            failed: Default::default(),
            after_fail: Default::default(),
            after: After::Sticky,
        }
    }
}

impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut limit = self.data.len();
        if let Some((at, kind)) = self.fail_at {
            limit = limit.min(at);
            if self.pos >= at {
                if !self.failed.get() {
                    self.failed.set(true);
                    return Err(io::Error::new(kind.0, INJECTED));
                }
                self.after_fail.set(self.after_fail.get() + 1);
                match self.after {
                    After::Sticky => return Err(io::Error::new(kind.0, INJECTED)),
                    After::Eof => return Ok(0),
                    After::Continue => limit = self.data.len(),
                }
            }
        }
        let want = if self.chunks.is_empty() { buf.len() } else { self.chunks[self.turn % self.chunks.len()].max(1) };
        self.turn += 1;
        let n = want.min(buf.len()).min(limit - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A byte sink which accepts data in arbitrary pieces and can fail after a number of bytes/calls.
pub struct Sink {
    pub data: Rc<std::cell::RefCell<Vec<u8>>>,
    pub pieces: Vec<usize>,
    pub calls: usize,
    pub interrupt: usize,
    /// Fail on the first write call made once this many bytes were accepted.
    pub fail_at: Option<usize>,
    pub fail_kind: io::ErrorKind,
    /// Report failure as Ok(0) instead of an error.
    pub fail_zero: bool,
    pub failed: Rc<Cell<bool>>,
    pub after_fail: Rc<Cell<usize>>,
}

impl Sink {
    pub fn new(pieces: Vec<usize>) -> Self {
        Sink {
            data: Default::default(),
            pieces,
            calls: 0,
            interrupt: 0,
            fail_at: None,
            fail_kind: io::ErrorKind::Other,
            fail_zero: false,
            failed: Default::default(),
            after_fail: Default::default(),
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed.get() {
            self.after_fail.set(self.after_fail.get() + 1);
            // A sink that "recovers": accepts the data, so that writing on after the failure shows
            self.data.borrow_mut().extend_from_slice(buf);
            return Ok(buf.len());
        }
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = if self.pieces.is_empty() {
            buf.len()
        } else {
            self.pieces[self.calls % self.pieces.len()].max(1).min(buf.len())
        };
        if let Some(at) = self.fail_at {
            let have = self.data.borrow().len();
            if have >= at {
                self.failed.set(true);
                return if self.fail_zero { Ok(0) } else { Err(io::Error::new(self.fail_kind, INJECTED)) };
            }
            n = n.min(at - have);
        }
        self.data.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
