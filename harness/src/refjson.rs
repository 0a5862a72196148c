//! Independent reference parser for RFC 8259 JSON (optionally with JS comments in whitespace).

#[derive(Debug, Clone, PartialEq)]
pub struct JNode {
    /// Byte offsets of the value in the text.
    pub start: usize,
    pub end: usize,
    pub kind: JKind,
}

#[derive(Debug, Clone, PartialEq)]
pub enum JKind {
    Null,
    Bool(bool),
    /// The literal text of the number.
    Num(String),
    Str(String),
    Arr(Vec<JNode>),
    Obj(Vec<JEntry>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct JEntry {
    pub key: String,
    pub key_start: usize,
    pub value: JNode,
}

/// Why a text is not a document.
#[derive(Debug, Clone, PartialEq)]
pub struct SyntaxErr {
    /// Offset of the first character that cannot continue any valid document (the text's length
    /// if the text is only incomplete).
    pub viable: usize,
    /// Start of the token that contains that character (or of an incomplete token).
    pub token_start: usize,
    pub eof: bool,
}

struct P<'a> {
    text: &'a str,
    pos: usize,
    comments: bool,
    depth: usize,
    max_depth: usize,
}

type R<T> = Result<T, SyntaxErr>;

pub const MAX_DEPTH: usize = 3000;

pub fn parse(text: &str, comments: bool) -> R<JNode> {
    parse_to_depth(text, comments, MAX_DEPTH)
}

/// For a caller that has a large stack.
pub fn parse_deep(text: &str, comments: bool) -> R<JNode> {
    parse_to_depth(text, comments, 200_000)
}

fn parse_to_depth(text: &str, comments: bool, max_depth: usize) -> R<JNode> {
    let mut p = P { text, pos: 0, comments, depth: 0, max_depth };
    p.ws()?;
    let v = p.value()?;
    p.ws()?;
    if p.pos < text.len() {
        return Err(p.bad(v_token_start(&v, p.pos)));
    }
    Ok(v)
}

/// A character straight after a number is regarded as belonging to the number's token.
fn v_token_start(v: &JNode, pos: usize) -> usize {
    if v.end == pos {
        match v.kind {
            JKind::Num(_) | JKind::Null | JKind::Bool(_) => v.start,
            _ => pos,
        }
    } else {
        pos
    }
}

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.text[self.pos..].chars().next()
    }
    fn adv(&mut self, c: char) {
        self.pos += c.len_utf8();
    }
    /// The error for the character at the current position (or end of input there).
    fn bad(&self, token_start: usize) -> SyntaxErr {
        SyntaxErr { viable: self.pos, token_start, eof: self.pos >= self.text.len() }
    }
    fn ws(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(' ' | '\n' | '\r' | '\t') => self.pos += 1,
                Some('/') if self.comments => {
                    let start = self.pos;
                    self.pos += 1;
                    match self.peek() {
                        Some('/') => {
                            self.pos += 1;
                            while let Some(c) = self.peek() {
                                self.adv(c);
                                if c == '\n' {
                                    break;
                                }
                            }
                        }
                        Some('*') => {
                            self.pos += 1;
                            match self.text[self.pos..].find("*/") {
                                Some(i) => self.pos += i + 2,
                                None => {
                                    self.pos = self.text.len();
                                    return Err(self.bad(start));
                                }
                            }
                        }
                        _ => return Err(self.bad(start)),
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn value(&mut self) -> R<JNode> {
        let start = self.pos;
        let kind = match self.peek() {
            Some('n') => {
                self.lit("null", start)?;
                JKind::Null
            }
            Some('t') => {
                self.lit("true", start)?;
                JKind::Bool(true)
            }
            Some('f') => {
                self.lit("false", start)?;
                JKind::Bool(false)
            }
            Some('"') => JKind::Str(self.string()?),
            Some('-' | '0'..='9') => self.number()?,
            Some('[') => {
                self.pos += 1;
                self.depth += 1;
                assert!(self.depth < self.max_depth, "reference parser depth");
                let mut items = Vec::new();
                self.ws()?;
                if self.peek() == Some(']') {
                    self.pos += 1;
                } else {
                    loop {
                        self.ws()?;
                        let v = self.value()?;
                        let vend = v_token_start(&v, v.end);
                        let e = v.end;
                        items.push(v);
                        self.ws()?;
                        match self.peek() {
                            Some(',') => self.pos += 1,
                            Some(']') => {
                                self.pos += 1;
                                break;
                            }
                            _ => return Err(self.bad(if e == self.pos { vend } else { self.pos })),
                        }
                    }
                }
                self.depth -= 1;
                JKind::Arr(items)
            }
            Some('{') => {
                self.pos += 1;
                self.depth += 1;
                assert!(self.depth < self.max_depth, "reference parser depth");
                let mut entries = Vec::new();
                self.ws()?;
                if self.peek() == Some('}') {
                    self.pos += 1;
                } else {
                    loop {
                        self.ws()?;
                        let key_start = self.pos;
                        if self.peek() != Some('"') {
                            return Err(self.bad(self.pos));
                        }
                        let key = self.string()?;
                        self.ws()?;
                        if self.peek() != Some(':') {
                            return Err(self.bad(self.pos));
                        }
                        self.pos += 1;
                        self.ws()?;
                        let v = self.value()?;
                        let vend = v_token_start(&v, v.end);
                        let e = v.end;
                        entries.push(JEntry { key, key_start, value: v });
                        self.ws()?;
                        match self.peek() {
                            Some(',') => self.pos += 1,
                            Some('}') => {
                                self.pos += 1;
                                break;
                            }
                            _ => return Err(self.bad(if e == self.pos { vend } else { self.pos })),
                        }
                    }
                }
                self.depth -= 1;
                JKind::Obj(entries)
            }
            _ => return Err(self.bad(start)),
        };
        Ok(JNode { start, end: self.pos, kind })
    }
    fn lit(&mut self, l: &str, start: usize) -> R<()> {
        for c in l.chars() {
            if self.peek() != Some(c) {
                return Err(self.bad(start));
            }
            self.pos += 1;
        }
        Ok(())
    }
    fn digits(&mut self, start: usize) -> R<()> {
        if !matches!(self.peek(), Some('0'..='9')) {
            return Err(self.bad(start));
        }
        while matches!(self.peek(), Some('0'..='9')) {
            self.pos += 1;
        }
        Ok(())
    }
    fn number(&mut self) -> R<JKind> {
        let start = self.pos;
        if self.peek() == Some('-') {
            self.pos += 1;
        }
        if self.peek() == Some('0') {
            self.pos += 1;
        } else {
            self.digits(start)?;
        }
        if self.peek() == Some('.') {
            self.pos += 1;
            self.digits(start)?;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.pos += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.pos += 1;
            }
            self.digits(start)?;
        }
        Ok(JKind::Num(self.text[start..self.pos].to_string()))
    }
    /// The four digits of an escape. One that cannot stand there (an unpaired surrogate) is only
    /// known to be wrong when it is complete: the escape counts as one unit.
    fn hex4(&mut self, start: usize, ok: impl Fn(u32) -> bool) -> R<u32> {
        let mut x = 0;
        for _ in 0..4 {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => {
                    self.pos += 1;
                    x = x << 4 | d;
                }
                _ => return Err(self.bad(start)),
            }
        }
        if ok(x) { Ok(x) } else { Err(SyntaxErr { eof: false, ..self.bad(start) }) }
    }
    fn string(&mut self) -> R<String> {
        let start = self.pos;
        self.pos += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return Err(self.bad(start)),
                Some('"') => {
                    self.pos += 1;
                    return Ok(out);
                }
                Some(c) if (c as u32) < 0x20 => return Err(self.bad(start)),
                Some('\\') => {
                    self.pos += 1;
                    match self.peek() {
                        Some(c @ ('"' | '\\' | '/')) => {
                            out.push(c);
                            self.pos += 1;
                        }
                        Some('b') => {
                            out.push('\u{8}');
                            self.pos += 1;
                        }
                        Some('f') => {
                            out.push('\u{c}');
                            self.pos += 1;
                        }
                        Some('n') => {
                            out.push('\n');
                            self.pos += 1;
                        }
                        Some('r') => {
                            out.push('\r');
                            self.pos += 1;
                        }
                        Some('t') => {
                            out.push('\t');
                            self.pos += 1;
                        }
                        Some('u') => {
                            self.pos += 1;
                            let hi = self.hex4(start, |x| !(0xDC00..0xE000).contains(&x))?;
                            if (0xD800..0xDC00).contains(&hi) {
                                for ch in ['\\', 'u'] {
                                    if self.peek() != Some(ch) {
                                        return Err(self.bad(start));
                                    }
                                    self.pos += 1;
                                }
                                let lo = self.hex4(start, |x| (0xDC00..0xE000).contains(&x))?;
                                out.push(char::from_u32(0x10000 + ((hi & 0x3FF) << 10) + (lo & 0x3FF)).unwrap());
                            } else {
                                out.push(char::from_u32(hi).unwrap());
                            }
                        }
                        _ => return Err(self.bad(start)),
                    }
                }
                Some(c) => {
                    out.push(c);
                    self.adv(c);
                }
            }
        }
    }
}

impl JNode {
    /// Number of values in this tree.
    pub fn count(&self) -> usize {
        1 + match &self.kind {
            JKind::Arr(xs) => xs.iter().map(|x| x.count()).sum(),
            JKind::Obj(es) => es.iter().map(|e| e.value.count()).sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        match &self.kind {
            JKind::Arr(xs) => 1 + xs.iter().map(|x| x.depth()).max().unwrap_or(0),
            JKind::Obj(es) => 1 + es.iter().map(|e| e.value.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Structural equality (ignoring spans), numbers by literal.
    pub fn same(&self, o: &JNode) -> bool {
        match (&self.kind, &o.kind) {
            (JKind::Arr(a), JKind::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (JKind::Obj(a), JKind::Obj(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.key == y.key && x.value.same(&y.value))
            }
            (a, b) => a == b,
        }
    }
    /// Does some object repeat a key with values by which the entries cannot be told apart?
    pub fn ambiguous(&self) -> bool {
        self.all().iter().any(|n| {
            let JKind::Obj(es) = &n.kind else { return false };
            let mut m: std::collections::HashMap<&str, Vec<&JNode>> = Default::default();
            for e in es {
                m.entry(&e.key).or_default().push(&e.value);
            }
            m.values().any(|vs| {
                vs.len() > 1 && {
                    let mut seen = std::collections::HashSet::new();
                    !vs.iter().all(|v| matches!(&v.kind, JKind::Num(s) if s.parse::<u32>().is_ok() && seen.insert(s)))
                }
            })
        })
    }
    /// All nodes in document order.
    pub fn all(&self) -> Vec<&JNode> {
        fn go<'a>(n: &'a JNode, out: &mut Vec<&'a JNode>) {
            out.push(n);
            match &n.kind {
                JKind::Arr(xs) => xs.iter().for_each(|x| go(x, out)),
                JKind::Obj(es) => es.iter().for_each(|e| go(&e.value, out)),
                _ => (),
            }
        }
        let mut v = Vec::new();
        go(self, &mut v);
        v
    }
}

/// Splits valid JSON text (without comments) into tokens: (start, end).
pub fn tokens(text: &str) -> Vec<(usize, usize)> {
    let b = text.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        match b[i] {
            b' ' | b'\n' | b'\r' | b'\t' => i += 1,
            b'{' | b'}' | b'[' | b']' | b',' | b':' => {
                out.push((i, i + 1));
                i += 1;
            }
            b'"' => {
                let s = i;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i = (i + 1).min(b.len());
                out.push((s, i));
            }
            _ => {
                let s = i;
                while i < b.len() && !b" \n\r\t{}[],:\"".contains(&b[i]) {
                    i += 1;
                }
                out.push((s, i));
            }
        }
    }
    out
}

/// Line/column of a byte offset as [`serdere::LineColumnPosition`] counts them.
pub fn line_col(text: &str, off: usize) -> (usize, usize) {
    let (mut l, mut c) = (0, 0);
    for ch in text[..off].chars() {
        match ch {
            '\n' => {
                l += 1;
                c = 0;
            }
            '\t' => c += 4,
            '\r' => (),
            _ => c += 1,
        }
    }
    (l, c)
}
