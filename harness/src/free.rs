//! Free walks: legal sequences of deserializer calls over any text, without a model, guided only
//! by what the deserializer answers. The events seen can be logged for comparison.
use crate::walk::{intern, TD};
use crate::Rng;
use serdere::{Deserializer, Outliner, TextReader, Value};
use serdere_json::*;
use std::fmt::Write;

pub struct Free {
    pub rng: Rng,
    /// Events, if wanted.
    pub log: Option<String>,
    /// Number of calls made.
    pub calls: u64,
    /// Keys to ask for.
    pub keys: Vec<String>,
    /// Percentage of values skipped.
    pub skip: usize,
    /// Percentage of reads as a type that may not fit.
    pub wrong: usize,
    /// Percentage of objects read out of order.
    pub shuffle: usize,
    pub max_depth: usize,
    /// Raise an error through the deserializer at the first value after this many events.
    pub stop_at: u64,
}

type E<R> = DeserializeError<<R as TextReader>::Position>;

impl Free {
    pub fn new(rng: Rng) -> Self {
        Free { rng, log: None, calls: 0, keys: vec![], skip: 10, wrong: 0, shuffle: 60, max_depth: 200, stop_at: u64::MAX }
    }
    /// Collects strings of the text that may be keys.
    pub fn keys_of(text: &str) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for (a, b) in crate::refjson::tokens(text) {
            if text.as_bytes()[a] == b'"' && b > a + 1 {
                if let Ok(crate::JNode { kind: crate::JKind::Str(s), .. }) = crate::refjson::parse(&text[a..b], false) {
                    v.push(s);
                }
            }
            if v.len() > 40 {
                break;
            }
        }
        v
    }
    /// May some object of this (possibly malformed) text have two equal keys?
    pub fn repeated_keys(text: &str) -> bool {
        let toks = crate::refjson::tokens(text);
        let mut stack: Vec<std::collections::HashSet<String>> = vec![Default::default()];
        for (i, (a, b)) in toks.iter().enumerate() {
            match text.as_bytes()[*a] {
                b'{' | b'[' => stack.push(Default::default()),
                b'}' | b']' if stack.len() > 1 => {
                    stack.pop();
                }
                b'"' if toks.get(i + 1).map(|t| text.as_bytes()[t.0] == b':').unwrap_or(false) => {
                    let k = match crate::refjson::parse(&text[*a..*b], false) {
                        Ok(crate::JNode { kind: crate::JKind::Str(s), .. }) => s,
                        _ => text[*a..*b].to_string(),
                    };
                    if !stack.last_mut().unwrap().insert(k) {
                        return true;
                    }
                }
                _ => (),
            }
        }
        false
    }
    fn ev(&mut self, f: impl FnOnce() -> String) {
        self.calls += 1;
        if let Some(l) = &mut self.log {
            let s = f();
            let _ = write!(l, "{};", s);
        }
    }
    fn key(&mut self) -> String {
        if self.keys.is_empty() || self.rng.chance(1, 4) {
            crate::gen::key(&mut self.rng)
        } else {
            self.rng.pick(&self.keys).clone()
        }
    }

    /// Consumes the whole document.
    pub fn doc<R: TextReader>(&mut self, reader: R, comments: bool) -> Result<(), E<R>> {
        let cfg = if comments { TextDeserializerConfig::permissive() } else { TextDeserializerConfig::strict() };
        let mut d = TextDeserializer::new(cfg, reader)?;
        self.val(&mut d, 0)?;
        d.close()
    }

    fn wrong_read<R: TextReader>(&mut self, d: &mut TD<R>) -> Result<(), E<R>> {
        macro_rules! g {
            ($m:ident) => {{
                let x = d.$m()?;
                self.ev(|| format!("{} {:?}", stringify!($m), x));
            }};
        }
        macro_rules! n {
            ($t:ty) => {{
                let x = d.read_number::<$t>()?;
                self.ev(|| format!("num<{}> {:?}", stringify!($t), x));
            }};
        }
        match self.rng.below(20) {
            0 => g!(get_bool),
            1 => g!(get_u8),
            2 => g!(get_i8),
            3 => g!(get_u16),
            4 => g!(get_i16),
            5 => g!(get_u32),
            6 => g!(get_i32),
            7 => g!(get_u64),
            8 => g!(get_i64),
            9 => g!(get_f32),
            10 => g!(get_f64),
            11 => g!(get_char),
            12 => n!(u128),
            13 => n!(i128),
            14 => {
                let s = d.read_str()?.into_owned();
                self.ev(|| format!("str {:?}", s));
            }
            15 => {
                d.pop_null()?;
                self.ev(|| "pop_null".into());
            }
            16 => {
                let v: Vec<u8> = Value::with(d, |v| v.get())?;
                self.ev(|| format!("vec {:?}", v));
            }
            17 => {
                let v: Option<crate::types::Shape> = Value::with(d, |v| v.get())?;
                self.ev(|| format!("shape {:?}", v));
            }
            18 => {
                let v: crate::types::Defaults = Value::with(d, |v| v.get())?;
                self.ev(|| format!("defaults {:?}", v));
            }
            _ => {
                let v: Option<Option<(u8, String)>> = Value::with(d, |v| v.get())?;
                self.ev(|| format!("opt {:?}", v));
            }
        }
        Ok(())
    }

    pub fn val<R: TextReader>(&mut self, d: &mut TD<R>, depth: usize) -> Result<(), E<R>> {
        if self.calls >= self.stop_at {
            return Err(d.error("probe".into()));
        }
        let ty = d.peek_value_type();
        self.ev(|| format!("{:?}", ty));
        if depth > self.max_depth || self.rng.chance(self.skip, 100) {
            d.skip_value()?;
            self.ev(|| "skipped".into());
            return Ok(());
        }
        if self.rng.chance(self.wrong, 100) {
            return self.wrong_read(d);
        }
        match ty {
            ValueType::Null => {
                d.pop_null()?;
            }
            ValueType::Bool => {
                let b = d.get_bool()?;
                self.ev(|| format!("{}", b));
            }
            ValueType::Number => {
                if self.rng.chance(1, 3) {
                    let x = d.get_f32()?;
                    self.ev(|| format!("{:?}", x.to_bits()));
                } else {
                    let x = d.get_f64()?;
                    self.ev(|| format!("{:?}", x.to_bits()));
                }
            }
            ValueType::String => {
                if self.rng.bool() {
                    let s = d.read_str()?.into_owned();
                    self.ev(|| format!("{:?}", s));
                } else {
                    d.open_str()?;
                    self.open_str(d)?;
                }
            }
            ValueType::Array => {
                let len = d.open_list()?;
                self.ev(|| format!("len {:?}", len));
                loop {
                    let more = d.next_item()?;
                    self.ev(|| format!("more {}", more));
                    if !more {
                        break;
                    }
                    self.val(d, depth + 1)?;
                }
            }
            ValueType::Object => self.object(d, depth)?,
        }
        Ok(())
    }

    fn open_str<R: TextReader>(&mut self, d: &mut TD<R>) -> Result<(), E<R>> {
        for _ in 0..self.rng.below(4) {
            let c = d.next_char()?;
            self.ev(|| format!("{:?}", c));
            if c.is_none() {
                return Ok(());
            }
        }
        match self.rng.below(3) {
            0 => {
                let s = d.flush_str()?.into_owned();
                self.ev(|| format!("flush {:?}", s));
            }
            1 => {
                d.skip_str()?;
                self.ev(|| "skip_str".into());
            }
            _ => loop {
                let c = d.next_char()?;
                self.ev(|| format!("{:?}", c));
                if c.is_none() {
                    break;
                }
            },
        }
        Ok(())
    }

    fn object<R: TextReader>(&mut self, d: &mut TD<R>, depth: usize) -> Result<(), E<R>> {
        d.open_object()?;
        let shuffle = self.rng.chance(self.shuffle, 100);
        if !shuffle {
            loop {
                let more = d.next_entry()?;
                self.ev(|| format!("entry {}", more));
                if !more {
                    return Ok(());
                }
                self.open_str(d)?;
                self.val(d, depth + 1)?;
            }
        }
        let mut names = 0;
        loop {
            match self.rng.below(10) {
                0..=4 if names < 12 => {
                    names += 1;
                    let k = self.key();
                    let found = d.try_push_entry(&k)?;
                    self.ev(|| format!("try {:?} {}", k, found));
                    if found {
                        self.val(d, depth + 1)?;
                    }
                }
                5 if names < 12 => {
                    names += 1;
                    let k = self.key();
                    d.push_field(intern(&k))?;
                    let null = d.peek_value_type() == ValueType::Null;
                    self.ev(|| format!("field {:?} {}", k, null));
                    if null {
                        // Either a null or a missing entry
                        let n = d.check_null()?;
                        self.ev(|| format!("null {}", n));
                        if !n {
                            self.val(d, depth + 1)?;
                        }
                    } else {
                        self.val(d, depth + 1)?;
                    }
                }
                6 | 7 => {
                    let more = d.next_entry()?;
                    self.ev(|| format!("entry {}", more));
                    if !more {
                        return Ok(());
                    }
                    self.open_str(d)?;
                    self.val(d, depth + 1)?;
                }
                8 if self.rng.chance(1, 3) => {
                    self.ev(|| "skip_object".into());
                    return d.skip_object();
                }
                9 if self.rng.chance(1, 3) => {
                    self.ev(|| "close_struct".into());
                    return d.close_struct();
                }
                _ => (),
            }
        }
    }
}
