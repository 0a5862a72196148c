//! An in-memory format backend that records every call and checks that it is legal for the
//! current stack (a protocol automaton). Illegal calls panic with a message starting `PROTOCOL`.
use serdere::{Deserializer, NameMap, Outliner, Serializer};
use serdere_json::{CollectionType, JsonDeserializer, JsonOutliner, JsonSerializer, ValueType};
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Caps {
    /// Does the format have `null`?
    pub null: bool,
    /// Does reading a list tell its length?
    pub len: bool,
    /// Are tags resolved through their names?
    pub by_name: bool,
    /// Must everything be read exactly as it was written (a format that doesn't describe itself)?
    pub strict: bool,
    /// Are mismatches with the data errors (data of unknown origin)?
    pub lax: bool,
}

impl Caps {
    pub fn all(i: usize) -> Caps {
        Caps { null: i & 1 != 0, len: i & 2 != 0, by_name: i & 4 != 0, strict: true, lax: false }
    }
}

/// The recorded data.
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Null,
    Bool(bool),
    Int(&'static str, i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Struct(Option<&'static str>, Vec<(&'static str, Rc<Node>)>),
    Tuple(Option<&'static str>, Vec<Rc<Node>>),
    List(Vec<Rc<Node>>),
    Stream(Vec<Rc<Node>>),
    Tag { max: usize, index: usize, name: Option<&'static str> },
    Object(Vec<(String, Rc<Node>)>),
}

#[derive(Debug)]
pub struct RecErr(pub String);
impl std::fmt::Display for RecErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecErr {}
type R<T> = Result<T, RecErr>;

fn bad(what: &str, stack: &dyn std::fmt::Debug) -> ! {
    let s = format!("{:?}", stack);
    panic!("PROTOCOL: {} with stack {}", what, if s.len() > 400 { &s[s.char_indices().rev().nth(399).map_or(0, |x| x.0)..] } else { &s })
}

#[derive(Debug)]
enum SF {
    Value,
    Str(String),
    /// The key of an added entry.
    Key(String),
    Struct(Option<&'static str>, Vec<(&'static str, Rc<Node>)>, Option<&'static str>),
    Tuple(Option<&'static str>, Vec<Rc<Node>>),
    List(Option<usize>, Vec<Rc<Node>>),
    Object(Vec<(String, Rc<Node>)>, Option<String>),
}

/// Serializer half.
pub struct RecSer {
    pub caps: Caps,
    stack: Vec<SF>,
    root: Option<Node>,
    pub calls: usize,
    /// The call with this number fails.
    pub fail_at: Option<usize>,
    pub after_fail: usize,
}

impl RecSer {
    pub fn new(caps: Caps) -> RecSer {
        RecSer { caps, stack: vec![SF::Value], root: None, calls: 0, fail_at: None, after_fail: 0 }
    }
    /// The data, if it has been written completely.
    pub fn finish(self) -> Result<Node, String> {
        match (self.stack.is_empty(), self.root) {
            (true, Some(n)) => Ok(n),
            _ => Err(format!("the stack is left as {:?}", self.stack)),
        }
    }
    fn call(&mut self, _what: &str) -> R<()> {
        self.calls += 1;
        match self.fail_at {
            Some(k) if self.calls == k => return Err(RecErr(format!("injected failure at call {}", k))),
            Some(k) if self.calls > k => self.after_fail += 1,
            _ => {}
        }
        Ok(())
    }
    fn value(&mut self, what: &str) -> R<()> {
        match self.stack.last() {
            Some(SF::Value) => {}
            _ => bad(what, &self.stack),
        }
        self.call(what)?;
        self.stack.pop();
        Ok(())
    }
    fn give(&mut self, n: Node) {
        match self.stack.last_mut() {
            None => {
                if self.root.is_some() {
                    bad("second root value", &self.stack);
                }
                self.root = Some(n)
            }
            Some(SF::Struct(_, f, key)) => match key.take() {
                Some(k) => f.push((k, Rc::new(n))),
                None => bad("value without a field", &self.stack),
            },
            Some(SF::Tuple(_, x) | SF::List(_, x)) => x.push(Rc::new(n)),
            Some(SF::Object(f, key)) => match key.take() {
                Some(k) => f.push((k, Rc::new(n))),
                None => bad("value without an entry", &self.stack),
            },
            _ => bad("value given to no container", &self.stack),
        }
    }
    fn put(&mut self, what: &str, n: Node) -> R<()> {
        self.value(what)?;
        self.give(n);
        Ok(())
    }
}

impl Outliner for RecSer {
    type Error = RecErr;
    fn supports_null(&self) -> bool {
        self.caps.null
    }
    fn pop_null(&mut self) -> R<()> {
        if !self.caps.null {
            bad("pop_null without support for null", &self.stack);
        }
        self.put("pop_null", Node::Null)
    }
    fn open_str(&mut self) -> R<()> {
        self.value("open_str")?;
        self.stack.push(SF::Str(String::new()));
        Ok(())
    }
    fn close_str(&mut self) -> R<()> {
        if !matches!(self.stack.last(), Some(SF::Str(_) | SF::Key(_))) {
            bad("close_str", &self.stack);
        }
        self.call("close_str")?;
        match self.stack.pop() {
            Some(SF::Str(s)) => self.give(Node::Str(s)),
            Some(SF::Key(s)) => {
                let n = self.stack.len();
                if n < 2 || !matches!(self.stack[n - 1], SF::Value) {
                    bad("close_str of a key", &self.stack);
                }
                match &mut self.stack[n - 2] {
                    SF::Object(_, k @ None) => *k = Some(s),
                    _ => bad("close_str of a key", &self.stack),
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn open_struct(&mut self, name: Option<&'static str>) -> R<()> {
        self.value("open_struct")?;
        self.stack.push(SF::Struct(name, Vec::new(), None));
        Ok(())
    }
    fn push_field(&mut self, name: &'static str) -> R<()> {
        match self.stack.last() {
            Some(SF::Struct(_, f, None)) if self.caps.strict && f.iter().any(|x| x.0 == name) => bad(&format!("push_field {:?} for the second time", name), &self.stack),
            Some(SF::Struct(_, _, None)) => {}
            _ => bad("push_field", &self.stack),
        }
        self.call("push_field")?;
        if let Some(SF::Struct(_, _, k)) = self.stack.last_mut() {
            *k = Some(name);
        }
        self.stack.push(SF::Value);
        Ok(())
    }
    fn close_struct(&mut self) -> R<()> {
        if !matches!(self.stack.last(), Some(SF::Struct(_, _, None))) {
            bad("close_struct", &self.stack);
        }
        self.call("close_struct")?;
        if let Some(SF::Struct(n, f, _)) = self.stack.pop() {
            self.give(Node::Struct(n, f));
        }
        Ok(())
    }
    fn open_tuple(&mut self, name: Option<&'static str>) -> R<()> {
        self.value("open_tuple")?;
        self.stack.push(SF::Tuple(name, Vec::new()));
        Ok(())
    }
    fn push_element(&mut self) -> R<()> {
        if !matches!(self.stack.last(), Some(SF::Tuple(..))) {
            bad("push_element", &self.stack);
        }
        self.call("push_element")?;
        self.stack.push(SF::Value);
        Ok(())
    }
    fn close_tuple(&mut self) -> R<()> {
        if !matches!(self.stack.last(), Some(SF::Tuple(..))) {
            bad("close_tuple", &self.stack);
        }
        self.call("close_tuple")?;
        if let Some(SF::Tuple(n, x)) = self.stack.pop() {
            self.give(Node::Tuple(n, x));
        }
        Ok(())
    }
    fn push_item(&mut self) -> R<()> {
        match self.stack.last() {
            Some(SF::List(len, x)) if len.map_or(true, |l| x.len() < l) => {}
            _ => bad("push_item", &self.stack),
        }
        self.call("push_item")?;
        self.stack.push(SF::Value);
        Ok(())
    }
    fn close_list(&mut self) -> R<()> {
        match self.stack.last() {
            Some(SF::List(len, x)) if len.map_or(true, |l| x.len() == l) => {}
            _ => bad("close_list", &self.stack),
        }
        self.call("close_list")?;
        if let Some(SF::List(len, x)) = self.stack.pop() {
            self.give(if len.is_some() { Node::List(x) } else { Node::Stream(x) });
        }
        Ok(())
    }
}

macro_rules! ints {
    ($($put:ident $get:ident $t:ident)*) => {
        impl Serializer for RecSer {
            $(fn $put(&mut self, value: $t) -> R<()> {
                self.put(stringify!($put), Node::Int(stringify!($t), value as i128))
            })*
            fn put_bool(&mut self, value: bool) -> R<()> {
                self.put("put_bool", Node::Bool(value))
            }
            fn put_f32(&mut self, value: f32) -> R<()> {
                self.put("put_f32", Node::F32(value.to_bits()))
            }
            fn put_f64(&mut self, value: f64) -> R<()> {
                self.put("put_f64", Node::F64(value.to_bits()))
            }
            fn put_char(&mut self, value: char) -> R<()> {
                self.put("put_char", Node::Char(value))
            }
            fn append_char(&mut self, value: char) -> R<()> {
                if !matches!(self.stack.last(), Some(SF::Str(_) | SF::Key(_))) {
                    bad("append_char", &self.stack);
                }
                self.call("append_char")?;
                if let Some(SF::Str(s) | SF::Key(s)) = self.stack.last_mut() {
                    s.push(value);
                }
                Ok(())
            }
            fn put_tag(&mut self, max: usize, index: usize, name: Option<&'static str>) -> R<()> {
                if index > max {
                    bad(&format!("put_tag with index {} above {}", index, max), &self.stack);
                }
                self.put("put_tag", Node::Tag { max, index, name })
            }
            fn open_list_sized(&mut self, len: usize) -> R<()> {
                self.value("open_list_sized")?;
                self.stack.push(SF::List(Some(len), Vec::new()));
                Ok(())
            }
        }
        impl Deserializer for RecDe {
            $(fn $get(&mut self) -> R<$t> {
                let n = self.value(stringify!($get))?;
                match &*n {
                    Node::Int(k, v) if !self.caps.strict || *k == stringify!($t) => {
                        self.stack.pop();
                        $t::try_from(*v).map_err(|_| RecErr("overflow".into()))
                    }
                    _ => self.mismatch(stringify!($get), &n),
                }
            })*
            fn get_bool(&mut self) -> R<bool> {
                let n = self.value("get_bool")?;
                match &*n {
                    Node::Bool(v) => {
                        self.stack.pop();
                        Ok(*v)
                    }
                    _ => self.mismatch("get_bool", &n),
                }
            }
            fn get_f32(&mut self) -> R<f32> {
                let n = self.value("get_f32")?;
                let v = match &*n {
                    Node::F32(v) => f32::from_bits(*v),
                    Node::F64(v) if !self.caps.strict => f64::from_bits(*v) as f32,
                    Node::Int(_, v) if !self.caps.strict => *v as f32,
                    _ => return self.mismatch("get_f32", &n),
                };
                self.stack.pop();
                Ok(v)
            }
            fn get_f64(&mut self) -> R<f64> {
                let n = self.value("get_f64")?;
                let v = match &*n {
                    Node::F64(v) => f64::from_bits(*v),
                    Node::F32(v) if !self.caps.strict => f32::from_bits(*v) as f64,
                    Node::Int(_, v) if !self.caps.strict => *v as f64,
                    _ => return self.mismatch("get_f64", &n),
                };
                self.stack.pop();
                Ok(v)
            }
            fn get_char(&mut self) -> R<char> {
                let n = self.value("get_char")?;
                match &*n {
                    Node::Char(v) => {
                        self.stack.pop();
                        Ok(*v)
                    }
                    Node::Str(s) if !self.caps.strict && s.chars().count() == 1 => {
                        self.stack.pop();
                        Ok(s.chars().next().unwrap())
                    }
                    _ => self.mismatch("get_char", &n),
                }
            }
            fn next_char(&mut self) -> R<Option<char>> {
                let Some(DF::Str(s, i)) = self.stack.last() else { bad("next_char", &self.stack) };
                let r = s.get(*i).copied();
                self.call("next_char")?;
                match (self.stack.last_mut(), r) {
                    (Some(DF::Str(_, i)), Some(_)) => *i += 1,
                    _ => {
                        self.stack.pop();
                    }
                }
                Ok(r)
            }
            fn get_tag(&mut self, max_index: usize, names: &'static NameMap<usize>) -> R<usize> {
                let n = self.value("get_tag")?;
                match &*n {
                    Node::Tag { max, index, name } => {
                        if *max != max_index && self.caps.lax {
                            self.stack.pop();
                            return Err(RecErr("other tag".into()));
                        }
                        if *max != max_index {
                            bad(&format!("get_tag with maximum {} of a tag written with maximum {}", max_index, max), &self.stack);
                        }
                        self.stack.pop();
                        if let (true, Some(name)) = (self.caps.by_name, name) {
                            let mut l = names.lookup();
                            for c in name.chars() {
                                l.write_char(c);
                            }
                            match l.result() {
                                Some(i) if i == index => {}
                                _ if self.caps.lax => return Err(RecErr("other tag".into())),
                                r => bad(&format!("tag {:?} with index {} has index {:?} in the reader's table", name, index, r), &self.stack),
                            }
                        }
                        Ok(*index)
                    }
                    Node::Str(_) | Node::Int(..) if !self.caps.strict => serdere_json::get_tag(self, max_index, names),
                    _ => self.mismatch("get_tag", &n),
                }
            }
            fn check_null(&mut self) -> R<bool> {
                if !self.caps.null {
                    bad("check_null without support for null", &self.stack);
                }
                match self.stack.last() {
                    Some(DF::Value(n)) => {
                        let n = n.clone();
                        self.call("check_null")?;
                        if *n == Node::Null {
                            self.stack.pop();
                        }
                        Ok(*n == Node::Null)
                    }
                    _ => bad("check_null", &self.stack),
                }
            }
            fn open_list(&mut self) -> R<Option<usize>> {
                let n = self.value("open_list")?;
                match &*n {
                    Node::List(x) => {
                        let len = if self.caps.len { Some(x.len()) } else { None };
                        self.swap(DF::Items(n.clone(), 0, 'l'));
                        Ok(len)
                    }
                    Node::Stream(_) => {
                        self.swap(DF::Items(n.clone(), 0, 'l'));
                        Ok(None)
                    }
                    _ => self.mismatch("open_list", &n),
                }
            }
            fn next_item(&mut self) -> R<bool> {
                let Some(DF::Items(n, i, 'l')) = self.stack.last() else { bad("next_item", &self.stack) };
                let x = n.items().get(*i).cloned();
                self.call("next_item")?;
                Ok(match (x, self.stack.last_mut()) {
                    (Some(x), Some(DF::Items(_, i, _))) => {
                        *i += 1;
                        self.stack.push(DF::Value(x));
                        true
                    }
                    _ => {
                        self.stack.pop();
                        false
                    }
                })
            }
            fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> RecErr {
                RecErr(format!("error: {}", source))
            }
            fn error_missing_item(&self) -> RecErr {
                RecErr("missing item".into())
            }
            fn error_extra_item(&self) -> RecErr {
                RecErr("extra item".into())
            }
        }
    };
}
ints! {
    put_i8 get_i8 i8
    put_i16 get_i16 i16
    put_i32 get_i32 i32
    put_i64 get_i64 i64
    put_u8 get_u8 u8
    put_u16 get_u16 u16
    put_u32 get_u32 u32
    put_u64 get_u64 u64
}

impl JsonOutliner for RecSer {
    fn open_object(&mut self) -> R<()> {
        self.value("open_object")?;
        self.stack.push(SF::Object(Vec::new(), None));
        Ok(())
    }
    fn push_entry(&mut self, key: &str) -> R<()> {
        if !matches!(self.stack.last(), Some(SF::Object(_, None))) {
            bad("push_entry", &self.stack);
        }
        self.call("push_entry")?;
        if let Some(SF::Object(_, k)) = self.stack.last_mut() {
            *k = Some(key.to_string());
        }
        self.stack.push(SF::Value);
        Ok(())
    }
    fn close_object(&mut self) -> R<()> {
        if !matches!(self.stack.last(), Some(SF::Object(_, None))) {
            bad("close_object", &self.stack);
        }
        self.call("close_object")?;
        if let Some(SF::Object(f, _)) = self.stack.pop() {
            self.give(Node::Object(f));
        }
        Ok(())
    }
}
impl JsonSerializer for RecSer {
    fn open_list_streaming(&mut self) -> R<()> {
        self.value("open_list_streaming")?;
        self.stack.push(SF::List(None, Vec::new()));
        Ok(())
    }
    fn add_entry(&mut self) -> R<()> {
        if !matches!(self.stack.last(), Some(SF::Object(_, None))) {
            bad("add_entry", &self.stack);
        }
        self.call("add_entry")?;
        self.stack.push(SF::Value);
        self.stack.push(SF::Key(String::new()));
        Ok(())
    }
}

impl Node {
    pub fn items(&self) -> &[Rc<Node>] {
        match self {
            Node::List(x) | Node::Stream(x) | Node::Tuple(_, x) => x,
            _ => &[],
        }
    }
    pub fn count(&self) -> usize {
        1 + match self {
            Node::List(x) | Node::Stream(x) | Node::Tuple(_, x) => x.iter().map(|n| n.count()).sum::<usize>(),
            Node::Struct(_, f) => f.iter().map(|n| n.1.count()).sum(),
            Node::Object(f) => f.iter().map(|n| n.1.count()).sum(),
            _ => 0,
        }
    }
}

#[derive(Debug)]
enum DF {
    Value(Rc<Node>),
    Str(Vec<char>, usize),
    Struct(Rc<Node>, usize),
    /// A tuple (`t`) or list (`l`) with the index of the next item.
    Items(Rc<Node>, usize, char),
    Object(Rc<Node>, Vec<bool>),
}

/// Deserializer half.
pub struct RecDe {
    pub caps: Caps,
    stack: Vec<DF>,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub after_fail: usize,
}

impl RecDe {
    pub fn new(caps: Caps, root: Rc<Node>) -> RecDe {
        RecDe { caps, stack: vec![DF::Value(root)], calls: 0, fail_at: None, after_fail: 0 }
    }
    pub fn finish(self) -> Result<(), String> {
        if self.stack.is_empty() {
            Ok(())
        } else {
            Err(format!("the stack is left as {:?}", self.stack))
        }
    }
    fn call(&mut self, _what: &str) -> R<()> {
        self.calls += 1;
        match self.fail_at {
            Some(k) if self.calls == k => return Err(RecErr(format!("injected failure at call {}", k))),
            Some(k) if self.calls > k => self.after_fail += 1,
            _ => {}
        }
        Ok(())
    }
    /// The value at the top of the stack (which stays there).
    fn value(&mut self, what: &str) -> R<Rc<Node>> {
        let n = match self.stack.last() {
            Some(DF::Value(n)) => n.clone(),
            _ => bad(what, &self.stack),
        };
        self.call(what)?;
        Ok(n)
    }
    fn swap(&mut self, f: DF) {
        self.stack.pop();
        self.stack.push(f);
    }
    fn mismatch<T>(&mut self, what: &str, n: &Node) -> R<T> {
        if self.caps.strict {
            bad(&format!("{} of {:?}", what, n), &self.stack);
        }
        self.stack.pop();
        Err(RecErr(format!("{} of {:?}", what, n)))
    }
}

impl Outliner for RecDe {
    type Error = RecErr;
    fn supports_null(&self) -> bool {
        self.caps.null
    }
    fn pop_null(&mut self) -> R<()> {
        if !self.caps.null {
            bad("pop_null without support for null", &self.stack);
        }
        let n = self.value("pop_null")?;
        match &*n {
            Node::Null => {
                self.stack.pop();
                Ok(())
            }
            _ => self.mismatch("pop_null", &n),
        }
    }
    fn open_str(&mut self) -> R<()> {
        let n = self.value("open_str")?;
        match &*n {
            Node::Str(s) => {
                self.swap(DF::Str(s.chars().collect(), 0));
                Ok(())
            }
            _ => self.mismatch("open_str", &n),
        }
    }
    fn close_str(&mut self) -> R<()> {
        match self.stack.last() {
            Some(DF::Str(s, i)) if *i == s.len() => {}
            _ => bad("close_str", &self.stack),
        }
        self.call("close_str")?;
        self.stack.pop();
        Ok(())
    }
    fn open_struct(&mut self, name: Option<&'static str>) -> R<()> {
        let n = self.value("open_struct")?;
        match &*n {
            Node::Struct(m, _) => {
                if self.caps.strict && *m != name {
                    bad(&format!("open_struct {:?} of a struct written as {:?}", name, m), &self.stack);
                }
                self.swap(DF::Struct(n.clone(), 0));
                Ok(())
            }
            Node::Object(_) | Node::Stream(_) | Node::List(_) if !self.caps.strict => serdere_json::open_struct(self, name),
            _ => self.mismatch("open_struct", &n),
        }
    }
    fn push_field(&mut self, name: &'static str) -> R<()> {
        match self.stack.last() {
            Some(DF::Struct(n, i)) => {
                let Node::Struct(_, f) = &**n else { unreachable!() };
                match f.get(*i) {
                    Some((k, v)) if *k == name => {
                        let v = v.clone();
                        self.call("push_field")?;
                        if let Some(DF::Struct(_, i)) = self.stack.last_mut() {
                            *i += 1;
                        }
                        self.stack.push(DF::Value(v));
                        Ok(())
                    }
                    _ if self.caps.lax => {
                        self.call("push_field")?;
                        self.stack.pop();
                        Err(RecErr(format!("missing field {:?}", name)))
                    }
                    x => bad(&format!("push_field {:?} where {:?} was written", name, x.map(|x| x.0)), &self.stack),
                }
            }
            Some(DF::Object(..) | DF::Items(_, _, 'l')) if !self.caps.strict => serdere_json::push_field(self, name),
            _ => bad("push_field", &self.stack),
        }
    }
    fn close_struct(&mut self) -> R<()> {
        match self.stack.last() {
            Some(DF::Struct(n, i)) => {
                let Node::Struct(_, f) = &**n else { unreachable!() };
                if *i != f.len() && self.caps.lax {
                    self.call("close_struct")?;
                    self.stack.pop();
                    return Err(RecErr("extra field".into()));
                }
                if *i != f.len() {
                    bad("close_struct before all fields are read", &self.stack);
                }
                self.call("close_struct")?;
                self.stack.pop();
                Ok(())
            }
            Some(DF::Object(..) | DF::Items(_, _, 'l')) if !self.caps.strict => serdere_json::close_struct(self),
            _ => bad("close_struct", &self.stack),
        }
    }
    fn open_tuple(&mut self, name: Option<&'static str>) -> R<()> {
        let n = self.value("open_tuple")?;
        match &*n {
            Node::Tuple(m, _) => {
                if self.caps.strict && *m != name {
                    bad(&format!("open_tuple {:?} of a tuple written as {:?}", name, m), &self.stack);
                }
                self.swap(DF::Items(n.clone(), 0, 't'));
                Ok(())
            }
            Node::Stream(_) | Node::List(_) if !self.caps.strict => {
                self.swap(DF::Items(n.clone(), 0, 't'));
                Ok(())
            }
            _ => self.mismatch("open_tuple", &n),
        }
    }
    fn push_element(&mut self) -> R<()> {
        self.push_nth('t', "push_element")
    }
    fn close_tuple(&mut self) -> R<()> {
        self.close_items('t', "close_tuple")
    }
    fn push_item(&mut self) -> R<()> {
        self.push_nth('l', "push_item")
    }
    fn close_list(&mut self) -> R<()> {
        self.close_items('l', "close_list")
    }
}
impl RecDe {
    fn push_nth(&mut self, kind: char, what: &str) -> R<()> {
        let x = match self.stack.last() {
            Some(DF::Items(n, i, k)) if *k == kind => n.items().get(*i).cloned(),
            _ => bad(what, &self.stack),
        };
        self.call(what)?;
        match (x, self.stack.last_mut()) {
            (Some(x), Some(DF::Items(_, i, _))) => {
                *i += 1;
                self.stack.push(DF::Value(x));
                Ok(())
            }
            _ if self.caps.strict => bad(&format!("{} beyond the end", what), &self.stack),
            _ => {
                self.stack.pop();
                Err(RecErr("missing item".into()))
            }
        }
    }
    fn close_items(&mut self, kind: char, what: &str) -> R<()> {
        let left = match self.stack.last() {
            Some(DF::Items(n, i, k)) if *k == kind => n.items().len() - *i,
            _ => bad(what, &self.stack),
        };
        self.call(what)?;
        if left > 0 && self.caps.strict {
            bad(&format!("{} before the end", what), &self.stack);
        }
        self.stack.pop();
        if left > 0 {
            return Err(RecErr("extra item".into()));
        }
        Ok(())
    }
}

impl JsonOutliner for RecDe {
    fn open_object(&mut self) -> R<()> {
        let n = self.value("open_object")?;
        match &*n {
            Node::Object(f) => {
                let read = vec![false; f.len()];
                self.swap(DF::Object(n.clone(), read));
                Ok(())
            }
            _ => self.mismatch("open_object", &n),
        }
    }
    fn push_entry(&mut self, key: &str) -> R<()> {
        if self.try_push_entry(key)? {
            return Ok(());
        }
        self.stack.pop();
        Err(RecErr(format!("missing key {:?}", key)))
    }
    fn close_object(&mut self) -> R<()> {
        let left = match self.stack.last() {
            Some(DF::Object(_, r)) => r.iter().any(|r| !r),
            _ => bad("close_object", &self.stack),
        };
        self.call("close_object")?;
        self.stack.pop();
        if left {
            return Err(RecErr("extra entry".into()));
        }
        Ok(())
    }
}
impl JsonDeserializer for RecDe {
    fn peek_value_type(&self) -> ValueType {
        match self.stack.last() {
            Some(DF::Value(n)) => match &**n {
                Node::Null => ValueType::Null,
                Node::Bool(_) => ValueType::Bool,
                Node::Int(..) | Node::F32(_) | Node::F64(_) => ValueType::Number,
                Node::Char(_) | Node::Str(_) | Node::Tag { .. } => ValueType::String,
                Node::Struct(..) | Node::Object(_) => ValueType::Object,
                Node::Tuple(..) | Node::List(_) | Node::Stream(_) => ValueType::Array,
            },
            _ => bad("peek_value_type", &self.stack),
        }
    }
    fn peek_collection_type(&self) -> CollectionType {
        match self.stack.last() {
            Some(DF::Object(..)) => CollectionType::Object,
            Some(DF::Items(..)) => CollectionType::Array,
            _ => bad("peek_collection_type", &self.stack),
        }
    }
    fn push_null(&mut self, _key: Option<&'static str>) {
        match self.stack.last() {
            Some(DF::Object(..) | DF::Items(..)) => self.stack.push(DF::Value(Rc::new(Node::Null))),
            _ => bad("push_null", &self.stack),
        }
    }
    fn try_push_entry(&mut self, key: &str) -> R<bool> {
        let i = match self.stack.last() {
            Some(DF::Object(n, read)) => match &**n {
                Node::Object(f) => f.iter().zip(read).position(|(f, r)| f.0 == key && !r),
                _ => unreachable!(),
            },
            _ => bad("try_push_entry", &self.stack),
        };
        self.call("try_push_entry")?;
        Ok(self.take(i).is_some())
    }
    fn next_entry(&mut self) -> R<bool> {
        let i = match self.stack.last() {
            Some(DF::Object(_, read)) => read.iter().position(|r| !r),
            _ => bad("next_entry", &self.stack),
        };
        self.call("next_entry")?;
        Ok(match self.take(i) {
            Some(k) => {
                self.stack.push(DF::Str(k.chars().collect(), 0));
                true
            }
            None => {
                self.stack.pop();
                false
            }
        })
    }
    fn error_expected_type(&self, expected: &'static [ValueType]) -> RecErr {
        RecErr(format!("expected {:?}", expected))
    }
    fn error_missing_entry(&self, key: String) -> RecErr {
        RecErr(format!("missing key {:?}", key))
    }
    fn error_extra_entry(&self, key: String) -> RecErr {
        RecErr(format!("extra key {:?}", key))
    }
}
impl RecDe {
    /// Pushes the value of an entry and gives its key.
    fn take(&mut self, i: Option<usize>) -> Option<String> {
        let i = i?;
        let Some(DF::Object(n, read)) = self.stack.last_mut() else { unreachable!() };
        let Node::Object(f) = &**n else { unreachable!() };
        read[i] = true;
        let (k, v) = (f[i].0.clone(), f[i].1.clone());
        self.stack.push(DF::Value(v));
        Some(k)
    }
}
