//! Renders the model of a typed value as JSON in any of the forms a reader must accept, optionally
//! with one fault at a chosen place.
use crate::gen::{self, gap, quote, Style};
use crate::types::{Field, M};
use crate::Rng;

/// Percentages of the liberties taken.
#[derive(Clone)]
pub struct Ro {
    /// Struct keys in another order.
    pub permute: usize,
    /// Unknown extra entries, per gap between entries.
    pub extras: usize,
    /// Structs as arrays.
    pub array: usize,
    /// Tags by index.
    pub index: usize,
    /// Leaving out entries whose absence means the same.
    pub omit: usize,
    /// Null for entries for which it means the same.
    pub null: usize,
}

impl Ro {
    pub fn plain() -> Ro {
        Ro { permute: 0, extras: 0, array: 0, index: 0, omit: 0, null: 0 }
    }
    pub fn random(rng: &mut Rng) -> Ro {
        let p = |rng: &mut Rng| *rng.pick(&[0, 0, 20, 50, 100]);
        Ro { permute: p(rng), extras: *rng.pick(&[0, 0, 10, 30]), array: *rng.pick(&[0, 0, 20, 60]), index: p(rng), omit: p(rng), null: p(rng) }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Expect {
    /// A value of the wrong type.
    Type,
    /// An integer that no integer type can hold.
    Overflow,
    /// A number that is not an integer.
    NotInteger,
    BadName,
    BadIndex(usize),
    MissingKey(String),
    MissingItems,
    ExcessItems,
}

#[derive(Debug, Clone)]
pub struct Fault {
    /// Where the error must be reported.
    pub pos: usize,
    pub expect: Expect,
}

pub struct Out {
    pub text: String,
    /// Number of places where a fault could be put.
    pub sites: usize,
    pub fault: Option<Fault>,
    pub liberties: usize,
}

struct R<'a> {
    ro: &'a Ro,
    st: &'a Style,
    out: Out,
    at: Option<usize>,
}

/// Renders `m`. With `at` below the number of sites, the fault of that site is put in.
pub fn render(rng: &mut Rng, m: &M, ro: &Ro, st: &Style, at: Option<usize>) -> Out {
    let mut r = R { ro, st, out: Out { text: String::new(), sites: 0, fault: None, liberties: 0 }, at };
    r.gap(rng);
    r.val(rng, m);
    r.gap(rng);
    r.out
}

/// Key of an entry that no type of the family knows.
fn extra_key(rng: &mut Rng, known: &[&str], used: &mut Vec<String>) -> String {
    loop {
        let k = match rng.below(4) {
            0 => gen::key(rng),
            1 if !known.is_empty() => {
                let k = rng.pick(known).to_string();
                match rng.below(4) {
                    0 => k + "x",
                    1 => k.to_uppercase(),
                    2 => k.chars().skip(1).collect(),
                    _ => k + "\0",
                }
            }
            _ => format!("unknown{}", rng.below(1000)),
        };
        if !known.contains(&k.as_str()) && !used.contains(&k) {
            used.push(k.clone());
            return k;
        }
    }
}

impl R<'_> {
    fn gap(&mut self, rng: &mut Rng) {
        gap(rng, self.st, &mut self.out.text)
    }
    fn push(&mut self, rng: &mut Rng, s: &str) {
        self.out.text.push_str(s);
        self.gap(rng);
    }
    fn site(&mut self) -> bool {
        self.out.sites += 1;
        self.at == Some(self.out.sites - 1)
    }
    fn fault(&mut self, pos: usize, expect: Expect) {
        self.out.fault = Some(Fault { pos, expect });
    }
    fn wrong(&mut self, rng: &mut Rng, with: &[&str], expect: Expect) {
        self.fault(self.out.text.len(), expect);
        let w = *rng.pick(with);
        self.push(rng, w);
    }
    fn lib(&mut self) {
        self.out.liberties += 1;
    }

    fn val(&mut self, rng: &mut Rng, m: &M) {
        match m {
            M::Null => self.push(rng, "null"),
            M::Bool(b) => {
                if self.site() {
                    return self.wrong(rng, &["1", "0", "\"true\"", "[]", "{}", "[true]", "{\"a\":true}"], Expect::Type);
                }
                self.push(rng, if *b { "true" } else { "false" })
            }
            M::Int(v) => {
                if self.site() {
                    return self.wrong(rng, &["\"1\"", "true", "[]", "{}", "[1]", "\"\""], Expect::Type);
                }
                if self.site() {
                    return self.wrong(rng, &["10000000000000000000000000000000000000000", "-18446744073709551616", "18446744073709551616", "99999999999999999999"], Expect::Overflow);
                }
                if self.site() {
                    return self.wrong(rng, &["0.5", "-1.25e1", "1e-1", "12.0625"], Expect::NotInteger);
                }
                self.push(rng, &v.to_string())
            }
            M::F32(v) => {
                if self.site() {
                    return self.wrong(rng, &["\"1\"", "true", "[]", "{}", "[1.5]", "\"NaN\""], Expect::Type);
                }
                self.push(rng, &format!("{:?}", v))
            }
            M::F64(v) => {
                if self.site() {
                    return self.wrong(rng, &["\"1\"", "true", "[]", "{}", "[1.5]", "\"NaN\""], Expect::Type);
                }
                self.push(rng, &format!("{:?}", v))
            }
            M::Str(s) => {
                if self.site() {
                    return self.wrong(rng, &["1", "true", "[]", "{}", "-0.5e3", "[\"a\"]"], Expect::Type);
                }
                quote(rng, s, self.st, &mut self.out.text);
                self.gap(rng);
            }
            M::Tag(name, index) => {
                if self.site() {
                    return self.wrong(rng, &["true", "[]", "{}", "[0]", "[\"A\"]"], Expect::Type);
                }
                if self.site() {
                    return self.wrong(rng, &["\"no such name\"", "\"unknown\"", "\"\\u0000\"", "\"a \""], Expect::BadName);
                }
                if self.site() {
                    let i = *rng.pick(&[1_000_000usize, usize::MAX, 4_294_967_296]);
                    return self.wrong(rng, &[&i.to_string()], Expect::BadIndex(i));
                }
                if rng.chance(self.ro.index, 100) {
                    self.lib();
                    self.push(rng, &index.to_string());
                } else {
                    quote(rng, name, self.st, &mut self.out.text);
                    self.gap(rng);
                }
            }
            M::Arr(xs) => {
                if self.site() {
                    return self.wrong(rng, &["1", "true", "\"\"", "{}", "\"[]\"", "{\"0\":1}"], Expect::Type);
                }
                self.items(rng, xs)
            }
            M::Tup(xs) => {
                if self.site() {
                    return self.wrong(rng, &["1", "true", "\"\"", "{}", "\"[]\"", "{\"0\":1}"], Expect::Type);
                }
                self.fixed(rng, xs)
            }
            M::Obj(fs) => {
                if self.site() {
                    return self.wrong(rng, &["1", "true", "\"\"", "\"{}\"", "-1.5"], Expect::Type);
                }
                if rng.chance(self.ro.array, 100) {
                    self.lib();
                    let xs: Vec<M> = fs
                        .iter()
                        .map(|f| if f.omit_same && rng.chance(self.ro.null, 100) { M::Null } else { f.val.clone() })
                        .collect();
                    self.fixed(rng, &xs)
                } else {
                    self.obj(rng, fs)
                }
            }
        }
    }

    fn items(&mut self, rng: &mut Rng, xs: &[M]) {
        self.push(rng, "[");
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.push(rng, ",");
            }
            self.val(rng, x);
        }
        self.push(rng, "]");
    }

    /// Exactly these items: too few and too many are faults.
    fn fixed(&mut self, rng: &mut Rng, xs: &[M]) {
        let start = self.out.text.len();
        let mut n = xs.len();
        let mut more = 0;
        if !xs.is_empty() && self.site() {
            n = rng.below(xs.len());
            self.fault(start, Expect::MissingItems);
        }
        if self.site() {
            more = rng.range(1, 3);
            self.fault(start, Expect::ExcessItems);
        }
        self.push(rng, "[");
        for (i, x) in xs[..n].iter().enumerate() {
            if i > 0 {
                self.push(rng, ",");
            }
            self.val(rng, x);
        }
        for i in 0..more {
            if n + i > 0 {
                self.push(rng, ",");
            }
            let x = *rng.pick(&["1", "null", "[]", "{\"a\":[1]}", "\"s\""]);
            self.push(rng, x);
        }
        self.push(rng, "]");
    }

    fn obj(&mut self, rng: &mut Rng, fs: &[Field]) {
        let start = self.out.text.len();
        let mut order: Vec<usize> = (0..fs.len()).collect();
        if fs.len() > 1 && rng.chance(self.ro.permute, 100) {
            self.lib();
            match rng.below(4) {
                0 => order.reverse(),
                1 => order.rotate_left(1),
                2 => {
                    let i = rng.below(order.len());
                    let x = order.remove(i);
                    order.insert(0, x);
                }
                _ => {
                    for i in (1..order.len()).rev() {
                        let j = rng.below(i + 1);
                        order.swap(i, j);
                    }
                }
            }
        }
        let known: Vec<&str> = fs.iter().map(|f| f.key.as_str()).collect();
        let mut used = Vec::new();
        let mut first = true;
        self.push(rng, "{");
        let mut extra = |r: &mut Self, rng: &mut Rng, first: &mut bool| {
            while rng.chance(r.ro.extras, 100) {
                r.lib();
                if !*first {
                    r.push(rng, ",");
                }
                *first = false;
                let k = extra_key(rng, &known, &mut used);
                quote(rng, &k, r.st, &mut r.out.text);
                r.gap(rng);
                r.push(rng, ":");
                let v = gen::doc(rng, &gen::DocOpts { max_nodes: 6, max_depth: 3, ..Default::default() });
                let v = gen::render(rng, &v, r.st);
                r.push(rng, &v);
            }
        };
        for i in order {
            extra(self, rng, &mut first);
            let f = &fs[i];
            if f.omit_same && rng.chance(self.ro.omit, 100) {
                self.lib();
                continue;
            }
            if f.required && self.site() {
                self.fault(start, Expect::MissingKey(f.key.clone()));
                continue;
            }
            if !first {
                self.push(rng, ",");
            }
            first = false;
            quote(rng, &f.key, self.st, &mut self.out.text);
            self.gap(rng);
            self.push(rng, ":");
            if f.omit_same && rng.chance(self.ro.null, 100) {
                self.lib();
                self.push(rng, "null");
            } else {
                self.val(rng, &f.val);
            }
        }
        extra(self, rng, &mut first);
        self.push(rng, "}");
    }
}
