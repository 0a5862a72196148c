//! Types that can only be read, and more attribute combinations.
use crate::types::*;
use crate::Rng;
use serdere::*;
use std::cell::Cell;

thread_local! {
    pub static CONV: Cell<usize> = Cell::new(0);
}
fn conv() {
    CONV.with(|c| c.set(c.get() + 1));
}

#[derive(Debug)]
pub struct Shout(pub String);
impl From<String> for Shout {
    fn from(s: String) -> Self {
        conv();
        Shout(s + "!")
    }
}
#[derive(Debug)]
pub struct Off(pub i64);
impl From<i32> for Off {
    fn from(x: i32) -> Self {
        conv();
        Off(x as i64 * 3 + 1)
    }
}
/// Not reachable through the conversion.
impl Default for Off {
    fn default() -> Self {
        Off(-12345678)
    }
}
#[derive(Debug)]
pub struct Sum(pub String);
impl From<P2> for Sum {
    fn from(p: P2) -> Self {
        conv();
        Sum(format!("{}&{:?}", p.x, p.y))
    }
}
#[derive(Debug)]
pub struct OrMinus(pub i32);
impl From<Option<u8>> for OrMinus {
    fn from(p: Option<u8>) -> Self {
        conv();
        OrMinus(p.map_or(-1, |x| x as i32))
    }
}
impl Default for OrMinus {
    fn default() -> Self {
        OrMinus(-99)
    }
}
#[derive(Debug)]
pub struct Rev(pub Vec<u8>);
impl From<Vec<u8>> for Rev {
    fn from(mut p: Vec<u8>) -> Self {
        conv();
        p.reverse();
        Rev(p)
    }
}
#[derive(Debug)]
pub struct Tagged(pub String);
impl From<Shape> for Tagged {
    fn from(p: Shape) -> Self {
        conv();
        Tagged(format!("{:?}", p))
    }
}
#[derive(Debug)]
pub struct Coded(pub u8);
impl From<Color> for Coded {
    fn from(p: Color) -> Self {
        conv();
        Coded(p as u8)
    }
}

fn with(mut f: Field, val: M) -> Field {
    f.val = val;
    f
}
fn field(key: &str, val: M, omit_same: bool, required: bool) -> Field {
    Field { key: key.into(), val, omit_same, required }
}

/// Every use of `proxy` on a struct's fields. `src` is what the model is made of.
#[derive(Debug, Deserialize)]
pub struct Prox {
    #[serde(proxy = String)]
    pub name: Shout,
    #[serde(rename = "n b", proxy = i32)]
    pub n: Off,
    #[serde(default, proxy = i32)]
    pub d: Off,
    pub plain: u8,
    #[serde(flatten, proxy = P2)]
    pub pt: Sum,
    #[serde(proxy = Option<u8>)]
    pub o: OrMinus,
    #[serde(proxy = Option<u8>, default, rename = "o\u{e9}")]
    pub o2: OrMinus,
    #[serde(proxy = Vec<u8>)]
    pub v: Rev,
    #[serde(flatten)]
    #[serde(proxy = Shape)]
    pub s: Tagged,
    #[serde(proxy = Color)]
    #[serde(rename = "color")]
    pub c: Coded,
    #[serde(proxy = u8)]
    pub same: u32,
}
thread_local! {
    pub static SRC: std::cell::RefCell<Vec<Field>> = Default::default();
}
impl Ty for Prox {
    fn gen(r: &mut Rng) -> Self {
        let name: String = Ty::gen(r);
        let n: i32 = Ty::gen(r);
        let d: Option<i32> = Ty::gen(r);
        let plain: u8 = Ty::gen(r);
        let pt: P2 = Ty::gen(r);
        let o: Option<u8> = Ty::gen(r);
        let o2: Option<u8> = Ty::gen(r);
        let v: Vec<u8> = Ty::gen(r);
        let s: Shape = loop {
            // Fields of the flattened parts must not collide
            let s: Shape = Ty::gen(r);
            if matches!(s, Shape::Dot | Shape::Circle { .. } | Shape::Rect { .. }) {
                break s;
            }
        };
        let c: Color = Ty::gen(r);
        let same: u8 = Ty::gen(r);
        let mut f = vec![
            req("name", &name),
            req("n b", &n),
            match d {
                Some(x) => field("d", M::Int(x as i128), false, false),
                None => field("d", M::Null, true, false),
            },
            req("plain", &plain),
        ];
        f.extend(pt.fields());
        f.push(req("o", &o));
        f.push(match o2 {
            Some(x) => field("o\u{e9}", M::Int(x as i128), false, false),
            None => field("o\u{e9}", M::Null, true, false),
        });
        f.push(req("v", &v));
        f.extend(s.fields());
        f.push(req("color", &c));
        f.push(with(req("same", &same), M::Int(same as i128)));
        SRC.with(|x| *x.borrow_mut() = f);
        Prox {
            name: Shout(name + "!"),
            n: Off(n as i64 * 3 + 1),
            d: d.map_or(Off(-12345678), |d| Off(d as i64 * 3 + 1)),
            plain,
            pt: Sum(format!("{}&{:?}", pt.x, pt.y)),
            o: OrMinus(o.map_or(-1, |x| x as i32)),
            o2: OrMinus(o2.map_or(-99, |x| x as i32)),
            v: Rev(v.into_iter().rev().collect()),
            s: Tagged(format!("{:?}", s)),
            c: Coded(c as u8),
            same: same as u32,
        }
    }
    fn model(&self) -> M {
        M::Obj(SRC.with(|x| x.borrow().clone()))
    }
}

/// Proxies and defaults in enum variants.
#[derive(Debug, Deserialize)]
#[serde(tag = "\u{3c0}")]
pub enum ProxEnum {
    A {
        #[serde(proxy = i32, default)]
        d: Off,
        #[serde(flatten, proxy = P2)]
        p: Sum,
    },
    #[serde(rename = "bee", reindex = 12)]
    B {
        #[serde(proxy = Vec<u8>)]
        v: Rev,
        #[serde(default)]
        w: Weird,
    },
    #[serde(transparent)]
    C(Inner),
    #[serde(reindex = 7)]
    D,
}
#[derive(Debug, Deserialize, Default)]
pub struct Inner {
    #[serde(default, rename = "inner")]
    pub k: Vec<i8>,
    pub l: Option<bool>,
}
impl Ty for ProxEnum {
    fn gen(r: &mut Rng) -> Self {
        let mut f = Vec::new();
        let v = match r.below(4) {
            0 => {
                let d: Option<i32> = Ty::gen(r);
                let p: P2 = Ty::gen(r);
                f.push(tag("\u{3c0}", "A", 0));
                f.push(match d {
                    Some(x) => field("d", M::Int(x as i128), false, false),
                    None => field("d", M::Null, true, false),
                });
                f.extend(p.fields());
                ProxEnum::A { d: d.map_or(Off(-12345678), |d| Off(d as i64 * 3 + 1)), p: Sum(format!("{}&{:?}", p.x, p.y)) }
            }
            1 => {
                let v: Vec<u8> = Ty::gen(r);
                let w: Weird = Ty::gen(r);
                f.push(tag("\u{3c0}", "bee", 12));
                f.push(req("v", &v));
                f.push(def("w", &w));
                ProxEnum::B { v: Rev(v.into_iter().rev().collect()), w }
            }
            2 => {
                let k: Vec<i8> = if r.bool() { vec![] } else { Ty::gen(r) };
                let l: Option<bool> = Ty::gen(r);
                f.push(tag("\u{3c0}", "C", 2));
                f.push(def("inner", &k));
                f.push(req("l", &l));
                ProxEnum::C(Inner { k, l })
            }
            _ => {
                f.push(tag("\u{3c0}", "D", 7));
                ProxEnum::D
            }
        };
        SRC.with(|x| *x.borrow_mut() = f);
        v
    }
    fn model(&self) -> M {
        M::Obj(SRC.with(|x| x.borrow().clone()))
    }
}

/// Defaults everywhere: an empty object is the default of each.
#[derive(Debug, Deserialize, Serialize, Default)]
pub struct AllDef {
    #[serde(default)]
    pub a: bool,
    #[serde(default)]
    pub b: f32,
    #[serde(default)]
    pub c: char,
    #[serde(default)]
    pub d: (u8, String),
    #[serde(default)]
    pub e: [u16; 3],
    #[serde(default)]
    pub f: Option<Vec<u8>>,
    #[serde(default)]
    pub g: Level,
    #[serde(default)]
    pub h: Action,
    #[serde(default)]
    pub i: (),
}
#[derive(Debug, Deserialize, Serialize, Default, Clone, Copy)]
pub enum Level {
    Low,
    #[default]
    Mid,
    High,
}
#[derive(Debug, Deserialize, Serialize)]
pub enum Action {
    Go { to: Option<u8>, #[serde(default)] fast: bool },
    Stop,
}
impl Default for Action {
    fn default() -> Self {
        Action::Go { to: Some(3), fast: true }
    }
}
impl Ty for Level {
    fn gen(r: &mut Rng) -> Self {
        *r.pick(&[Level::Low, Level::Mid, Level::High])
    }
    fn model(&self) -> M {
        M::Tag(format!("{:?}", self), *self as usize)
    }
}
impl Ty for Action {
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Action::Go { to: Some(3), fast: true },
            1 => Action::Go { to: Ty::gen(r), fast: Ty::gen(r) },
            _ => Action::Stop,
        }
    }
    fn model(&self) -> M {
        M::Obj(match self {
            Action::Go { to, fast } => vec![tag("type", "Go", 0), req("to", to), def("fast", fast)],
            Action::Stop => vec![tag("type", "Stop", 1)],
        })
    }
}
fn ord<T: Ty + Default>(r: &mut Rng) -> T {
    if r.bool() { T::default() } else { T::gen(r) }
}
impl Ty for AllDef {
    fn gen(r: &mut Rng) -> Self {
        AllDef { a: ord(r), b: ord(r), c: ord(r), d: ord(r), e: ord(r), f: ord(r), g: ord(r), h: ord(r), i: () }
    }
    fn model(&self) -> M {
        M::Obj(vec![
            def("a", &self.a), def("b", &self.b), def("c", &self.c), def("d", &self.d), def("e", &self.e),
            def("f", &self.f), def("g", &self.g), def("h", &self.h), def("i", &self.i),
        ])
    }
}

/// Field names that are keywords of the generated code, and flattening three deep.
#[derive(Debug, Deserialize, Serialize)]
pub struct Nest {
    pub de: u8,
    #[serde(flatten)]
    pub one: One,
    pub name: String,
    #[serde(flatten)]
    pub level: Kind,
}
#[derive(Debug, Deserialize, Serialize)]
pub struct One {
    #[serde(flatten)]
    pub two: Two,
    pub index: u8,
}
#[derive(Debug, Deserialize, Serialize)]
pub struct Two {
    pub done_flag: Option<Option<u8>>,
    #[serde(flatten)]
    pub act: Action,
    #[serde(default)]
    pub r#fn: i8,
}
impl Ty for Nest {
    fn gen(r: &mut Rng) -> Self {
        Nest {
            de: Ty::gen(r),
            one: One { two: Two { done_flag: Ty::gen(r), act: Ty::gen(r), r#fn: ord(r) }, index: Ty::gen(r) },
            name: Ty::gen(r),
            level: Ty::gen(r),
        }
    }
    fn model(&self) -> M {
        let mut f = vec![req("de", &self.de), req("done_flag", &self.one.two.done_flag)];
        f.extend(self.one.two.act.fields());
        f.push(def("fn", &self.one.two.r#fn));
        f.push(req("index", &self.one.index));
        f.push(req("name", &self.name));
        f.extend(self.level.fields());
        M::Obj(f)
    }
}

/// Variants within variants, each with its own tag.
#[derive(Debug, Deserialize, Serialize)]
#[serde(tag = "outer", rename = "X")]
pub enum Outer {
    #[serde(transparent)]
    In(Shape),
    #[serde(transparent, rename = "also")]
    Named { x: Kind },
    Both {
        #[serde(flatten)]
        s: Action,
        #[serde(flatten)]
        k: Kind,
        #[serde(rename = "Type")]
        t: u8,
    },
    #[serde(reindex = 5)]
    Unit,
    #[serde(reindex = 999999)]
    Empty {},
}
impl Ty for Outer {
    fn gen(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Outer::In(Ty::gen(r)),
            1 => Outer::Named { x: Ty::gen(r) },
            2 => Outer::Both { s: Ty::gen(r), k: Ty::gen(r), t: Ty::gen(r) },
            3 => Outer::Unit,
            _ => Outer::Empty {},
        }
    }
    fn model(&self) -> M {
        M::Obj(match self {
            Outer::In(s) => {
                let mut f = vec![tag("outer", "In", 0)];
                f.extend(s.fields());
                f
            }
            Outer::Named { x } => {
                let mut f = vec![tag("outer", "also", 1)];
                f.extend(x.fields());
                f
            }
            Outer::Both { s, k, t } => {
                let mut f = vec![tag("outer", "Both", 2)];
                f.extend(s.fields());
                f.extend(k.fields());
                f.push(req("Type", t));
                f
            }
            Outer::Unit => vec![tag("outer", "Unit", 5)],
            Outer::Empty {} => vec![tag("outer", "Empty", 999999)],
        })
    }
}

/// Many variants with names of shared prefixes.
macro_rules! many {
    ($($v:ident $i:literal),*) => {
        #[derive(Debug, Deserialize, Serialize, Clone, Copy)]
        pub enum Many { $($v),* }
        pub const MANY: &[(Many, &str, usize)] = &[$((Many::$v, stringify!($v), $i)),*];
    };
}
many!(A 0, Aa 1, Aaa 2, Aab 3, Ab 4, Aba 5, B 6, Ba 7, Bb 8, Bbb 9, C 10, Ca 11, Cab 12, Cabb 13, Cabbage 14, Cabin 15, D 16, Do 17, Dog 18, Dot 19, Z 20, Zz 21, Zzz 22, _a 23, _A 24, __ 25, É 26, Éa 27, Ü 28);
impl Ty for Many {
    fn gen(r: &mut Rng) -> Self {
        r.pick(MANY).0
    }
    fn model(&self) -> M {
        let x = MANY.iter().find(|x| x.0 as usize == *self as usize).unwrap();
        M::Tag(x.1.into(), x.2)
    }
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Const<T, const N: usize>
where
    T: std::fmt::Debug,
{
    pub items: [T; N],
    #[serde(flatten)]
    pub k: P2,
}
impl<T: Ty, const N: usize> Ty for Const<T, N> {
    fn gen(r: &mut Rng) -> Self {
        Const { items: Ty::gen(r), k: Ty::gen(r) }
    }
    fn model(&self) -> M {
        let mut f = vec![req("items", &self.items)];
        f.extend(self.k.fields());
        M::Obj(f)
    }
}

/// Applies a macro to the list of types that can be written and read.
#[macro_export]
macro_rules! more_types {
    ($m:ident) => {
        $m!(Huge, HugeData, Broad, AllDef, Level, Action, Nest, Outer, Many, Const<u8, 3>, Const<Shape, 0>, Option<Outer>, Vec<Nest>, FlatFirst<Outer>, FlatFirst<AllDef>, GenEnum<Nest>, Gen1<Many>)
    };
}
