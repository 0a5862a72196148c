//! C19: null, absent and nested options are told apart.
use serdere::*;
use serdere_json::*;
use std::fmt::Debug;
use std::num::*;
use vh::gen::*;
use vh::place::{at, place, KINDS};
use vh::reader::{Chunked, MonReader};
use vh::run::{quiet, show};
use vh::types::{int_of, same};
use vh::*;

/// Where the fields of a struct come from: an object, or an array in order.
struct Src<'a> {
    v: &'a V,
    next: usize,
}
impl<'a> Src<'a> {
    /// `None` is an error, `Some(None)` a missing entry.
    fn field(&mut self, name: &str) -> Option<Option<&'a V>> {
        match self.v {
            V::Obj(es) => Some(es.iter().find(|e| e.0 == name).map(|e| &e.1)),
            V::Arr(xs) => {
                self.next += 1;
                xs.get(self.next - 1).map(Some)
            }
            _ => None,
        }
    }
    fn get<T: Dec>(&mut self, name: &str) -> Option<T> {
        T::dec(self.field(name)?)
    }
}
fn as_struct<'a, T>(n: Option<&'a V>, f: impl FnOnce(&mut Src<'a>) -> Option<T>) -> Option<T> {
    let v = n?;
    if !matches!(v, V::Obj(_) | V::Arr(_)) {
        return None;
    }
    let mut s = Src { v, next: 0 };
    let r = f(&mut s)?;
    if let V::Arr(xs) = v {
        if xs.len() != s.next {
            return None;
        }
    }
    Some(r)
}

/// Reference reading and writing.
trait Dec: Sized + Debug {
    const NULLABLE: bool = false;
    fn gen(r: &mut Rng) -> Self;
    fn enc(&self) -> V;
    /// `None` is an error.
    fn dec(n: Option<&V>) -> Option<Self>;
}
trait DecStruct: Dec {
    fn enc_s(&self) -> Vec<(String, V)>;
    fn dec_s(s: &mut Src) -> Option<Self>;
}

fn num<T: TryFrom<i128>>(n: Option<&V>) -> Option<T> {
    match n? {
        V::Num(x) => T::try_from(x.parse::<i128>().ok()?).ok(),
        _ => None,
    }
}
macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Dec for $t {
            fn gen(r: &mut Rng) -> Self { int_of(r, <$t>::MIN as i128, <$t>::MAX as i128) as $t }
            fn enc(&self) -> V { V::Num(self.to_string()) }
            fn dec(n: Option<&V>) -> Option<Self> { num(n) }
        }
    )*};
}
ints!(u8 u16 u32 u64 i8 i16 i32 i64);
macro_rules! non_zeros {
    ($($n:ident $t:ty;)*) => {$(
        impl Dec for $n {
            fn gen(r: &mut Rng) -> Self { <$n>::new(<$t as Dec>::gen(r)).unwrap_or(<$n>::MAX) }
            fn enc(&self) -> V { V::Num(self.to_string()) }
            fn dec(n: Option<&V>) -> Option<Self> { num::<$t>(n).and_then(<$n>::new) }
        }
    )*};
}
non_zeros!(NonZeroU8 u8; NonZeroU16 u16; NonZeroU32 u32; NonZeroU64 u64; NonZeroI8 i8; NonZeroI16 i16; NonZeroI32 i32; NonZeroI64 i64;);
macro_rules! floats {
    ($($t:ty)*) => {$(
        impl Dec for $t {
            fn gen(r: &mut Rng) -> Self { *r.pick(&[0.0, 1.0, -1.5, 0.25, 1e10, 3e-7]) }
            fn enc(&self) -> V { V::Num(format!("{:?}", self)) }
            fn dec(n: Option<&V>) -> Option<Self> {
                match n? {
                    V::Num(x) => x.parse().ok(),
                    _ => None,
                }
            }
        }
    )*};
}
floats!(f32 f64);
#[derive(Debug, Serialize, Deserialize)]
enum Plain {
    One,
    None,
    #[serde(rename = "a")]
    Null,
}
impl Dec for Plain {
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Plain::One,
            1 => Plain::None,
            _ => Plain::Null,
        }
    }
    fn enc(&self) -> V {
        V::Str(match self {
            Plain::One => "One",
            Plain::None => "None",
            Plain::Null => "a",
        }.into())
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        let s = match n? {
            V::Str(s) | V::Num(s) => s.as_str(),
            _ => return None,
        };
        let num = matches!(n, Some(V::Num(_)));
        match (s, num) {
            ("One", false) | ("0", true) => Some(Plain::One),
            ("None", false) | ("1", true) => Some(Plain::None),
            ("a", false) | ("2", true) => Some(Plain::Null),
            _ => None,
        }
    }
}
/// Has the text the expected form? Numbers are compared by value.
fn conforms(v: &V, n: &JNode) -> bool {
    match (v, &n.kind) {
        (V::Num(a), JKind::Num(b)) => a == b || a.parse::<f64>().ok() == b.parse::<f64>().ok() && a.contains(['.', 'e']),
        (V::Arr(a), JKind::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| conforms(x, y)),
        (V::Obj(a), JKind::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), e)| *k == e.key && conforms(x, &e.value)),
        _ => gen::matches(v, n),
    }
}
impl Dec for bool {
    fn gen(r: &mut Rng) -> Self {
        r.bool()
    }
    fn enc(&self) -> V {
        V::Bool(*self)
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        match n? {
            V::Bool(b) => Some(*b),
            _ => None,
        }
    }
}
impl Dec for String {
    fn gen(r: &mut Rng) -> Self {
        gen::string(r, false)
    }
    fn enc(&self) -> V {
        V::Str(self.clone())
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        match n? {
            V::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
}
impl Dec for char {
    fn gen(r: &mut Rng) -> Self {
        gen::any_char(r)
    }
    fn enc(&self) -> V {
        V::Str(self.to_string())
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        match n? {
            V::Str(s) if s.chars().count() == 1 => s.chars().next(),
            _ => None,
        }
    }
}
impl Dec for () {
    fn gen(_: &mut Rng) -> Self {}
    fn enc(&self) -> V {
        V::Obj(vec![])
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        as_struct(n, |_| Some(()))
    }
}
impl DecStruct for () {
    fn enc_s(&self) -> Vec<(String, V)> {
        vec![]
    }
    fn dec_s(_: &mut Src) -> Option<Self> {
        Some(())
    }
}
fn items<'a>(n: Option<&'a V>, len: Option<usize>) -> Option<&'a [V]> {
    match n? {
        V::Arr(xs) if len.map_or(true, |l| l == xs.len()) => Some(xs),
        _ => None,
    }
}
impl<T: Dec> Dec for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        (0..r.small(4)).map(|_| T::gen(r)).collect()
    }
    fn enc(&self) -> V {
        V::Arr(self.iter().map(T::enc).collect())
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        items(n, None)?.iter().map(|x| T::dec(Some(x))).collect()
    }
}
impl<T: Dec, const N: usize> Dec for [T; N] {
    fn gen(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::gen(r))
    }
    fn enc(&self) -> V {
        V::Arr(self.iter().map(T::enc).collect())
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        let x = items(n, Some(N))?;
        let x = x.iter().map(|x| T::dec(Some(x))).collect::<Option<Vec<T>>>()?;
        x.try_into().ok()
    }
}
impl<A: Dec, B: Dec, C: Dec> Dec for (A, B, C) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r), C::gen(r))
    }
    fn enc(&self) -> V {
        V::Arr(vec![self.0.enc(), self.1.enc(), self.2.enc()])
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        let x = items(n, Some(3))?;
        Some((A::dec(Some(&x[0]))?, B::dec(Some(&x[1]))?, C::dec(Some(&x[2]))?))
    }
}
impl<A: Dec, B: Dec> Dec for (A, B) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r))
    }
    fn enc(&self) -> V {
        V::Arr(vec![self.0.enc(), self.1.enc()])
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        let x = items(n, Some(2))?;
        Some((A::dec(Some(&x[0]))?, B::dec(Some(&x[1]))?))
    }
}
impl<T: Dec> Dec for Option<T> {
    const NULLABLE: bool = true;
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 3) { None } else { Some(T::gen(r)) }
    }
    fn enc(&self) -> V {
        if T::NULLABLE {
            V::Obj(match self {
                None => vec![("has_value".into(), V::Bool(false))],
                Some(x) => vec![("has_value".into(), V::Bool(true)), ("value".into(), x.enc())],
            })
        } else {
            self.as_ref().map_or(V::Null, T::enc)
        }
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        if T::NULLABLE {
            as_struct(n, |s| Some(if s.get::<bool>("has_value")? { Some(s.get("value")?) } else { None }))
        } else {
            match n {
                None | Some(V::Null) => Some(None),
                x => T::dec(x).map(Some),
            }
        }
    }
}

#[derive(Debug, Serialize, Deserialize)]
struct Pair {
    x: i32,
    y: Option<u8>,
}
#[derive(Debug, Serialize, Deserialize)]
struct Holder<T> {
    pre: u8,
    v: T,
    #[serde(flatten)]
    f: Inner<T>,
    #[serde(rename = "l i")]
    list: Vec<T>,
    #[serde(default)]
    d: u8,
    #[serde(default)]
    o: Option<String>,
    #[serde(default)]
    oo: Option<Option<u8>>,
    #[serde(default)]
    t: Dflt,
}
#[derive(Debug, Serialize, Deserialize)]
struct Inner<T> {
    fv: T,
    #[serde(default)]
    fd: i64,
    fo: Option<Pair>,
}
#[derive(Debug, Serialize, Deserialize)]
struct Dflt {
    k: Option<u8>,
}
impl Default for Dflt {
    fn default() -> Self {
        Dflt { k: Some(7) }
    }
}
#[derive(Debug, Serialize, Deserialize)]
enum Choice<T> {
    #[serde(transparent)]
    In(Inner<T>),
    One { v: T },
    None,
}
macro_rules! via_struct {
    ($t:ty $(, $p:ident)?) => {
        fn enc(&self) -> V { V::Obj(self.enc_s()) }
        fn dec(n: Option<&V>) -> Option<Self> { as_struct(n, |s| Self::dec_s(s)) }
    };
}
fn or_default<T: Dec + Default>(s: &mut Src, name: &str) -> Option<T> {
    match s.field(name)? {
        None | Some(V::Null) => Some(T::default()),
        x => T::dec(x),
    }
}
impl Dec for Pair {
    fn gen(r: &mut Rng) -> Self {
        Pair { x: Dec::gen(r), y: Dec::gen(r) }
    }
    via_struct!(Pair);
}
impl DecStruct for Pair {
    fn enc_s(&self) -> Vec<(String, V)> {
        vec![("x".into(), self.x.enc()), ("y".into(), self.y.enc())]
    }
    fn dec_s(s: &mut Src) -> Option<Self> {
        Some(Pair { x: s.get("x")?, y: s.get("y")? })
    }
}
impl Dec for Dflt {
    fn gen(r: &mut Rng) -> Self {
        Dflt { k: Dec::gen(r) }
    }
    via_struct!(Dflt);
}
impl DecStruct for Dflt {
    fn enc_s(&self) -> Vec<(String, V)> {
        vec![("k".into(), self.k.enc())]
    }
    fn dec_s(s: &mut Src) -> Option<Self> {
        Some(Dflt { k: s.get("k")? })
    }
}
impl<T: Dec> Dec for Inner<T> {
    fn gen(r: &mut Rng) -> Self {
        Inner { fv: Dec::gen(r), fd: Dec::gen(r), fo: Dec::gen(r) }
    }
    via_struct!(Inner<T>, T);
}
impl<T: Dec> DecStruct for Inner<T> {
    fn enc_s(&self) -> Vec<(String, V)> {
        vec![("fv".into(), self.fv.enc()), ("fd".into(), self.fd.enc()), ("fo".into(), self.fo.enc())]
    }
    fn dec_s(s: &mut Src) -> Option<Self> {
        Some(Inner { fv: s.get("fv")?, fd: or_default(s, "fd")?, fo: s.get("fo")? })
    }
}
impl<T: Dec> Dec for Holder<T> {
    fn gen(r: &mut Rng) -> Self {
        Holder { pre: Dec::gen(r), v: Dec::gen(r), f: Dec::gen(r), list: Dec::gen(r), d: Dec::gen(r), o: Dec::gen(r), oo: Dec::gen(r), t: Dec::gen(r) }
    }
    via_struct!(Holder<T>, T);
}
impl<T: Dec> DecStruct for Holder<T> {
    fn enc_s(&self) -> Vec<(String, V)> {
        let mut f = vec![("pre".into(), self.pre.enc()), ("v".into(), self.v.enc())];
        f.extend(self.f.enc_s());
        f.extend([
            ("l i".into(), self.list.enc()),
            ("d".into(), self.d.enc()),
            ("o".into(), self.o.enc()),
            ("oo".into(), self.oo.enc()),
            ("t".into(), self.t.enc()),
        ]);
        f
    }
    fn dec_s(s: &mut Src) -> Option<Self> {
        Some(Holder {
            pre: s.get("pre")?,
            v: s.get("v")?,
            f: Inner::dec_s(s)?,
            list: s.get("l i")?,
            d: or_default(s, "d")?,
            o: or_default(s, "o")?,
            oo: or_default(s, "oo")?,
            t: or_default(s, "t")?,
        })
    }
}
impl<T: Dec> Dec for Choice<T> {
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Choice::In(Dec::gen(r)),
            1 => Choice::One { v: Dec::gen(r) },
            _ => Choice::None,
        }
    }
    fn enc(&self) -> V {
        let t = |s: &str| ("type".to_string(), V::Str(s.into()));
        V::Obj(match self {
            Choice::In(x) => {
                let mut f = vec![t("In")];
                f.extend(x.enc_s());
                f
            }
            Choice::One { v } => vec![t("One"), ("v".into(), v.enc())],
            Choice::None => vec![t("None")],
        })
    }
    fn dec(n: Option<&V>) -> Option<Self> {
        as_struct(n, |s| match s.field("type")?? {
            V::Str(x) if x == "In" => Some(Choice::In(Inner::dec_s(s)?)),
            V::Num(x) if x == "0" => Some(Choice::In(Inner::dec_s(s)?)),
            V::Str(x) if x == "One" => Some(Choice::One { v: s.get("v")? }),
            V::Num(x) if x == "1" => Some(Choice::One { v: s.get("v")? }),
            V::Str(x) if x == "None" => Some(Choice::None),
            V::Num(x) if x == "2" => Some(Choice::None),
            _ => None,
        })
    }
}

/// Changes one random node of the document.
fn edit(rng: &mut Rng, v: &mut V) {
    fn count(v: &V) -> usize {
        1 + match v {
            V::Arr(x) => x.iter().map(count).sum(),
            V::Obj(x) => x.iter().map(|e| count(&e.1)).sum(),
            _ => 0,
        }
    }
    fn nth<'a>(v: &'a mut V, n: &mut usize) -> Option<&'a mut V> {
        if *n == 0 {
            return Some(v);
        }
        *n -= 1;
        match v {
            V::Arr(x) => x.iter_mut().find_map(|x| nth(x, n)),
            V::Obj(x) => x.iter_mut().find_map(|x| nth(&mut x.1, n)),
            _ => None,
        }
    }
    let mut n = rng.below(count(v));
    let t = nth(v, &mut n).unwrap();
    let small = |rng: &mut Rng| match rng.below(10) {
        0 => V::Null,
        1 => V::Bool(rng.bool()),
        2 => V::Num(rng.pick(&["0", "1", "2", "255", "256", "-1", "70000"]).to_string()),
        3 => V::Str(rng.pick(&["", "a", "ab", "One", "None"]).to_string()),
        4 => V::Arr(vec![]),
        5 => V::Arr(vec![V::Bool(rng.bool())]),
        6 => V::Arr(vec![V::Bool(true), V::Null]),
        7 => V::Obj(vec![]),
        8 => V::Obj(vec![("has_value".into(), V::Bool(rng.bool()))]),
        _ => V::Obj(vec![("has_value".into(), V::Bool(rng.bool())), ("value".into(), V::Num("3".into()))]),
    };
    match rng.below(7) {
        0 | 1 => *t = V::Null,
        2 => *t = small(rng),
        3 => match t {
            V::Obj(x) if !x.is_empty() => {
                let i = rng.below(x.len());
                x.remove(i);
            }
            V::Arr(x) if !x.is_empty() => {
                let i = rng.below(x.len());
                x.remove(i);
            }
            _ => *t = V::Null,
        },
        4 => match t {
            V::Obj(x) => {
                let k = rng.pick(&["extra", "value", "has_value", "v", "", "Value"]).to_string();
                if !x.iter().any(|e| e.0 == k) {
                    let at = rng.below(x.len() + 1);
                    x.insert(at, (k, small(rng)));
                }
            }
            V::Arr(x) => {
                let at = rng.below(x.len() + 1);
                x.insert(at, small(rng));
            }
            _ => *t = small(rng),
        },
        // Same entries by position
        5 => {
            if let V::Obj(x) = t {
                *t = V::Arr(x.drain(..).map(|e| e.1).collect());
            }
        }
        _ => {
            if let V::Obj(x) = t {
                for i in (1..x.len()).rev() {
                    x.swap(i, rng.below(i + 1));
                }
            }
        }
    }
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;

fn differ<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Dec
        + for<'a> Serialize<TextSerializer<&'a mut String>>
        + for<'s> Deserialize<TextDeserializer<&'s str>>
        + for<'s> Deserialize<TextDeserializer<MonReader<'s>>>
        + for<'s> Deserialize<TextDeserializer<Utf8Reader<Chunked<'s>>>>,
{
    let name = std::any::type_name::<T>();
    let x = T::gen(rng);
    let mut v = x.enc();
    // Written form
    let text = to_str(&x);
    match refjson::parse(&text, false) {
        Ok(n) if conforms(&v, &n) => {}
        _ => return Err(format!("{:?} of type {} is written as {}", x, name, show(&text))),
    }
    for _ in 0..rng.small(4) {
        edit(rng, &mut v);
    }
    let want = T::dec(Some(&v));
    let st = Style::random(rng, false);
    let text = render(rng, &v, &st);
    cx.distinct_str(&format!("{}{}", name, text));
    cx.sample(|| format!("{} as {} -> {:?}", show(&text), name, want));
    let got = quiet(|| match rng.below(3) {
        0 => from_str::<T>(&text).map_err(|e| walk::emsg(&e)),
        1 => from_reader::<_, T>(MonReader::new(&text)).map_err(|e| walk::emsg(&e)),
        _ => from_reader::<_, T>(Utf8Reader::new(Chunked::new(text.as_bytes(), vec![rng.range(1, 7)])).unwrap()).map_err(|e| walk::emsg(&e)),
    })
    .map_err(|p| format!("panic {} reading {} from {}", p, name, show(&text)))?;
    match (want, got) {
        (None, Err(_)) => cx.count("refused", 1),
        (None, Ok(g)) => return Err(format!("{} must be refused as {} but gives {:?}", show(&text), name, g)),
        (Some(w), Err(e)) => return Err(format!("{} as {} must give {:?} but fails: {}", show(&text), name, w, e)),
        (Some(w), Ok(g)) => {
            ensure!(same(&w, &g), "{} as {} must give {:?} but gives {:?}", show(&text), name, w, g);
            cx.count("accepted", 1)
        }
    }
    Ok(())
}
macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$(differ::<$t> as F, differ::<Holder<$t>> as F),*] };
}
type O<T> = Option<T>;
const TABLE: &[F] = table!(
    u8, bool, String, char, (), Pair, NonZeroU16, Vec<u8>, (u8, bool), [u8; 2],
    O<u8>, O<bool>, O<String>, O<char>, O<()>, O<Pair>, O<NonZeroU16>, O<Vec<u8>>, O<(u8, O<u8>)>, O<[O<u8>; 2]>, O<Vec<O<u8>>>, O<Holder<u8>>, O<Choice<u8>>, O<u64>,
    O<O<u8>>, O<O<bool>>, O<O<String>>, O<O<()>>, O<O<Pair>>, O<O<Vec<O<O<u8>>>>>, O<O<(O<u8>, O<O<u8>>)>>, O<O<Holder<O<u8>>>>,
    O<O<O<u8>>>, O<O<O<()>>>, O<O<O<O<bool>>>>, O<O<O<O<O<String>>>>>,
    Vec<O<u8>>, Vec<O<O<u8>>>, Vec<O<O<O<Pair>>>>, (O<u8>, O<O<u8>>), [O<O<bool>>; 2],
    Choice<O<u8>>, Choice<O<O<u8>>>, Choice<Choice<u8>>, Choice<Holder<O<O<bool>>>>, O<O<Choice<O<u8>>>>,
);
/// Every built-in type, bare and as an option at several levels and places.
macro_rules! leaves {
    ($($t:ty),* $(,)?) => { &[$(differ::<$t> as F, differ::<O<$t>> as F, differ::<O<O<$t>>> as F, differ::<(O<$t>, O<O<$t>>, $t)> as F, differ::<Inner<O<$t>>> as F),*] };
}
const LEAVES: &[F] = leaves!(
    u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, char, String, (), Plain,
    NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64,
    Vec<u8>, [u8; 0], [bool; 1], [O<u8>; 3], (u8, bool), (O<u8>, bool, String), Pair, Dflt, Vec<O<()>>,
);
fn builtins(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    LEAVES[idx as usize % LEAVES.len()](rng, cx)
}
fn options(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    TABLE[idx as usize % TABLE.len()](rng, cx)
}

/// `check_null`, option reading and required reading of raw values in every placement.
fn placed(rng: &mut Rng, _idx: u64, cx: &mut Cx) -> Result<(), String> {
    let values = ["null", "true", "false", "0", "-1", "7", "\"\"", "\"null\"", "\"x\"", "[]", "{}", "[null]", "{\"a\":null}"];
    // Something like null is neither null nor anything else
    const NEAR: &[&str] = &[
        "n", "nu", "nul", "nulL", "nil", "nULL", "Null", "NULL", "nullx", "nulll", "null0", "null_", "nulle", "nnull", "ull", "nul l", "nu\nll", "null null", "nullnull",
        "n\u{fa}ll", "nul\u{ff4c}", "none", "None", "nan", "undefined", "\0", "",
    ];
    let near = rng.chance(1, 4);
    let v = if near { *rng.pick(NEAR) } else { *rng.pick(&values) };
    let kind = rng.below(KINDS);
    let p = place(rng, kind, v);
    let is_null = v == "null";
    let op = rng.below(19);
    let t = p.text.as_str();
    cx.distinct_str(&format!("{} {}", op, t));
    // What the operation must give (`None`: an error)
    let number = matches!(v, "0" | "-1" | "7");
    let string = v.starts_with('"');
    let want: Option<String> = match op {
        0 => Some(format!("{}", is_null)),
        1 => if is_null { Some("None".into()) } else if matches!(v, "0" | "7") { Some(format!("Some({})", v)) } else { None },
        2 => if is_null { Some("None".into()) } else if matches!(v, "true" | "false") { Some(format!("Some({})", v)) } else { None },
        3 => if is_null { Some("None".into()) } else if string { Some(format!("Some({})", v)) } else { None },
        4 => if is_null { Some("None".into()) } else if v == "[]" { Some("Some([])".into()) } else { None },
        5 => if is_null { Some("None".into()) } else if v == "{}" || v == "[]" || v == "{\"a\":null}" { Some("Some(())".into()) } else { None },
        // Required readings
        6 => if matches!(v, "0" | "7") { Some(v.into()) } else { None },
        7 => if number { Some(format!("{:?}", v.parse::<f64>().unwrap())) } else { None },
        8 => if matches!(v, "true" | "false") { Some(v.into()) } else { None },
        9 => if string { Some(v.into()) } else { None },
        10 => if v == "\"x\"" { Some("'x'".into()) } else { None },
        11 => match v { "[]" => Some("[]".into()), "[null]" => Some("[None]".into()), _ => None },
        12 => match v { "{}" | "{\"a\":null}" | "[]" => Some("()".into()), _ => None },
        13 => if string { Some("open".into()) } else { None },
        14 => match v { "[null]" => Some("tuple".into()), _ => None },
        15 => match v { "{}" | "{\"a\":null}" => Some("object".into()), _ => None },
        16 => if is_null { Some("null".into()) } else { None },
        // An option whose inner type uses null itself
        17 => None,
        _ => Some(format!("{} twice", is_null)),
    };
    let want = want.filter(|_| !near);
    if near {
        cx.count("near_null", 1);
    }
    for which in 0..2 {
        let got: Result<Result<String, String>, String> = quiet(|| match which {
            0 => {
                let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), t).unwrap();
                let r = at(kind, &mut d, |d| perform(op, d)).map_err(|e| walk::emsg(&e))?;
                d.close().map_err(|e| walk::emsg(&e))?;
                Ok(r)
            }
            _ => {
                let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), MonReader::new(t)).unwrap();
                let r = at(kind, &mut d, |d| perform(op, d)).map_err(|e| walk::emsg(&e))?;
                d.close().map_err(|e| walk::emsg(&e))?;
                Ok(r)
            }
        });
        let got = got.map_err(|e| format!("panic {} in operation {} on {}", e, op, show(t)))?;
        ensure!(got.as_ref().ok() == want.as_ref(), "operation {} on value {} in {} (place {}, {}): {:?}, expected {:?}", op, v, show(t), kind, if p.buffered { "buffered" } else { "streamed" }, got, want);
    }
    cx.count(if want.is_some() { "placed_ok" } else { "placed_refused" }, 1);
    cx.count(if p.buffered { "buffered" } else { "streamed" }, 1);
    Ok(())
}
fn perform<R: TextReader>(op: usize, d: &mut TextDeserializer<R>) -> Result<String, DeserializeError<R::Position>> {
    fn show<T: Debug>(x: T) -> String {
        format!("{:?}", x)
    }
    match op {
        0 => Value::with(d, |mut v| {
            let n = v.check_null()?;
            if !n {
                v.skip()?;
            }
            Ok(n.to_string())
        }),
        1 => Value::with(d, |v| v.get::<Option<u8>>()).map(show),
        2 => Value::with(d, |v| v.get::<Option<bool>>()).map(show),
        3 => Value::with(d, |v| v.get::<Option<String>>()).map(show),
        4 => Value::with(d, |v| v.get::<Option<Vec<u8>>>()).map(show),
        5 => Value::with(d, |v| v.get::<Option<()>>()).map(show),
        6 => Value::with(d, |v| v.get::<u8>()).map(show),
        7 => Value::with(d, |v| v.get_f64()).map(show),
        8 => Value::with(d, |v| v.get_bool()).map(show),
        9 => Value::with(d, |v| v.get_str().map(|s| s.into_owned())).map(show),
        10 => Value::with(d, |v| v.get_char()).map(show),
        11 => Value::with(d, |v| v.get::<Vec<Option<u8>>>()).map(show),
        12 => Value::with(d, |v| v.get::<()>()).map(show),
        13 => {
            d.open_str()?;
            while d.next_char()?.is_some() {}
            Ok("open".into())
        }
        14 => Value::with(d, |v| {
            let mut t = v.into_tuple(None)?;
            t.element()?.skip()?;
            t.close()?;
            Ok("tuple".into())
        }),
        15 => Value::with(d, |v| {
            let mut o = v.into_object()?;
            while let Some(e) = o.next_entry()? {
                e.value()?.skip()?;
            }
            Ok("object".into())
        }),
        16 => d.pop_null().map(|_| "null".into()),
        17 => Value::with(d, |v| v.get::<Option<Option<u8>>>()).map(show),
        // Asking again after a negative answer
        _ => Value::with(d, |mut v| {
            let n = v.check_null()?;
            if !n {
                assert!(!v.check_null()?, "null on the second question");
                v.skip()?;
            }
            Ok(format!("{} twice", n))
        }),
    }
}

fn main() {
    run::main(Check {
        id: "C19",
        level: "exploration",
        rule: "documents made by editing (null, removal, replacement, insertion, positional form, reordering) the encoding of values of 92 option-heavy types, read and compared in value and acceptance with an independent reference decoder, and the written form with its reference encoding; null checks, option reading and required reading of 13 values and 27 misspellings of null in 16 placements; distinct by type and text",
        assumptions: &["the reference decoder states the documented option representation: null for options of types that do not use null themselves, else a has_value/value struct"],
        phases: vec![
            Phase { name: "options", quick: 2400000, thorough: 0, f: options },
            Phase { name: "builtins", quick: 1600000, thorough: 0, f: builtins },
            Phase { name: "placed", quick: 800000, thorough: 0, f: placed },
        ],
        floors: &[("accepted", 2000), ("refused", 2000), ("placed_ok", 1000), ("placed_refused", 1000), ("streamed", 500), ("buffered", 500)],
        hang_cpu_s: 30,
    });
}
