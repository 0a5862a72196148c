//! C21: types drive any conforming backend by the documented protocol.
use serdere::*;
use std::rc::Rc;
use vh::backend::*;
use vh::run::{quiet, show};
use vh::types::*;
use vh::types2::*;
use vh::types3::*;
use vh::*;

/// Is this recording what a value with the given model should be written as?
fn agree(m: &M, n: &Node, null: bool) -> Result<(), String> {
    let bad = || Err(format!("expected {:?}, recorded {:?}", m, n));
    if let (false, Node::Struct(Some("Option"), f)) = (null, n) {
        // An option without null
        let own = matches!(m, M::Obj(g) if g.first().map_or(false, |g| g.key == "has_value"));
        let Some(("has_value", has)) = f.first().map(|f| (f.0, &*f.1)) else { return bad() };
        match (has, f.len()) {
            (Node::Bool(true), 2) if f[1].0 == "value" => {
                return match m {
                    M::Obj(g) if own => {
                        if g.len() == 2 && g[0].val == M::Bool(true) {
                            agree(&g[1].val, &f[1].1, null)
                        } else {
                            bad()
                        }
                    }
                    M::Null => bad(),
                    _ => agree(m, &f[1].1, null),
                }
            }
            (Node::Bool(false), 1) => {
                return match m {
                    M::Null => Ok(()),
                    M::Obj(g) if own && g.len() == 1 && g[0].val == M::Bool(false) => Ok(()),
                    _ => bad(),
                }
            }
            _ => return bad(),
        }
    }
    match (m, n) {
        (M::Null, Node::Null) if null => Ok(()),
        (M::Bool(a), Node::Bool(b)) if a == b => Ok(()),
        (M::Int(a), Node::Int(_, b)) if a == b => Ok(()),
        (M::F32(a), Node::F32(b)) if a.to_bits() == *b => Ok(()),
        (M::F64(a), Node::F64(b)) if a.to_bits() == *b => Ok(()),
        (M::Str(a), Node::Str(b)) if a == b => Ok(()),
        (M::Str(a), Node::Char(b)) if a.chars().eq([*b]) => Ok(()),
        (M::Tag(a, i), Node::Tag { max, index, name: Some(b) }) if a == b && i == index && index <= max => Ok(()),
        (M::Arr(a), Node::List(b)) | (M::Tup(a), Node::Tuple(_, b)) if a.len() == b.len() => {
            a.iter().zip(b).try_for_each(|(a, b)| agree(a, b, null))
        }
        (M::Obj(a), Node::Struct(_, b)) if a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.key == b.0) => {
            a.iter().zip(b).try_for_each(|(a, b)| agree(&a.val, &b.1, null))
        }
        _ => bad(),
    }
}

/// One write, possibly with a failing call. Gives the recording and the number of calls.
fn write<T: Serialize<RecSer>>(v: &T, caps: Caps, fail_at: Option<usize>) -> Result<(Result<Node, String>, usize), String> {
    let mut s = RecSer::new(caps);
    s.fail_at = fail_at;
    let mut done = false;
    let r = quiet(|| v.serialize(Value::new(&mut s, &mut done), &mut ()))?;
    let calls = s.calls;
    ensure!(s.after_fail == 0, "{} calls after a failed call", s.after_fail);
    match r {
        Err(e) => Ok((Err(e.0), calls)),
        Ok(()) => {
            ensure!(done, "the value is not marked as consumed");
            Ok((Ok(s.finish()?), calls))
        }
    }
}

fn read<T: Deserialize<RecDe>>(n: &Rc<Node>, caps: Caps, fail_at: Option<usize>) -> Result<(Result<T, String>, usize), String> {
    let mut d = RecDe::new(caps, n.clone());
    d.fail_at = fail_at;
    let mut done = false;
    let r = quiet(|| T::deserialize(Value::new(&mut d, &mut done), &mut ()))?;
    let calls = d.calls;
    ensure!(d.after_fail == 0, "{} calls after a failed call", d.after_fail);
    match r {
        Err(e) => Ok((Err(e.0), calls)),
        Ok(v) => {
            ensure!(done, "the value is not marked as consumed");
            d.finish()?;
            Ok((Ok(v), calls))
        }
    }
}

fn trip<T>(rng: &mut Rng, cx: &mut Cx) -> Result<(), String>
where
    T: Ty + Serialize<RecSer> + Deserialize<RecDe>,
{
    let v = T::gen(rng);
    trip_value(rng, cx, &v, 0..8)
}

fn trip_value<T>(rng: &mut Rng, cx: &mut Cx, v: &T, which: std::ops::Range<usize>) -> Result<(), String>
where
    T: Ty + Serialize<RecSer> + Deserialize<RecDe>,
{
    let name = std::any::type_name::<T>();
    let m = v.model();
    ensure!(
        <T as Serialize<RecSer>>::NULLABLE == <T as Ty>::NULLABLE && <T as Deserialize<RecDe>>::NULLABLE == <T as Ty>::NULLABLE,
        "{} may be null: {} when written, {} when read, should be {}",
        name,
        <T as Serialize<RecSer>>::NULLABLE,
        <T as Deserialize<RecDe>>::NULLABLE,
        <T as Ty>::NULLABLE
    );
    for i in which {
        let caps = Caps::all(i);
        let ctx = |what: &str, e: String| format!("{} {} {} with {:?}: {}", what, name, show(&format!("{:?}", v)), caps, e);
        let (node, calls) = write(v, caps, None).map_err(|e| ctx("writing", e))?;
        let node = Rc::new(node.map_err(|e| ctx("writing", e))?);
        agree(&m, &node, caps.null).map_err(|e| ctx("writing", e))?;
        cx.count("calls", calls as u64);
        cx.max("nodes", node.count() as u64);
        if i == 7 {
            cx.distinct_str(&format!("{}{:?}", name, node));
            cx.sample(|| format!("{} {:?}", name, node));
        }
        let (got, rcalls) = read::<T>(&node, caps, None).map_err(|e| ctx("reading back", e))?;
        let got = got.map_err(|e| ctx("reading back", e))?;
        cx.count("calls", rcalls as u64);
        ensure!(same(&got, v), "{}", ctx("reading back", format!("gives {:?}", got)));
        cx.count("trips", 1);
        // A call that fails ends it
        if i == rng.below(8) {
            let k = rng.range(1, calls);
            let (r, _) = write(v, caps, Some(k)).map_err(|e| ctx(&format!("writing with a failure of call {} of {}", k, calls), e))?;
            ensure!(matches!(&r, Err(e) if e.contains("injected")), "{}", ctx("writing with a failure", format!("gives {:?}", r)));
            let k = rng.range(1, rcalls);
            let (r, _) = read::<T>(&node, caps, Some(k)).map_err(|e| ctx(&format!("reading with a failure of call {} of {}", k, rcalls), e))?;
            ensure!(matches!(&r, Err(e) if e.contains("injected")), "{}", ctx("reading with a failure", format!("gives {:?}", r)));
            cx.count("failures", 2);
        }
        // Data of some other kind is refused, or read, with legal calls only
        if i == rng.below(8) {
            let node = Rc::new(spoil(rng, &node, caps.null));
            let caps = Caps { strict: false, lax: true, ..caps };
            let (r, _) = read::<T>(&node, caps, None).map_err(|e| format!("reading {} from {} with {:?}: {}", name, show(&format!("{:?}", node)), caps, e))?;
            cx.count(if r.is_ok() { "odd_read" } else { "odd_refused" }, 1);
        }
    }
    cx.evals += 7;
    Ok(())
}

/// Changes one node of a tree.
fn spoil(rng: &mut Rng, n: &Node, null: bool) -> Node {
    fn go(rng: &mut Rng, n: &Node, k: &mut usize, null: bool) -> Node {
        if *k == 0 {
            *k = usize::MAX;
            return change(rng, n, null);
        }
        *k -= 1;
        let mut f = |x: &Rc<Node>| Rc::new(go(rng, x, k, null));
        match n {
            Node::Struct(a, x) => Node::Struct(*a, x.iter().map(|x| (x.0, f(&x.1))).collect()),
            Node::Tuple(a, x) => Node::Tuple(*a, x.iter().map(f).collect()),
            Node::List(x) => Node::List(x.iter().map(f).collect()),
            Node::Stream(x) => Node::Stream(x.iter().map(f).collect()),
            n => n.clone(),
        }
    }
    let mut k = rng.below(n.count());
    go(rng, n, &mut k, null)
}
fn change(rng: &mut Rng, n: &Node, null: bool) -> Node {
    let mut n = n.clone();
    match &mut n {
        Node::Struct(_, x) if rng.bool() => {
            if x.is_empty() || rng.bool() {
                x.push(("extra", Rc::new(Node::Bool(true))));
            } else {
                x.remove(rng.below(x.len()));
            }
            return n;
        }
        Node::Tuple(_, x) | Node::List(x) if rng.bool() => {
            if x.is_empty() || rng.bool() {
                x.push(Rc::new(Node::Int("u8", 1)));
            } else {
                x.remove(rng.below(x.len()));
            }
            return n;
        }
        Node::List(x) if rng.bool() => return Node::Stream(x.clone()),
        Node::Tag { max, index, .. } if rng.bool() => {
            *index = rng.below(*max + 1);
            return n;
        }
        Node::Int(_, x) if rng.bool() => {
            *x = *rng.pick(&[0, -1, 256, 70000, 1 << 40, -(1 << 70)]);
            return n;
        }
        _ => {}
    }
    match rng.below(8) {
        0 if null => Node::Null,
        1 => Node::Bool(rng.bool()),
        2 => Node::Int("i32", 5),
        3 => Node::Str("left".into()),
        4 => Node::List(vec![]),
        5 => Node::Struct(None, vec![]),
        6 => Node::Tuple(None, vec![Rc::new(Node::Char('x'))]),
        _ => Node::F64(0),
    }
}

type F = fn(&mut Rng, &mut Cx) -> Result<(), String>;
macro_rules! table { ($($t:ty),* $(,)?) => { &[$(trip::<$t> as F),*] }; }
const FAMILY: &[F] = all_types!(table);
const MORE: &[F] = more_types!(table);
fn family(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    FAMILY[idx as usize % FAMILY.len()](rng, cx)
}
fn more(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    MORE[idx as usize % MORE.len()](rng, cx)
}

/// Lists and strings of many items.
fn large(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    fn list<T>(rng: &mut Rng, cx: &mut Cx, n: usize) -> Result<(), String>
    where
        T: Ty + Clone + Serialize<RecSer> + Deserialize<RecDe>,
        Vec<T>: Ty + Serialize<RecSer> + Deserialize<RecDe>,
    {
        let some: Vec<T> = (0..n.min(50)).map(|_| T::gen(rng)).collect();
        // Few items are not what is common
        let v: Vec<T> = (0..n).map(|i| some[i % some.len()].clone()).collect();
        let i = rng.below(8);
        trip_value(rng, cx, &v, i..i + 1)
    }
    let n = gen::length(rng, 140_000);
    cx.max("items", n as u64);
    match idx % 6 {
        0 => list::<u8>(rng, cx, n),
        1 => list::<Option<bool>>(rng, cx, n),
        2 => list::<[u16; 2]>(rng, cx, n),
        3 => list::<char>(rng, cx, n),
        4 => list::<String>(rng, cx, n / 8 + 1),
        _ => {
            let i = rng.below(8);
            let s = gen::long_text(rng, n);
            trip_value(rng, cx, &s, i..i + 1)
        }
    }?;
    cx.count("large", 1);
    Ok(())
}

/// Every primitive is written by the one call made for it.
fn primitives(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let caps = Caps::all(rng.below(8));
    macro_rules! int {
        ($($t:ident $nz:ident)*) => {$(
            let x = <$t as Ty>::gen(rng);
            prim(&x, Node::Int(stringify!($t), x as i128), caps)?;
            let x = <std::num::$nz as Ty>::gen(rng);
            prim(&x, Node::Int(stringify!($t), x.get() as i128), caps)?;
        )*};
    }
    int!(i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64);
    let x = <f32 as Ty>::gen(rng);
    prim(&x, Node::F32(x.to_bits()), caps)?;
    let x = <f64 as Ty>::gen(rng);
    prim(&x, Node::F64(x.to_bits()), caps)?;
    for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0] {
        // Formats other than JSON may have these
        prim(&x, Node::F64(x.to_bits()), caps)?;
        prim(&(x as f32), Node::F32((x as f32).to_bits()), caps)?;
    }
    let x = rng.bool();
    prim(&x, Node::Bool(x), caps)?;
    let x = <char as Ty>::gen(rng);
    prim(&x, Node::Char(x), caps)?;
    let x = <String as Ty>::gen(rng);
    prim(&x, Node::Str(x.clone()), caps)?;
    let mut s = RecSer::new(caps);
    quiet(|| Value::with(&mut s, |v| Serialize::serialize(x.as_str(), v, &mut ())).unwrap())?;
    let got = s.finish()?;
    ensure!(got == Node::Str(x.clone()), "{:?} as str recorded as {:?}", x, got);
    cx.count("primitives", 1);
    cx.distinct_str(&x);
    // The zero of non-zero types
    macro_rules! zero {
        ($($t:ident $nz:ident)*) => {$({
            let (r, _) = read::<std::num::$nz>(&Rc::new(Node::Int(stringify!($t), 0)), caps, None)?;
            ensure!(r.is_err(), "zero read as {:?}", r);
        })*};
    }
    zero!(i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64);
    Ok(())
}
fn prim<T: Serialize<RecSer> + Deserialize<RecDe> + std::fmt::Debug>(x: &T, want: Node, caps: Caps) -> Result<(), String> {
    let (got, _) = write(x, caps, None).map_err(|e| format!("writing {:?}: {}", x, e))?;
    ensure!(got.as_ref() == Ok(&want), "{:?} recorded as {:?}, not {:?}", x, got, want);
    let (back, _) = read::<T>(&Rc::new(want), caps, None).map_err(|e| format!("reading {:?}: {}", x, e))?;
    ensure!(back.as_ref().map_or(false, |b| same(b, x)), "{:?} read back as {:?}", x, back);
    Ok(())
}

static NAMES: FixedNameMap<usize, 5> = FixedNameMap::new([("left", 3), ("right", 0), ("", 7), ("\u{e9}\u{1f600}", 1), ("lef", 2)]);

/// The methods backends get for free.
fn defaults(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let names: &'static NameMap<usize> = NAMES.unfix();
    let table = [("left", 3), ("right", 0), ("", 7), ("\u{e9}\u{1f600}", 1), ("lef", 2)];
    let s: String = match rng.below(3) {
        0 => table[rng.below(5)].0.into(),
        1 => rng.pick(&["leftx", "le", "Right", "\u{e9}", "righ", " "]).to_string(),
        _ => gen::string(rng, false),
    };
    let index = |s: &str| table.iter().find(|t| t.0 == s).map(|t| t.1);
    cx.distinct_str(&s);
    let caps = Caps::all(rng.below(8));
    let op = rng.below(8);
    let n = s.chars().count();
    let k = rng.below(n + 1);
    let rest: String = s.chars().skip(k).collect();
    let fail = rng.chance(1, 3);
    let mut calls = 0;
    for pass in 0..=fail as usize {
        let mut d = RecDe::new(caps, Rc::new(Node::Str(s.clone())));
        if pass == 1 {
            d.fail_at = Some(rng.range(1, calls));
        }
        let r: Result<(), RecErr> = quiet(|| {
            match op {
                0 => {
                    let got = d.read_str()?.into_owned();
                    check(&got, &s)
                }
                1 => name(d.get_name(names), index(&s)),
                2 => {
                    let got = Value::with(&mut d, |v| v.get_str().map(|x| x.into_owned()))?;
                    check(&got, &s)
                }
                3 => {
                    d.open_str()?;
                    for (i, c) in s.chars().enumerate() {
                        let got = d.next_char()?;
                        check(&(i, got), &(i, Some(c)));
                    }
                    let got = d.next_char()?;
                    check(&got, &None)
                }
                _ => {
                    d.open_str()?;
                    for _ in 0..k {
                        d.next_char()?;
                    }
                    match op {
                        4 => {
                            let got = d.flush_str()?.into_owned();
                            check(&got, &rest)
                        }
                        5 => d.skip_str()?,
                        _ => name(d.flush_name(names), index(&rest)),
                    }
                }
            }
            Ok(())
        })
        .map_err(|p| format!("operation {} on string {:?} after {} characters: {}", op, s, k, p))?;
        ensure!(d.after_fail == 0, "operation {}: calls after a failure", op);
        if pass == 1 {
            ensure!(r.is_err() || op == 1 || op > 5, "operation {}: the failure is lost", op);
            cx.count("default_failures", 1);
        } else {
            r.map_err(|e| format!("operation {} on {:?}: {}", op, s, e))?;
            calls = d.calls;
            d.finish().map_err(|e| format!("operation {} on {:?}: {}", op, s, e))?;
        }
    }
    cx.count("default_reads", 1);
    // Writing
    let mut w = RecSer::new(caps);
    let r: Result<(), RecErr> = quiet(|| {
        if rng.bool() {
            w.put_str(&s)
        } else {
            w.open_str()?;
            let (a, b) = s.split_at(s.len() - rest.len());
            w.append_str(a)?;
            w.append_str("")?;
            w.append_str(b)?;
            w.close_str()
        }
    })?;
    r.map_err(|e| e.0)?;
    let calls = w.calls;
    let got = w.finish()?;
    ensure!(got == Node::Str(s.clone()), "string {:?} recorded as {:?}", s, got);
    let mut w = RecSer::new(caps);
    w.fail_at = Some(rng.range(1, calls.min(n + 2)));
    let r = quiet(|| w.put_str(&s))?;
    ensure!(r.is_err() && w.after_fail == 0, "put_str goes on after a failure");
    // Errors
    let mut d = RecDe::new(caps, Rc::new(Node::Bool(true)));
    d.get_bool().unwrap();
    let text = d.error_invalid_name(names).0;
    ensure!(text.starts_with("error: ") && table.iter().all(|t| text.contains(&format!("{:?}", t.0))), "invalid name reported as {}", text);
    let i = rng.below(1 << 20);
    let text = d.error_invalid_index(i).0;
    ensure!(text.contains(&i.to_string()), "invalid index {} reported as {}", i, text);
    Ok(())
}
fn check<T: PartialEq + std::fmt::Debug>(got: &T, want: &T) {
    if got != want {
        panic!("got {:?}, expected {:?}", got, want);
    }
}
fn name(got: Result<usize, RecErr>, want: Option<usize>) {
    match (&got, want) {
        (Ok(i), Some(j)) if *i == j => {}
        (Err(_), None) => {}
        // An injected failure
        (Err(e), _) if e.0.contains("injected") => {}
        _ => panic!("name read as {:?}, expected {:?}", got, want),
    }
}

fn main() {
    run::main(Check {
        id: "C21",
        level: "exploration",
        rule: "every built-in and derived type of the family x 8 backends (null support, known list lengths, tags by name or index) over a recording backend that checks every call against the stack protocol, list lengths and the data: recording equal to an independent model of the value, trip returns the value; with a failing call at a random place; with data of another kind; lists and strings of up to 140000 items; primitives by their own calls; default methods; distinct by type and recording",
        assumptions: &["struct fields are pushed in the order in which they were written"],
        phases: vec![
            Phase { name: "family", quick: 1350000, thorough: 0, f: family },
            Phase { name: "more", quick: 420000, thorough: 0, f: more },
            Phase { name: "large", quick: 480, thorough: 6000, f: large },
            Phase { name: "primitives", quick: 10_000, thorough: 100_000, f: primitives },
            Phase { name: "defaults", quick: 200_000, thorough: 600_000, f: defaults },
        ],
        floors: &[("trips", 5000), ("failures", 500), ("odd_read", 10), ("odd_refused", 100), ("large", 20), ("primitives", 100), ("default_reads", 500), ("default_failures", 50), ("calls", 10000)],
        hang_cpu_s: 30,
    });
}
