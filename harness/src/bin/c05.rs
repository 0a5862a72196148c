//! C05: integers are exact or refused.
use serdere::*;
use serdere_json::*;
use std::num::*;
use vh::num::{int_verdict, lit, IntVerdict, Lit};
use vh::place::{at, place, KINDS};
use vh::reader::{Chunked, MonReader};
use vh::run::{quiet, show};
use vh::walk::TD;
use vh::*;

/// Sign and magnitude.
type SM = (bool, u128);

trait Int: Sized + Copy + std::fmt::Debug {
    const MIN_MAG: u128;
    const MAXV: u128;
    const NAME: &'static str;
    fn sm(self) -> SM;
    fn read<R: TextReader>(d: &mut TD<R>, how: usize) -> Result<Self, DeserializeError<R::Position>>;
}

macro_rules! int {
    ($($t:ty, $g:ident;)*) => {$(
        impl Int for $t {
            const MIN_MAG: u128 = (<$t>::MIN as i128).unsigned_abs();
            const MAXV: u128 = <$t>::MAX as u128;
            const NAME: &'static str = stringify!($t);
            fn sm(self) -> SM { (self.to_string().starts_with('-'), (self as i128).unsigned_abs()) }
            fn read<R: TextReader>(d: &mut TD<R>, how: usize) -> Result<Self, DeserializeError<R::Position>> {
                match how {
                    0 => d.$g(),
                    1 => Value::with(d, |v| v.$g()),
                    2 => Value::with(d, |v| v.get()),
                    3 => d.read_number::<$t>(),
                    _ => {
                        let o: Option<$t> = Value::with(d, |v| v.get())?;
                        // A number is never an absent value
                        Ok(o.expect("number read as absent"))
                    }
                }
            }
        }
    )*};
}
int! { u8, get_u8; u16, get_u16; u32, get_u32; u64, get_u64; i8, get_i8; i16, get_i16; i32, get_i32; i64, get_i64; }
impl Int for u128 {
    const MIN_MAG: u128 = 0;
    const MAXV: u128 = u128::MAX;
    const NAME: &'static str = "u128";
    fn sm(self) -> SM {
        (false, self)
    }
    fn read<R: TextReader>(d: &mut TD<R>, _: usize) -> Result<Self, DeserializeError<R::Position>> {
        d.read_number()
    }
}
impl Int for i128 {
    const MIN_MAG: u128 = 1 << 127;
    const MAXV: u128 = i128::MAX as u128;
    const NAME: &'static str = "i128";
    fn sm(self) -> SM {
        (self < 0, self.unsigned_abs())
    }
    fn read<R: TextReader>(d: &mut TD<R>, _: usize) -> Result<Self, DeserializeError<R::Position>> {
        d.read_number()
    }
}
macro_rules! nz {
    ($($t:ident, $b:ty;)*) => {$(
        impl Int for $t {
            const MIN_MAG: u128 = (<$b>::MIN as i128).unsigned_abs();
            const MAXV: u128 = <$b>::MAX as u128;
            const NAME: &'static str = stringify!($t);
            fn sm(self) -> SM { self.get().sm() }
            fn read<R: TextReader>(d: &mut TD<R>, how: usize) -> Result<Self, DeserializeError<R::Position>> {
                if how % 2 == 0 { Value::with(d, |v| v.get()) } else { Ok(Value::with(d, |v| v.get::<Option<$t>>())?.expect("number read as absent")) }
            }
        }
    )*};
}
nz! { NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32; NonZeroU64, u64; NonZeroI8, i8; NonZeroI16, i16; NonZeroI32, i32; NonZeroI64, i64; }

fn read<T: Int, R: TextReader>(r: R, kind: usize, how: usize) -> Result<T, String> {
    let run = || -> Result<T, DeserializeError<R::Position>> {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r)?;
        let v = at(kind, &mut d, |d| T::read(d, how))?;
        d.close()?;
        Ok(v)
    };
    run().map_err(|e| walk::emsg(&e))
}

fn one<T: Int>(rng: &mut Rng, cx: &mut Cx, s: &str, l: &Lit) -> Result<(), String> {
    cx.evals += 1;
    let kind = rng.below(KINDS);
    let p = place(rng, kind, s);
    let how = rng.below(5);
    let text = p.text.as_str();
    let got = quiet(|| match rng.below(4) {
        0 => read::<T, _>(MonReader::new(text), kind, how),
        1 => read::<T, _>(Utf8Reader::new(Chunked::new(text.as_bytes(), vec![4, 1])).unwrap(), kind, how),
        _ => read::<T, _>(text, kind, how),
    });
    let mut verdict = int_verdict(l, T::MIN_MAG, T::MAXV);
    if T::NAME.starts_with("NonZero") && l.is_zero() {
        verdict = IntVerdict::Refuse;
    }
    let bad = |what: String| Err(format!("{} read as {}: {} (place {}, how {}, text {})", show(s), T::NAME, what, kind, how, show(text)));
    let got = match got {
        Ok(g) => g,
        Err(p) => return bad(format!("panic {}", p)),
    };
    match (verdict, got) {
        (IntVerdict::Must(n, m), Ok(v)) | (IntVerdict::May(n, m), Ok(v)) => {
            let (gn, gm) = v.sm();
            cx.count("accepted", 1);
            if gm != m || (m != 0 && gn != n) {
                return bad(format!("gives {:?} instead of {}{}", v, if n { "-" } else { "" }, m));
            }
        }
        (IntVerdict::Must(..), Err(e)) => return bad(format!("refused with {}", e)),
        (IntVerdict::Refuse, Ok(v)) => return bad(format!("accepted as {:?}", v)),
        (IntVerdict::May(..), Err(_)) => cx.count("left_open", 1),
        (IntVerdict::Refuse, Err(_)) => cx.count("refused", 1),
    }
    Ok(())
}

fn all_kinds(rng: &mut Rng, cx: &mut Cx, s: &str, only: Option<usize>) -> Result<(), String> {
    let l = lit(s);
    cx.distinct_str(s);
    macro_rules! go {
        ($($i:expr, $t:ty;)*) => {$(
            if only.map(|o| o == $i).unwrap_or(true) { one::<$t>(rng, cx, s, &l)?; }
        )*};
    }
    go! { 0, u8; 1, u16; 2, u32; 3, u64; 4, i8; 5, i16; 6, i32; 7, i64; 8, u128; 9, i128;
          10, NonZeroU8; 11, NonZeroU16; 12, NonZeroU32; 13, NonZeroU64; 14, NonZeroI8; 15, NonZeroI16; 16, NonZeroI32; 17, NonZeroI64; }
    Ok(())
}

/// Respells the magnitude `m` (decimal digits) in ways that keep or slightly change its value.
fn spell(rng: &mut Rng, m: &str, neg: bool) -> String {
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    let zeros = |n: usize| "0".repeat(n);
    let tz = m.len() - m.trim_end_matches('0').len();
    match rng.below(11) {
        0..=2 => s.push_str(m),
        3 => {
            s.push_str(m);
            s.push('.');
            s.push_str(&zeros(rng.range(1, 4)));
        }
        4 => {
            // scaled up, negative exponent
            let k = rng.range(0, 12);
            s.push_str(m);
            if m != "0" {
                s.push_str(&zeros(k));
            }
            s.push_str(&format!("{}-{}{}", rng.pick(&["e", "E"]), rng.pick(&["", "0", "00"]), k));
        }
        5 => {
            // trailing zeros as exponent
            let k = if tz > 0 { rng.range(0, tz) } else { 0 };
            let d = &m[..m.len() - k];
            s.push_str(if d.is_empty() { "0" } else { d });
            s.push_str(&format!("{}{}{}", rng.pick(&["e", "E"]), rng.pick(&["", "+", "+0", "0"]), k));
        }
        6 => {
            // point moved left, exponent
            if m.len() > 1 {
                let k = rng.range(1, m.len() - 1);
                s.push_str(&m[..m.len() - k]);
                s.push('.');
                s.push_str(&m[m.len() - k..]);
                s.push_str(&format!("e{}{}", rng.pick(&["", "+"]), k));
            } else {
                s.push_str(&format!("0.{}e1", m));
            }
        }
        7 => {
            // 0.00ddd e k
            let z = rng.below(5);
            s.push_str(&format!("0.{}{}e{}", zeros(z), m, z + m.len()));
        }
        8 => {
            // fraction that makes it no integer
            s.push_str(&format!("{}.{}{}", m, zeros(rng.below(3)), rng.range(1, 9)));
            if rng.bool() {
                s.push_str("e0");
            }
        }
        9 => {
            // one power of ten off
            s.push_str(m);
            s.push_str(*rng.pick(&["e1", "e-1", "E+1", "e2", "e-2", "e19", "e20", "e-19", "e38", "e39", "e127", "e128", "e255", "e256", "e-128", "e-129"]));
        }
        _ => {
            s.push_str(m);
            s.push_str(&format!(
                "e{}{}",
                rng.pick(&["", "-", "+"]),
                rng.pick(&["32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999"])
            ));
        }
    }
    s
}

fn magnitude(rng: &mut Rng) -> String {
    let b: u128 = match rng.below(10) {
        0..=3 => *rng.pick(&[
            0u128, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, i64::MAX as u128, 1 << 63,
            u64::MAX as u128, 1 << 64, i128::MAX as u128, 1 << 127, u128::MAX, 1 << 53, (1 << 53) + 1,
        ]),
        4 => 10u128.pow(rng.below(39) as u32),
        5 => *rng.pick(&mine::pools().ints),
        6 => 1u128 << rng.below(128),
        7 => rng.u64() as u128,
        _ => rng.u128() >> rng.below(128),
    };
    let b = match rng.below(4) {
        0 => b.saturating_add(rng.below(12) as u128),
        1 => b.saturating_sub(rng.below(12) as u128),
        _ => b,
    };
    match rng.below(30) {
        // just beyond 128 bits
        0 => format!("34028236692093846346337460743176821145{}", rng.range(6, 9)),
        1 => {
            let n = rng.range(36, 60);
            format!("{}{}", rng.range(1, 9), (1..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect::<String>())
        }
        // a multiple of 2^k added: wraps to the same value
        2 => (b as u64 as u128 + (1u128 << 64)).to_string(),
        3 => ((b & 0xffff_ffff) + (1u128 << 32) * rng.range(1, 9) as u128).to_string(),
        4 => ((b & 0xffff) + (1u128 << 16) * rng.range(1, 9) as u128).to_string(),
        5 => ((b & 0xff) + (1u128 << 8) * rng.range(1, 9) as u128).to_string(),
        _ => b.to_string(),
    }
}

fn boundary(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let m = magnitude(rng);
    let neg = rng.chance(2, 5);
    let s = spell(rng, &m, neg);
    cx.sample(|| s.clone());
    all_kinds(rng, cx, &s, None)
}

/// Plain literals through the whole range of the small types.
fn plain(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let v = if idx < 140_000 { idx as i64 - 70_000 } else { rng.u64() as i64 >> rng.below(64) };
    let s = v.to_string();
    for k in [0, 1, 4, 5] {
        all_kinds(rng, cx, &s, Some(k))?;
    }
    if idx % 16 == 0 {
        all_kinds(rng, cx, &s, None)?;
    }
    Ok(())
}

/// Random literals.
fn random(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let s = gen::number(rng);
    all_kinds(rng, cx, &s, None)
}

/// Writing integers.
fn writing(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    macro_rules! w {
        ($($t:ty),*) => {$({
            let v = if idx < 65536 { (idx as $t).wrapping_mul(1) } else { types::int_of(rng, <$t>::MIN as i128, <$t>::MAX as i128) as $t };
            let vs = [v, <$t>::MAX.wrapping_sub(v), <$t>::MIN.wrapping_add(v)];
            for v in vs {
                let s = to_str(&v);
                ensure!(s == v.to_string(), "{} of type {} is written as {}", v, stringify!($t), s);
                cx.evals += 1;
                cx.count("written", 1);
            }
        })*};
    }
    w!(u8, i8, u16, i16, u32, i32, u64, i64);
    cx.distinct(idx);
    Ok(())
}

fn main() {
    run::main(Check {
        id: "C05",
        level: "exploration",
        rule: "boundary magnitudes of all integer types in eleven kinds of spelling, whole range of the small types, random literals; each read as 18 types at random places (streamed, buffered, nested) and through three readers; distinct by literal",
        assumptions: &["exact decimal arithmetic of the harness", "literals whose digit sequence or power of ten exceeds the type may be refused"],
        phases: vec![
            Phase { name: "boundary", quick: 1200000, thorough: 0, f: boundary },
            Phase { name: "plain", quick: 150000, thorough: 300000, f: plain },
            Phase { name: "random", quick: 240000, thorough: 0, f: random },
            Phase { name: "writing", quick: 80000, thorough: 1000000, f: writing },
        ],
        floors: &[("accepted", 2000), ("refused", 2000), ("written", 2000)],
        hang_cpu_s: 20,
    });
}
