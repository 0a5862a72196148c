//! C06: floats are correctly rounded on reading and exact on writing.
use serdere::*;
use serdere_json::*;
use vh::place::{at, place, KINDS};
use vh::reader::{Chunked, MonReader};
use vh::run::{quiet, show};
use vh::walk::TD;
use vh::*;

/// Natural number, little endian base 10^9.
#[derive(Clone)]
struct Big(Vec<u32>);
impl Big {
    fn new(v: u64) -> Big {
        let mut b = Big(vec![(v % 1_000_000_000) as u32, (v / 1_000_000_000 % 1_000_000_000) as u32, (v / 1_000_000_000_000_000_000) as u32]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.len() > 1 && *self.0.last().unwrap() == 0 {
            self.0.pop();
        }
    }
    fn mul(&mut self, f: u32) {
        let mut c = 0u64;
        for d in &mut self.0 {
            let x = *d as u64 * f as u64 + c;
            *d = (x % 1_000_000_000) as u32;
            c = x / 1_000_000_000;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    fn pow(&mut self, base: u32, step: u32, mut n: u32) {
        let big = base.pow(step);
        while n >= step {
            self.mul(big);
            n -= step;
        }
        for _ in 0..n {
            self.mul(base);
        }
    }
    fn digits(&self) -> String {
        let mut s = self.0.last().unwrap().to_string();
        for d in self.0.iter().rev().skip(1) {
            s.push_str(&format!("{:09}", d));
        }
        s
    }
}

/// Decimal digits and power of ten of `m * 2^e`, exactly.
fn exact(m: u64, e: i32) -> (String, i32) {
    let mut b = Big::new(m);
    if e >= 0 {
        b.pow(2, 28, e as u32);
        (b.digits(), 0)
    } else {
        b.pow(5, 12, -e as u32);
        (b.digits(), e)
    }
}

trait Fl: Copy + std::fmt::Debug + PartialEq {
    const NAME: &'static str;
    fn bits(self) -> u64;
    fn of(bits: u64) -> Self;
    /// Mantissa bits (explicit), exponent bits.
    const M: u32;
    const E: u32;
    fn read<R: TextReader>(d: &mut TD<R>, how: usize) -> Result<Self, DeserializeError<R::Position>>;
    fn std(s: &str) -> Self;
    fn text(self, mode: usize) -> String;
}
macro_rules! fl {
    ($t:ident, $u:ident, $g:ident, $p:ident, $m:expr, $e:expr) => {
        impl Fl for $t {
            const NAME: &'static str = stringify!($t);
            const M: u32 = $m;
            const E: u32 = $e;
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
            fn of(bits: u64) -> Self {
                <$t>::from_bits(bits as $u)
            }
            fn read<R: TextReader>(d: &mut TD<R>, how: usize) -> Result<Self, DeserializeError<R::Position>> {
                match how {
                    0 => d.$g(),
                    1 => Value::with(d, |v| v.$g()),
                    2 => Value::with(d, |v| v.get()),
                    3 => d.read_number::<$t>(),
                    _ => Ok(Value::with(d, |v| v.get::<Option<$t>>())?.expect("number read as absent")),
                }
            }
            fn std(s: &str) -> Self {
                s.parse().unwrap()
            }
            fn text(self, mode: usize) -> String {
                let mut s = String::new();
                let cfg = if mode % 2 == 0 { TextSerializerConfig { indent: None } } else { TextSerializerConfig { indent: Some("  ") } };
                let mut ser = TextSerializer::new(cfg, &mut s);
                match mode / 2 {
                    0 => ser.$p(self).unwrap(),
                    1 => Value::with(&mut ser, |v| v.put(&self)).unwrap(),
                    _ => Value::with(&mut ser, |v| v.put(&Some(self))).unwrap(),
                }
                ser.close();
                s
            }
        }
    };
}
fl!(f32, u32, get_f32, put_f32, 23, 8);
fl!(f64, u64, get_f64, put_f64, 52, 11);

fn read<T: Fl, R: TextReader>(r: R, kind: usize, how: usize) -> Result<T, String> {
    let run = || -> Result<T, DeserializeError<R::Position>> {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r)?;
        let v = at(kind, &mut d, |d| T::read(d, how))?;
        d.close()?;
        Ok(v)
    };
    run().map_err(|e| walk::emsg(&e))
}

/// Checks that `s` is read as `want` at some place.
fn one<T: Fl>(rng: &mut Rng, cx: &mut Cx, s: &str, want: T) -> Result<(), String> {
    cx.evals += 1;
    let kind = rng.below(KINDS);
    let p = place(rng, kind, s);
    let how = rng.below(5);
    let text = p.text.as_str();
    let got = quiet(|| match rng.below(4) {
        0 => read::<T, _>(MonReader::new(text), kind, how),
        1 => {
            let chunks = if rng.bool() { vec![1] } else { vec![3, 1, 7] };
            read::<T, _>(Utf8Reader::new(Chunked::new(text.as_bytes(), chunks)).unwrap(), kind, how)
        }
        _ => read::<T, _>(text, kind, how),
    });
    match got {
        Ok(Ok(v)) if v.bits() == want.bits() => {
            cx.count(if p.buffered { "read_buffered" } else { "read_streamed" }, 1);
            Ok(())
        }
        other => Err(format!("{} read as {} gives {:?} instead of {:?} (place {}, how {}, text {})", show(s), T::NAME, other, want, kind, how, show(text))),
    }
}

/// Some JSON spelling of `digits * 10^exp`.
fn spell(rng: &mut Rng, digits: &str, exp: i64) -> String {
    let n = digits.len();
    let e = |rng: &mut Rng, x: i64| -> String {
        if x == 0 && rng.chance(2, 3) {
            return String::new();
        }
        let sign = if x < 0 { "-" } else { *rng.pick(&["", "+"]) };
        let z = *rng.pick(&["", "", "", "0", "000"]);
        format!("{}{}{}{}", rng.pick(&["e", "E"]), sign, z, x.unsigned_abs())
    };
    let lead_ok = !digits.starts_with('0') || n == 1;
    match rng.below(5) {
        0 if lead_ok => format!("{}{}", digits, e(rng, exp)),
        1 if lead_ok && n > 1 => {
            let p = rng.range(1, n - 1);
            format!("{}.{}{}", &digits[..p], &digits[p..], e(rng, exp + (n - p) as i64))
        }
        2 if (0..400).contains(&exp) && lead_ok && digits != "0" => {
            // written out in full
            format!("{}{}{}", digits, "0".repeat(exp as usize), rng.pick(&["", ".0", "e0", ".000E-0"]))
        }
        3 if exp < 0 && exp > -1200 => {
            let k = (-exp) as usize;
            if n > k && !digits.starts_with('0') {
                format!("{}.{}{}", &digits[..n - k], &digits[n - k..], rng.pick(&["", "0", "e0"]))
            } else {
                format!("0.{}{}", "0".repeat(k.saturating_sub(n)) + &digits[n.saturating_sub(k)..], rng.pick(&["", "0", "000", "E+0"]))
            }
        }
        _ => {
            let z = rng.below(4);
            format!("0.{}{}{}", "0".repeat(z), digits, e(rng, exp + (n + z) as i64))
        }
    }
}

fn some_bits<T: Fl>(rng: &mut Rng) -> u64 {
    let maxfin = (((1u64 << T::E) - 1) << T::M) - 1;
    let m = rng.u64() & ((1 << T::M) - 1);
    let m = match rng.below(6) {
        0 => 0,
        1 => (1 << T::M) - 1,
        2 => m & 0x7,
        3 => 1u64 << rng.below(T::M as usize),
        _ => m,
    };
    let e = match rng.below(6) {
        0 => rng.below(3) as u64,
        1 => (1 << T::E) - 2 - rng.below(3) as u64,
        2 => (1 << (T::E - 1)) - 1 + rng.below(80) as u64,
        3 => ((1 << (T::E - 1)) - 1u64).saturating_sub(rng.below(80) as u64),
        _ => rng.below((1 << T::E) - 1) as u64,
    };
    ((e << T::M) | m).min(maxfin)
}

/// Exact values, midpoints of neighbours and their close surroundings, constructed without
/// a decimal parser.
fn halfway<T: Fl>(rng: &mut Rng, cx: &mut Cx, far: Option<usize>) -> Result<(), String> {
    let b = some_bits::<T>(rng);
    let bias = (1i32 << (T::E - 1)) - 1;
    let ef = (b >> T::M) as i32;
    let frac = b & ((1 << T::M) - 1);
    let (m, e) = if ef == 0 { (frac, 1 - bias - T::M as i32) } else { (frac | 1 << T::M, ef - bias - T::M as i32) };
    // Infinity follows the largest finite number with just the bit pattern + 1
    let (lo, hi) = (b, b + 1);
    let even = if b & 1 == 0 { lo } else { hi };
    let what = rng.below(6);
    let (mut d, mut x) = if what == 0 { exact(m, e) } else { exact(2 * m + 1, e - 1) };
    let want = match what {
        0 => lo,
        1 | 2 => even,
        3 | 4 => {
            // above the midpoint by a digit far to the right
            let z = far.unwrap_or(*rng.pick(&[0usize, 0, 1, 17, 40, 300]));
            d.push_str(&"0".repeat(z));
            d.push(*rng.pick(&['1', '9']));
            x -= (z + 1) as i32;
            hi
        }
        _ => {
            // below: decrement (the midpoint is not zero) and append nines
            let mut v: Vec<u8> = d.into_bytes();
            let mut i = v.len() - 1;
            while v[i] == b'0' {
                v[i] = b'9';
                i -= 1;
            }
            v[i] -= 1;
            let z = far.unwrap_or(*rng.pick(&[0usize, 1, 17, 40, 300]));
            v.extend(std::iter::repeat(b'9').take(z));
            x -= z as i32;
            d = String::from_utf8(v).unwrap();
            let t = d.trim_start_matches('0');
            d = if t.is_empty() { "0".into() } else { t.to_string() };
            lo
        }
    };
    if rng.chance(1, 8) {
        let z = far.unwrap_or(*rng.pick(&[1usize, 5, 50]));
        d.push_str(&"0".repeat(z));
        x -= z as i32;
    }
    cx.count(["exact", "tie", "tie", "above_tie", "above_tie", "below_tie"][what], 1);
    if want == ((1u64 << T::E) - 1) << T::M {
        cx.count("overflow_to_infinity", 1);
    }
    cx.max("digits", d.len() as u64);
    let mut s = spell(rng, &d, x as i64);
    let mut want = want;
    if rng.bool() {
        s.insert(0, '-');
        want |= 1 << (T::M + T::E);
    }
    cx.distinct_str(&s);
    cx.sample(|| s.clone());
    one(rng, cx, &s, T::of(want))?;
    // The two oracles agree
    if T::std(&s).bits() != want {
        run::harness_error(&format!("oracles differ on {}", s));
    }
    Ok(())
}

fn halfways(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    if rng.bool() {
        halfway::<f64>(rng, cx, None)
    } else {
        halfway::<f32>(rng, cx, None)
    }
}

/// Very long spellings of numbers.
fn sizes(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let n = gen::length(rng, 1 << 17);
    cx.count("long_literals", 1);
    if rng.chance(1, 3) {
        return if rng.bool() { halfway::<f64>(rng, cx, Some(n)) } else { halfway::<f32>(rng, cx, Some(n)) };
    }
    // A short number spelled at length
    let len = rng.range(1, 20);
    let mut digits: String = (0..len).map(|_| (b'0' + rng.below(10) as u8) as char).collect();
    digits.insert(0, (b'1' + rng.below(9) as u8) as char);
    let len = digits.len() as i64;
    let any = rng.range(0, 700) as i64 - 350;
    let exp = *rng.pick(&[0, -len, -1, any]);
    let short = format!("{}e{}", digits, exp);
    let m = n as i64;
    let zeros = "0".repeat(n);
    let e = *rng.pick(&["e", "E"]);
    let plus = |x: i64| if x < 0 || n % 2 == 0 { "" } else { "+" };
    let long = match rng.below(5) {
        0 => format!("0.{}{}{}{}{}", zeros, digits, e, plus(exp + m + len), exp + m + len),
        1 => format!("{}{}{}{}{}", digits, zeros, e, plus(exp - m), exp - m),
        2 => {
            let p = rng.range(1, digits.len() - 1);
            let x = exp + len - p as i64;
            format!("{}.{}{}{}{}{}", &digits[..p], &digits[p..], zeros, e, plus(x), x)
        }
        3 => format!("{}{}{}{}{}", digits, e, if exp < 0 { "-" } else { "+" }, zeros, exp.abs()),
        _ => {
            // both
            let k = rng.below(n);
            let x = exp - (k as i64);
            format!("{}{}.{}{}{}{}", digits, &zeros[..k], &zeros[k..], e, plus(x), x)
        }
    };
    let sign = if rng.bool() { "-" } else { "" };
    cx.max("literal_bytes", long.len() as u64);
    cx.distinct_str(&long);
    if rng.bool() {
        one(rng, cx, &format!("{}{}", sign, long), f64::std(&format!("{}{}", sign, short)))
    } else {
        one(rng, cx, &format!("{}{}", sign, long), f32::std(&format!("{}{}", sign, short)))
    }
}

/// Literals of every shape against the correctly rounding parser of the standard library.
fn literals(rng: &mut Rng, _: u64, cx: &mut Cx) -> Result<(), String> {
    let digits = |rng: &mut Rng, n: usize| (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect::<String>();
    let s = match rng.below(8) {
        0 => gen::number(rng),
        1 => {
            // long digit strings
            let n = *rng.pick(&[17usize, 18, 19, 20, 21, 38, 39, 40, 100, 400, 1200]);
            let d = format!("{}{}", rng.range(1, 9), digits(rng, n));
            let x = rng.range(0, 800) as i64 - 400 - n as i64 / 2;
            spell(rng, &d, x)
        }
        2 => {
            // extreme exponents
            format!(
                "{}{}{}e{}{}",
                rng.below(10),
                rng.pick(&["", ".0", ".5", ".000000001"]),
                "",
                rng.pick(&["", "+", "-"]),
                rng.pick(&["0", "00", "37", "38", "39", "44", "45", "46", "307", "308", "309", "323", "324", "325", "400", "32767", "32768", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999"])
            )
        }
        3 => {
            // zero in many spellings
            let z = rng.range(0, 30);
            let e = *rng.pick(&["", "e0", "e5", "E-7", "e999999999999", "e-999999999999", "e+400"]);
            format!("0{}{}", if z > 0 { format!(".{}", "0".repeat(z)) } else { String::new() }, e)
        }
        4 => {
            // digits cancelled by the exponent
            let z = rng.range(0, 600);
            let d = digits(rng, 5);
            format!("0.{}{}e{}", "0".repeat(z), d, z as i64 + rng.range(0, 20) as i64 - 10)
        }
        5 => {
            let z = rng.range(0, 600);
            format!("{}{}e-{}", rng.range(1, 9), "0".repeat(z), z as i64 + rng.range(0, 20) as i64)
        }
        6 => {
            // integers around the limits of the integer types and of the mantissas
            let b = rng.range(20, 127);
            let v = (1u128 << b).wrapping_add(rng.below(9) as u128).wrapping_sub(4);
            let v = v | if rng.bool() { 1u128 << (b - rng.range(1, 70).min(b)) } else { 0 };
            format!("{}{}", v, rng.pick(&["", ".0", "e0", "e1", "e-1", ".5"]))
        }
        _ => {
            let n = rng.range(1, 25);
            let d = format!("{}{}", rng.range(1, 9), digits(rng, n));
            let x = rng.range(0, 100) as i64 - 50;
            spell(rng, &d, x)
        }
    };
    let s = if rng.bool() && !s.starts_with('-') { format!("-{}", s) } else { s };
    cx.distinct_str(&s);
    cx.sample(|| s.clone());
    one::<f64>(rng, cx, &s, f64::std(&s))?;
    one::<f32>(rng, cx, &s, f32::std(&s))
}

fn write_one<T: Fl>(rng: &mut Rng, cx: &mut Cx, bits: u64) -> Result<(), String> {
    cx.evals += 1;
    cx.count("written", 1);
    let v = T::of(bits);
    let mode = rng.below(6);
    let s = v.text(mode);
    ensure!(
        refjson::parse(&s, false).map(|n| matches!(n.kind, refjson::JKind::Num(_))).unwrap_or(false),
        "{} of bits {:x} is written as {} (mode {}), which is not a JSON number",
        T::NAME,
        bits,
        show(&s),
        mode
    );
    ensure!(T::std(&s).bits() == bits, "{} of bits {:x} is written as {} (mode {}), which denotes {:?}", T::NAME, bits, show(&s), mode, T::std(&s));
    if rng.chance(1, 4) {
        one(rng, cx, &s, v)?;
    }
    Ok(())
}

fn writing(rng: &mut Rng, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let sign = |rng: &mut Rng, b: u64, at: u32| b | (rng.u64() & 1) << at;
    let b = match idx {
        0..=63 => idx,
        _ if rng.bool() => some_bits::<f64>(rng),
        _ => {
            // values with few decimal digits
            let k = 10i64.pow(rng.below(19) as u32);
            let v = (rng.u64() as i64 % k) as f64 * 10f64.powi(rng.range(0, 60) as i32 - 30);
            v.abs().to_bits()
        }
    };
    let b = sign(rng, b, 63);
    cx.distinct(b);
    write_one::<f64>(rng, cx, b)?;
    let b = match idx {
        0..=63 => idx,
        _ if rng.bool() => some_bits::<f32>(rng),
        _ => rng.u64() & 0x7f7f_ffff,
    };
    let b = sign(rng, b, 31);
    write_one::<f32>(rng, cx, b)
}

fn main() {
    run::main(Check {
        id: "C06",
        level: "exploration",
        rule: "exactly constructed values, ties and their surroundings (up to about 1100 digits), literals of all shapes, spellings of up to 131072 digits, each at random places (streamed, buffered, nested) through three readers; random and extreme bit patterns written in six ways; distinct by literal or bit pattern",
        assumptions: &["exact big-number arithmetic of the harness", "Rust's standard float parser rounds correctly (cross-checked against the exact construction on every constructed case)"],
        phases: vec![
            Phase { name: "halfway", quick: 1250000, thorough: 0, f: halfways },
            Phase { name: "literals", quick: 2500000, thorough: 0, f: literals },
            Phase { name: "sizes", quick: 20000, thorough: 0, f: sizes },
            Phase { name: "writing", quick: 5000000, thorough: 0, f: writing },
        ],
        floors: &[("tie", 200), ("above_tie", 200), ("below_tie", 200), ("overflow_to_infinity", 1), ("written", 2000), ("read_buffered", 200)],
        hang_cpu_s: 20,
    });
}
