//! Exact decimal oracle for number literals.

/// Digits and power of ten of a JSON number literal.
pub struct Lit {
    pub neg: bool,
    /// All digits of integer and fraction part.
    pub digits: Vec<u8>,
    /// Power of ten that multiplies the digit sequence (saturating).
    pub exp: i64,
    /// Plain digits with optional minus?
    pub plain: bool,
}

pub fn lit(s: &str) -> Lit {
    let b = s.as_bytes();
    let mut i = 0;
    let neg = b[0] == b'-';
    if neg {
        i = 1;
    }
    let mut digits = Vec::new();
    let mut exp: i64 = 0;
    let mut plain = true;
    while i < b.len() && b[i].is_ascii_digit() {
        digits.push(b[i] - b'0');
        i += 1;
    }
    if i < b.len() && b[i] == b'.' {
        plain = false;
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            digits.push(b[i] - b'0');
            exp -= 1;
            i += 1;
        }
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        plain = false;
        i += 1;
        let mut eneg = false;
        if b[i] == b'+' || b[i] == b'-' {
            eneg = b[i] == b'-';
            i += 1;
        }
        let mut e: i64 = 0;
        while i < b.len() {
            e = e.saturating_mul(10).saturating_add((b[i] - b'0') as i64);
            i += 1;
        }
        exp = exp.saturating_add(if eneg { -e } else { e });
    }
    Lit { neg, digits, exp, plain }
}

impl Lit {
    pub fn is_zero(&self) -> bool {
        self.digits.iter().all(|d| *d == 0)
    }
    /// The exact magnitude if the number is an integer below 2^128.
    pub fn exact(&self) -> Option<u128> {
        if self.is_zero() {
            return Some(0);
        }
        let mut d: &[u8] = &self.digits;
        let mut e = self.exp;
        while d[0] == 0 {
            d = &d[1..];
        }
        while d[d.len() - 1] == 0 {
            d = &d[..d.len() - 1];
            e = e.saturating_add(1);
        }
        if e < 0 || (d.len() as i64).saturating_add(e) > 40 {
            return None;
        }
        let mut v: u128 = 0;
        for x in d.iter().copied().chain(std::iter::repeat(0).take(e as usize)) {
            v = v.checked_mul(10)?.checked_add(x as u128)?;
        }
        Some(v)
    }
    /// The digit sequence itself as an integer.
    pub fn digit_seq(&self) -> Option<u128> {
        let mut v: u128 = 0;
        for x in &self.digits {
            v = v.checked_mul(10)?.checked_add(*x as u128)?;
        }
        Some(v)
    }
}

pub fn pow10(e: u64) -> Option<u128> {
    if e > 38 {
        None
    } else {
        Some(10u128.pow(e as u32))
    }
}

/// What an integer type with the given range must do with a literal.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum IntVerdict {
    /// Must yield exactly this (sign, magnitude).
    Must(bool, u128),
    /// May yield this, or refuse.
    May(bool, u128),
    /// Must refuse.
    Refuse,
}

/// `min_mag`: magnitude of the minimum; `max`: the maximum.
pub fn int_verdict(l: &Lit, min_mag: u128, max: u128) -> IntVerdict {
    let Some(v) = l.exact() else { return IntVerdict::Refuse };
    let fits = if l.neg { v <= min_mag } else { v <= max };
    if !fits {
        return IntVerdict::Refuse;
    }
    let neg = l.neg && v != 0;
    let simple = l.digit_seq().map(|d| d <= max).unwrap_or(false)
        && pow10(l.exp.unsigned_abs()).map(|p| p <= max).unwrap_or(false);
    if l.plain || simple {
        IntVerdict::Must(neg, v)
    } else {
        IntVerdict::May(neg, v)
    }
}
