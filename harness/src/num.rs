//! Numbers: comparison, hashing, conversions and text.
use super::fmt_rt::same_num;
use super::sym::*;
use kserd::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use Number::*;

fn number(kind: usize) -> Number {
    match kind {
        0 => Uint(u128()),
        1 => Int(u128() as i128),
        _ => Float(f64()),
    }
}

/// A float taken apart: negative?, whole part (None at 2^128 and above), something after the point?
fn parts(x: f64) -> (bool, Option<u128>, bool) {
    let b = x.to_bits();
    let e = (b >> 52) & 0x7ff;
    let m = (b & ((1 << 52) - 1)) | ((e != 0) as u64) << 52;
    let neg = b >> 63 == 1;
    if e < 1023 {
        (neg, Some(0), m != 0)
    } else if e >= 1023 + 128 {
        (neg, None, false)
    } else if e >= 1023 + 52 {
        (neg, Some((m as u128) << (e - 1075)), false)
    } else {
        let s = 1075 - e;
        (neg, Some((m >> s) as u128), m & ((1 << s) - 1) != 0)
    }
}
/// Where `x` lies relative to an integer given by sign and magnitude (zero is not negative).
fn against(x: f64, neg: bool, mag: u128) -> Ordering {
    if x.is_nan() {
        return Ordering::Greater;
    }
    let (xn, whole, frac) = parts(x);
    let xn = xn && (whole != Some(0) || frac);
    if xn != neg {
        return if xn { Ordering::Less } else { Ordering::Greater };
    }
    let m = match whole {
        None => Ordering::Greater,
        Some(w) if w == mag => {
            if frac {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        }
        Some(w) => {
            if w < mag {
                Ordering::Less
            } else {
                Ordering::Greater
            }
        }
    };
    if neg {
        m.reverse()
    } else {
        m
    }
}
/// Position on the number line, decided without the library: NaN above everything, equal to itself.
pub fn line(a: Number, b: Number) -> Ordering {
    match (a, b) {
        (Uint(x), Uint(y)) => x.cmp(&y),
        (Int(x), Int(y)) => x.cmp(&y),
        (Uint(_), Int(y)) if y < 0 => Ordering::Greater,
        (Uint(x), Int(y)) => x.cmp(&(y as u128)),
        (Int(_), Uint(_)) => line(b, a).reverse(),
        (Float(x), Uint(y)) => against(x, false, y),
        (Float(x), Int(y)) => against(x, y < 0, y.unsigned_abs()),
        (Uint(_), Float(_)) | (Int(_), Float(_)) => line(b, a).reverse(),
        (Float(x), Float(y)) => {
            if x.is_nan() || y.is_nan() {
                x.is_nan().cmp(&y.is_nan())
            } else if x < y {
                Ordering::Less
            } else if x > y {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        }
    }
}
/// Records what a value feeds to a hasher.
#[derive(Default)]
pub struct Record(pub u64, pub u64);
impl Hasher for Record {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
            self.1 += 1;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = self.0.rotate_left(8) ^ x;
        self.1 += 8;
    }
}
pub fn hash<T: Hash + ?Sized>(x: &T) -> (u64, u64) {
    let mut h = Record::default();
    x.hash(&mut h);
    (h.0, h.1)
}

/// Splits the work by the sign bits of both: 0 any, otherwise 1 + two bits.
fn signs(a: Number, b: Number, which: usize) {
    let neg = |n| match n {
        Uint(x) => x >> 127 == 1,
        Int(x) => x < 0,
        Float(x) => x.to_bits() >> 63 == 1,
    };
    if which > 0 {
        assume((neg(a) == ((which - 1) & 1 == 1)) & (neg(b) == ((which - 1) & 2 == 2)));
    }
}
/// Every pair of numbers of two kinds (parameters 0 and 1) against the number line.
pub fn cmp() {
    let (a, b) = (number(param(0)), number(param(1)));
    signs(a, b, param(2));
    let want = line(a, b);
    cover(if want == Ordering::Equal { 1 } else { 2 });
    check(a.cmp(&b) == want, 30);
    check((a == b) == (want == Ordering::Equal), 31);
    check(a.partial_cmp(&b) == Some(want), 32);
    check(b.cmp(&a) == want.reverse(), 33);
    check((a < b) == (want == Ordering::Less) && (a >= b) == (want != Ordering::Less), 34);
}
/// Numbers which are equal hash the same.
pub fn hashes() {
    let (a, b) = (number(param(0)), number(param(1)));
    if a == b {
        cover(1);
        check(hash(&a) == hash(&b), 35);
    } else {
        cover(2);
    }
}
macro_rules! prims {
    ($i:expr, $n:expr, $($k:literal $t:ty, $kind:ident, $big:ty;)*) => {
        match $i {
            $( $k => {
                let x = <$t>::from_le_bytes(arr());
                let f = Number::from(x);
                check(matches!(f, $kind(y) if y == x as $big), 36);
                let want = line($n, $kind(x as $big));
                check(($n == x) == (want == Ordering::Equal), 37);
                check($n.partial_cmp(&x) == Some(want), 38);
            } )*
            _ => {}
        }
    };
}
/// Primitive numbers of a type (parameter 1) against numbers of a kind (parameter 0).
pub fn primitive() {
    let n = number(param(0));
    prims! { param(1), n,
        0 u8, Uint, u128; 1 u16, Uint, u128; 2 u32, Uint, u128; 3 u64, Uint, u128; 4 u128, Uint, u128; 5 usize, Uint, u128;
        6 i8, Int, i128; 7 i16, Int, i128; 8 i32, Int, i128; 9 i64, Int, i128; 10 i128, Int, i128; 11 isize, Int, i128;
    }
    if param(1) == 12 {
        let x = f64();
        check(matches!(Number::from(x), Float(y) if y.to_bits() == x.to_bits()), 36);
        let want = line(n, Float(x));
        check((n == x) == (want == Ordering::Equal), 37);
        check(n.partial_cmp(&x) == Some(want), 38);
    }
    cover(1);
}
const F32: [u32; 6] = [0x3f800000, 0x00000001, 0x7f7fffff, 0xc2f6e979, 0x4b800000, 0x3dcccccd];
/// Single precision: the number reads back as the same single (one byte of a pattern is an input).
pub fn single() {
    let mut b = F32[param(0)].to_le_bytes();
    b[param(1)] = byte();
    let x = f32::from_le_bytes(b);
    match Number::from(x) {
        Float(y) if x.is_nan() => check(y.is_nan(), 36),
        Float(y) => {
            cover(1);
            check(y as f32 == x, 36);
            check(Number::from(x) == x, 37)
        }
        _ => check(false, 36),
    }
}
/// Whole numbers out of numbers of every kind.
pub fn conv() {
    let n = number(param(0));
    let (u, i, f) = (n.as_u128(), n.as_i128(), n.as_f64());
    match n {
        Uint(x) => {
            check(u == Ok(x), 40);
            check(i.is_ok() == (x >> 127 == 0), 41);
            check(i.map(|y| y as u128 == x).unwrap_or(true), 42);
            check(f == x as f64, 43);
        }
        Int(x) => {
            check(i == Ok(x), 40);
            check(u.is_ok() == (x >= 0), 41);
            check(u.map(|y| y as i128 == x).unwrap_or(true), 42);
            check(f == x as f64, 43);
        }
        Float(x) => {
            check(f.to_bits() == x.to_bits(), 43);
            let (neg, whole, frac) = parts(x);
            let nan = x.is_nan();
            if param(1) == 0 {
                // integral values
                assume(!frac && !nan);
                let neg = neg && whole != Some(0);
                match whole {
                    Some(w) => {
                        cover(1);
                        check(u == if neg { Err(ds::IntoIntError) } else { Ok(w) }, 44);
                        let want = if neg && w <= 1 << 127 {
                            Ok((w as i128).wrapping_neg())
                        } else if !neg && w < 1 << 127 {
                            Ok(w as i128)
                        } else {
                            Err(ds::IntoIntError)
                        };
                        check(i == want, 45);
                    }
                    None => {
                        cover(2);
                        check(u.is_err() && i.is_err(), 46);
                    }
                }
            } else {
                assume(frac || nan);
                cover(3);
                // a conversion which works names the nearest whole number, closer than 1e-9
                if let Ok(y) = u {
                    let w = whole.unwrap_or(0);
                    check(!nan && !neg && (y == w || y == w + 1), 47);
                    check((y as u64 as f64 - x).abs() < 1e-9, 48);
                }
                if let Ok(y) = i {
                    let w = whole.unwrap_or(0) as i128;
                    let m = if neg { -y } else { y };
                    check(!nan && (m == w || m == w + 1), 47);
                    check((y as i64 as f64 - x).abs() < 1e-9, 48);
                    check(u.is_ok() == (x >= 0.0), 41);
                }
                // clear fractions never convert
                let m = x.abs();
                if m < 1e6 && m - m.trunc() > 1e-3 && m - m.trunc() < 0.999 {
                    cover(4);
                    check(u.is_err() && i.is_err(), 49);
                }
            }
        }
    }
    cover(10);
}

fn text(n: Number) {
    let t = n.to_string();
    observe_text(&t);
    match t.parse::<Number>() {
        Ok(m) => check(same_num(n, m), 50),
        Err(_) => check(false, 51),
    }
    let k = Kserd::new(Value::Num(n));
    let t = k.as_str();
    match parse::parse(&t) {
        Ok(Kserd { val: Value::Num(m), id: None }) => check(same_num(n, m), 52),
        _ => check(false, 53),
    }
    cover(1);
}
const INTS: [u128; 8] = [0, u128::MAX, 10u128.pow(19), 10u128.pow(38), 1 << 64, i128::MAX as u128, 1 << 127, 123_456_789_012_345_678_901_234_567_890];
/// Integers: kind (parameter 0), a base pattern (1), the byte of it which is an input (2; 16: the low two).
pub fn int_text() {
    let mut b = INTS[param(1)].to_le_bytes();
    if param(2) == 16 {
        b[0] = byte();
        b[1] = byte();
    } else {
        b[param(2)] = byte();
    }
    let x = u128::from_le_bytes(b);
    text(if param(0) == 0 { Uint(x) } else { Int(x as i128) });
}
pub const FLOATS: [u64; 10] = [
    0x3ff0000000000000, // 1.0
    0x0000000000000001, // the smallest
    0x7fefffffffffffff, // the largest
    0x3fb999999999999a, // 0.1
    0x4340000000000000, // 2^53
    0xc0934a456d5cfaad, // -1234.5678
    0x47efffffe0000000, // about 2^128
    0x4415af1d78b58c40, // 1e20
    0x0010000000000000, // the smallest normal
    0x444b1ae4d6e2ef50, // 1e21
];
/// Floats: a base pattern (parameter 0) and the byte of it which is an input (1).
pub fn float_text() {
    let mut b = FLOATS[param(0)].to_le_bytes();
    b[param(1)] = byte();
    text(Float(f64::from_le_bytes(b)));
}

/// Digit strings: `lead` fixed characters, then symbolic ones out of digits and `_` (parameter 2).
/// The value is the decimal value or the text is refused when no integer holds it.
pub fn digits() {
    const LEADS: [&str; 9] = [
        "",
        "-",
        "340282366920938463463374607431768211",    // the largest unsigned less its last digits
        "-170141183460469231731687303715884105",   // the smallest signed less its last digits
        "170141183460469231731687303715884105",
        "999999999999999999999999999999999999",
        "1844674407370955161",                      // around 2^64
        "-9223372036854775",
        "00000000000000000000000000000000000000000000",
    ];
    let lead = LEADS[param(0)];
    let n = param(1);
    let under = param(2) == 1;
    let tail = ascii(n);
    let mut s = lead.to_string();
    let mut ok = true;
    for b in tail.bytes() {
        ok &= b.is_ascii_digit() | (under & (b == b'_'));
    }
    assume(ok);
    s.push_str(&tail);
    let neg = s.starts_with('-');
    let mut sum = Some(0u128);
    let mut any = false; // underscores only separate digits
    for b in s.bytes().skip(neg as usize) {
        if b != b'_' {
            any = true;
            sum = sum.and_then(|x| x.checked_mul(10)).and_then(|x| x.checked_add((b - b'0') as u128));
        }
    }
    let want = if neg {
        match sum {
            Some(x) if x < 1 << 127 => Some(Int(-(x as i128))),
            Some(x) if x == 1 << 127 => Some(Int(i128::MIN)),
            _ => None,
        }
    } else {
        sum.map(Uint)
    };
    let got = s.parse::<Number>();
    match (got, want) {
        (Ok(g), Some(w)) => {
            cover(1);
            check(any, 54);
            check(same_num(g, w), 55);
        }
        (Ok(_), None) => check(false, 56),
        (Err(_), Some(_)) => {
            cover(2);
            check(!any, 57)
        }
        (Err(_), None) => cover(3),
    }
    // the same text as a whole document
    if let Ok(g) = got_again(&s) {
        check(matches!((g, want), (g, Some(w)) if same_num(g, w)), 58);
        cover(4);
    } else {
        check(want.is_none() || !any || s.contains('_'), 59);
    }
}
fn got_again(s: &str) -> Result<Number, ()> {
    match parse::parse(s) {
        Ok(Kserd { val: Value::Num(m), .. }) => Ok(m),
        Ok(x) => {
            std::mem::forget(x);
            Err(())
        }
        Err(e) => {
            std::mem::forget(e);
            Err(())
        }
    }
}
fn ten(n: i32) -> f64 {
    let mut x = 1.0;
    for _ in 0..n {
        x *= 10.0;
    }
    x
}
/// Decimal fractions: symbolic digits around a point with an optional exponent (parameter 2).
pub fn decimals() {
    let (n, m) = (param(0), param(1));
    let neg = flag();
    let a = ascii(n + m);
    let mut ok = true;
    for b in a.bytes() {
        ok &= b.is_ascii_digit();
    }
    assume(ok);
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    s.push_str(&a[..n]);
    s.push('.');
    s.push_str(&a[n..]);
    let mut whole = 0u64;
    for b in a.bytes() {
        whole = whole * 10 + (b - b'0') as u64;
    }
    // digits below 2^53 over an exact power of ten: one correctly rounded division
    let e = param(2) as i32 - 5;
    if e != 0 {
        s.push('e');
        s.push_str(&e.to_string());
    }
    let p = e - m as i32;
    let mut x = if p < 0 { whole as f64 / ten(-p) } else { whole as f64 * ten(p) };
    if neg {
        x = -x;
    }
    cover(1);
    match s.parse::<Number>() {
        Ok(g) => check(same_num(g, Float(x)), 55),
        Err(_) => check(n == 0 && m == 0, 57),
    }
    match got_again(&s) {
        Ok(g) => check(same_num(g, Float(x)), 58),
        Err(_) => check(n == 0 || m == 0, 59),
    }
}
