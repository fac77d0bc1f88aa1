//! Encoding with serde, decoding, and both through text.
use super::fmt_rt::config;
use super::gen;
use super::num::line;
use super::sym::*;
use kserd::*;
use serde::de::{Deserialize, DeserializeOwned, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Serialize, Serializer};
use serde_derive::*;
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Formatter as F};

type Yes = bool;

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Bare;
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Fieldless {}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Argless();
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Wrap<T>(T);
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Two(u8, i8);
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Rec<T> {
    x: T,
    b_2: Option<T>,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Deep {
    rec: Rec<u8>,
    two: Two,
    list: Vec<Rec<i8>>,
    map: BTreeMap<u8, Two>,
    bare: Bare,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
enum Pick<T> {
    Unit,
    One(T),
    Pair(T, bool),
    Named { x: T, y: Option<u8> },
    Args(),
    Fields {},
    Tuple((T, u8)),
    List(Vec<T>),
    Maybe(Option<T>),
    Nothing(()),
    Again(Box<Pick<T>>),
}
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
enum Plain {
    A,
    B,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(untagged)]
enum Loose {
    Num(i16),
    Text(String),
    List(Vec<u8>),
    Rec { a: u8 },
    None,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(tag = "kind")]
enum Tagged {
    A,
    B { v: u8 },
    C(Rec<u8>),
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[serde(tag = "t", content = "c")]
enum Beside {
    A,
    B(u8),
    C(u8, bool),
    D { v: i8 },
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Flat {
    a: u8,
    #[serde(flatten)]
    rest: Rec<u8>,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
struct Lax {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    a: Option<u8>,
    #[serde(rename = "bee-2")]
    b: u8,
    #[serde(skip)]
    c: u8,
}
/// Bytes which encode as a byte array.
#[derive(PartialEq, Clone, Debug)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct BytesVisitor;
impl<'de> Visitor<'de> for BytesVisitor {
    type Value = Bytes;
    fn expecting(&self, f: &mut F) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Bytes, E> {
        Ok(Bytes(v.to_vec()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Bytes, E> {
        Ok(Bytes(v))
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if flag() {
            d.deserialize_bytes(BytesVisitor)
        } else {
            d.deserialize_byte_buf(BytesVisitor)
        }
    }
}

fn back<T: DeserializeOwned + PartialEq>(x: &T, k: Kserd, code: u32) {
    match k.decode::<T>() {
        Ok(y) => {
            check(y == *x, code);
            cover(1);
            std::mem::forget(y);
        }
        Err(_) => check(false, code + 1),
    }
}
/// How the data travels: parameter 1 (0 directly, 1 as text with the usual names displayed).
fn trip<T: Serialize + DeserializeOwned + PartialEq>(x: T) {
    let k = match Kserd::enc(&x) {
        Ok(k) => k,
        Err(_) => return check(false, 130),
    };
    if param(1) == 0 {
        back(&x, k.mk_brw(), 133);
        back(&x, k, 131);
    } else {
        let mut c = config();
        c.id_on_tuples = true;
        c.id_on_containers = true;
        let s = k.as_str_with_config(c);
        observe_text(&s);
        match kserd::parse::parse(&s) {
            Ok(p) => back(&x, p, 135),
            Err(_) => check(false, 137),
        }
        std::mem::forget((k, s));
    }
    std::mem::forget(x);
}
fn pick() -> Pick<u8> {
    match choice_p(2, 11) {
        0 => Pick::Unit,
        1 => Pick::One(tiny()),
        2 => Pick::Pair(tiny(), any_bool()),
        3 => Pick::Named { x: tiny(), y: opt() },
        4 => Pick::Args(),
        5 => Pick::Fields {},
        6 => Pick::Tuple((tiny(), 7)),
        7 => Pick::List(list()),
        8 => Pick::Maybe(opt()),
        9 => Pick::Nothing(()),
        _ => Pick::Again(Box::new(match choice(5) {
            0 => Pick::Unit,
            1 => Pick::One(tiny()),
            2 => Pick::Named { x: 1, y: opt() },
            3 => Pick::Fields {},
            _ => Pick::Maybe(opt()),
        })),
    }
}
fn opt() -> Option<u8> {
    if flag() {
        Some(tiny())
    } else {
        None
    }
}
fn list() -> Vec<u8> {
    (0..choice(3)).map(|_| tiny()).collect()
}
fn letter() -> char {
    let b = byte();
    assume(b < 0x80);
    b as char
}
fn wide() -> char {
    wide2().chars().next().unwrap()
}
fn text() -> String {
    ascii(choice(3))
}
fn small() -> i8 {
    if param(1) == 0 {
        byte() as i8
    } else {
        tiny() as i8 - 5
    }
}
/// Any byte, or in texts any digit.
fn tiny() -> u8 {
    let b = byte();
    if param(1) != 0 {
        assume(b < 10);
    }
    b
}
/// Texts of wide numbers are the subject of other checks.
fn mask() -> u16 {
    if param(1) == 0 {
        0xffff
    } else {
        7
    }
}
fn rec() -> Rec<u8> {
    Rec { x: tiny(), b_2: opt() }
}
/// Encode and decode: the type is parameter 0.
pub fn round() {
    match param(0) {
        0 => trip(()),
        1 => trip(any_bool()),
        2 => trip(byte()),
        3 => trip(u16() & mask()),
        4 => trip(byte() as i8),
        5 => trip(((u16() & mask()) as i16).wrapping_sub(3)),
        6 => trip(letter()),
        7 => trip(wide()),
        8 => trip(text()),
        9 => trip(Bytes(list())),
        10 => trip(opt()),
        11 => trip(if flag() { Some(opt()) } else { None }),
        12 => trip(if flag() { Some(()) } else { None }),
        13 => trip((tiny(),)),
        14 => trip((tiny(), any_bool(), letter())),
        15 => trip([tiny(), tiny()]),
        16 => trip([(); 0]),
        17 => trip([tiny(); 1]),
        18 => trip(list()),
        19 => trip(vec![list(), list()]),
        20 => trip((0..choice(3)).map(|_| (tiny(), tiny())).collect::<BTreeMap<_, _>>()),
        21 => trip((0..choice(3)).map(|i| (ascii(1), i == 0)).collect::<BTreeMap<_, _>>()),
        22 => trip((0..choice(3)).map(|i| (small(), if i == 0 { opt() } else { None })).collect::<BTreeMap<_, _>>()),
        23 => trip((0..choice(3)).map(|_| ((tiny(), false), Bare)).collect::<BTreeMap<_, _>>()),
        24 => trip(Bare),
        25 => trip(Fieldless {}),
        26 => trip(Argless()),
        27 => trip(Wrap(tiny())),
        28 => trip(Wrap(Wrap(small()))),
        29 => trip(Wrap(list())),
        30 => trip(Wrap((tiny(), ()))),
        31 => trip(Wrap(opt())),
        32 => trip(Wrap(())),
        33 => trip(Two(tiny(), small())),
        34 => trip(rec()),
        35 => trip(Rec { x: rec(), b_2: None }),
        36 => trip(Rec { x: list(), b_2: if flag() { Some(list()) } else { None } }),
        37 => trip(Rec { x: (), b_2: Some(()) }),
        38 => trip(Rec { x: text(), b_2: None }),
        39 => trip(Deep {
            rec: Rec { x: 1, b_2: None },
            two: Two(tiny(), -3),
            list: (0..choice(3)).map(|_| Rec { x: 5, b_2: None }).collect(),
            map: (0..choice(3)).map(|i| (i as u8, Two(3, 4))).collect(),
            bare: Bare,
        }),
        40 => trip(pick()),
        41 => trip(vec![pick(), Pick::Unit]),
        42 => trip(Rec { x: pick(), b_2: None }),
        43 => trip(Some(pick())),
        44 => trip((pick(), tiny())),
        45 => trip(match choice(5) {
            0 => Loose::Num(small() as i16 * 7),
            1 => Loose::Text(text()),
            2 => Loose::List(list()),
            3 => Loose::Rec { a: tiny() },
            _ => Loose::None,
        }),
        46 => trip(match choice(3) {
            0 => Tagged::A,
            1 => Tagged::B { v: tiny() },
            _ => Tagged::C(rec()),
        }),
        47 => trip(match choice(4) {
            0 => Beside::A,
            1 => Beside::B(tiny()),
            2 => Beside::C(tiny(), any_bool()),
            _ => Beside::D { v: small() },
        }),
        48 => trip(Flat { a: tiny(), rest: rec() }),
        49 => trip(Lax { a: opt(), b: tiny(), c: 0 }),
        50 => trip(if flag() { Ok(tiny()) } else { Err(text()) } as Result<u8, String>),
        51 => trip(Wrap(Bare)),
        52 => trip(vec![Bare, Bare]),
        53 => trip(Rec { x: Bare, b_2: Some(Bare) }),
        54 => trip(vec![(), ()]),
        55 => trip((Fieldless {}, Argless(), Bare, ())),
        56 => trip(Wrap(Wrap(Bare))),
        57 => trip((0..choice(3)).map(|_| (u128() & (mask() as u128), ())).collect::<BTreeMap<_, _>>()),
        58 => trip(Wrap(Bytes(list()))),
        59 => trip(Rec { x: Bytes(list()), b_2: None }),
        60 => trip((0..choice(3)).map(|i| (i as u8, rec())).collect::<BTreeMap<_, _>>()),
        61 => trip(Some(Wrap(tiny()))),
        62 => trip(Wrap(Some(Wrap(opt())))),
        63 => trip(vec![(tiny(), letter()), (1, 'x')]),
        64 => trip((opt(), list(), letter())),
        // many elements, long contents
        66 => {
            let mut v = vec![5u8; 300];
            v[[0, 150, 299][choice(3)]] = tiny();
            trip(v)
        }
        67 => trip((0..300u16).map(|i| (i, if i == 299 { tiny() } else { 1 })).collect::<BTreeMap<_, _>>()),
        68 => trip("0123456789".repeat(30) + &ascii(1)),
        69 => {
            let mut v = vec![5u8; 300];
            v[[0, 150, 299][choice(3)]] = byte();
            trip(Bytes(v))
        }
        70 => trip(Rec { x: "an é ".repeat(60) + &ascii(1), b_2: None }),
        _ => trip((opt(), opt(), true)),
    }
}
/// Maps keyed by variants without data.
pub fn variant_keys() {
    let (a, b) = (tiny(), tiny());
    let x: BTreeMap<Plain, u8> = [(Plain::A, a), (Plain::B, b)].into_iter().collect();
    match Kserd::enc(&x).map(|k| k.decode::<BTreeMap<Plain, u8>>()) {
        Ok(Ok(y)) => check(x == y, 138),
        _ => check(false, 138),
    }
}
/// Every integer and float type with arbitrary contents, directly.
pub fn round_numbers() {
    match param(0) {
        0 => trip(byte()),
        1 => trip(u16()),
        2 => trip(u32()),
        3 => trip(u64()),
        4 => trip(u128()),
        5 => trip(byte() as i8),
        6 => trip(u16() as i16),
        7 => trip(u32() as i32),
        8 => trip(u64() as i64),
        9 => trip(u128() as i128),
        _ => {
            let x = f64();
            let k = Kserd::enc(&x);
            check(k.is_ok(), 130);
            if let Ok(k) = k {
                match k.decode::<f64>() {
                    Ok(y) => check(y.to_bits() == x.to_bits(), 131),
                    Err(_) => check(false, 132),
                }
            }
            cover(1);
        }
    }
}

/// Wide numbers: one arbitrary byte (parameter 2) of a pattern (parameter 3). Type: parameter 0.
pub fn round_wide() {
    let at = |n: usize| {
        let mut b = [[0u8; 16], [0xff; 16], [0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]][param(3)];
        b[param(2) % n] = byte();
        b
    };
    match param(0) {
        0 => trip(u128::from_le_bytes(at(16))),
        1 => trip(i128::from_le_bytes(at(16))),
        2 => trip(u128::from_le_bytes(at(8)) as u64),
        3 => trip(u128::from_le_bytes(at(8)) as i64),
        4 => trip(u128::from_le_bytes(at(4)) as u32),
        5 => trip(u128::from_le_bytes(at(4)) as i32),
        6 => trip(u128::from_le_bytes(at(2)) as u16),
        7 => trip(u128::from_le_bytes(at(2)) as i16),
        8 => trip(vec![Some(u128::from_le_bytes(at(8)) as u64)]),
        _ => trip(Rec { x: u128::from_le_bytes(at(8)) as i64, b_2: None }),
    }
}

fn number(kind: usize) -> Number {
    match kind {
        0 => Number::Uint(u128()),
        1 => Number::Int(u128() as i128),
        _ => Number::Float(f64()),
    }
}
/// Decoding a number (kind: parameter 0) as an integer type (parameter 1): exactly when it fits.
pub fn fits() {
    let n = number(param(0));
    let k = || Kserd::new(Value::Num(n));
    macro_rules! int {
        ($t:ty, $signed:expr) => {{
            let got = k().decode::<$t>();
            let (u, i) = (n.as_u128().ok(), n.as_i128().ok());
            let ok = if $signed {
                i.map(|i| i >= <$t>::MIN as i128 && i <= <$t>::MAX as i128).unwrap_or(false)
            } else {
                u.map(|u| u <= <$t>::MAX as u128).unwrap_or(false)
            };
            match got {
                Ok(x) => {
                    cover(1);
                    check(ok, 140);
                    check(if $signed { i == Some(x as i128) } else { u == Some(x as u128) }, 141);
                }
                Err(e) => {
                    cover(2);
                    check(!ok, 142);
                    std::mem::forget(e);
                }
            }
        }};
    }
    match param(1) {
        0 => int!(u8, false),
        1 => int!(u16, false),
        2 => int!(u32, false),
        3 => int!(u64, false),
        4 => int!(u128, false),
        5 => int!(i8, true),
        6 => int!(i16, true),
        7 => int!(i32, true),
        8 => int!(i64, true),
        9 => int!(i128, true),
        11 => {
            cover(2);
            let y = n.as_f64() as f32;
            match k().decode::<f32>() {
                Ok(x) => {
                    cover(1);
                    check(x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()), 141)
                }
                Err(_) => check(false, 142),
            }
        }
        _ => {
            cover(2);
            match k().decode::<f64>() {
                Ok(x) => {
                    cover(1);
                    check(x.to_bits() == n.as_f64().to_bits(), 141)
                }
                Err(_) => check(false, 142),
            }
        }
    }
}

/// What a self-describing visitor sees.
enum Seen {
    Unit,
    Bool(bool),
    Uint(u128),
    Int(i128),
    Float(f64),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Seen>),
    New(Box<Seen>),
    List(Vec<Seen>),
    Map(Vec<(Seen, Seen)>),
}
struct Eye;
impl<'de> Visitor<'de> for Eye {
    type Value = Seen;
    fn expecting(&self, f: &mut F) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E>(self) -> Result<Seen, E> {
        Ok(Seen::Unit)
    }
    fn visit_bool<E>(self, x: Yes) -> Result<Seen, E> {
        Ok(Seen::Bool(x))
    }
    fn visit_u64<E>(self, x: u64) -> Result<Seen, E> {
        Ok(Seen::Uint(x as u128))
    }
    fn visit_u128<E>(self, x: u128) -> Result<Seen, E> {
        Ok(Seen::Uint(x))
    }
    fn visit_i64<E>(self, x: i64) -> Result<Seen, E> {
        Ok(Seen::Int(x as i128))
    }
    fn visit_i128<E>(self, x: i128) -> Result<Seen, E> {
        Ok(Seen::Int(x))
    }
    fn visit_f64<E>(self, x: f64) -> Result<Seen, E> {
        Ok(Seen::Float(x))
    }
    fn visit_str<E>(self, x: &str) -> Result<Seen, E> {
        Ok(Seen::Str(x.to_string()))
    }
    fn visit_bytes<E>(self, x: &[u8]) -> Result<Seen, E> {
        Ok(Seen::Bytes(x.to_vec()))
    }
    fn visit_none<E>(self) -> Result<Seen, E> {
        Ok(Seen::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        Ok(Seen::Some(Box::new(Seen::deserialize(d)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        Ok(Seen::New(Box::new(Seen::deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(Seen::List(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry()? {
            v.push(x);
        }
        Ok(Seen::Map(v))
    }
}
impl<'de> Deserialize<'de> for Seen {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(Eye)
    }
}
fn sees(k: &Kserd, s: &Seen) -> bool {
    let list = |x: &Vec<Kserd>, s: &Seen| match s {
        Seen::List(v) => x.len() == v.len() && x.iter().zip(v).all(|(a, b)| sees(a, b)),
        _ => false,
    };
    match (&k.val, s) {
        (Value::Unit, Seen::Unit) => true,
        (Value::Bool(x), Seen::Bool(y)) => x == y,
        // floats are shown as floats
        (Value::Num(Number::Float(_)), Seen::Uint(_)) | (Value::Num(Number::Float(_)), Seen::Int(_)) => false,
        (Value::Num(x), Seen::Uint(y)) => line(*x, Number::Uint(*y)).is_eq(),
        (Value::Num(x), Seen::Int(y)) => line(*x, Number::Int(*y)).is_eq(),
        (Value::Num(Number::Float(x)), Seen::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Str(x), Seen::Str(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Barr(x), Seen::Bytes(y)) => x.as_bytes() == &y[..],
        (Value::Tuple(x), s) => match (x.len(), k.id(), s) {
            (0, Some("None"), Seen::None) => true,
            (1, Some("Some"), Seen::Some(y)) => sees(&x[0], y),
            (1, Some(_), Seen::New(y)) => sees(&x[0], y),
            (0, Some("None"), _) | (1, Some(_), _) => false,
            _ => list(x, s),
        },
        (Value::Seq(x), s) => list(x, s),
        (Value::Cntr(x), Seen::Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| matches!(&b.0, Seen::Str(n) if n.as_bytes() == a.0.as_bytes()) && sees(a.1, &b.1))
        }
        (Value::Map(x), Seen::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| sees(a.0, &b.0) && sees(a.1, &b.1)),
        _ => false,
    }
}
fn seen(k: Kserd) {
    match k.clone().decode::<Seen>() {
        Ok(s) => {
            check(sees(&k, &s), 143);
            std::mem::forget(s);
        }
        Err(_) => check(false, 144),
    }
    check(k.clone().decode::<serde::de::IgnoredAny>().is_ok(), 144);
    cover(1);
    std::mem::forget(k);
}
/// Self-describing decoding of trees and of values with input contents.
pub fn any_tree() {
    seen(gen::by_params());
}
pub fn any_value() {
    let id = if flag() { "Some" } else { "None" };
    let mut k = super::vals::value(param(0), param(1), param(2), id);
    if flag() {
        k.id = None;
    }
    seen(k);
}
pub fn any_number() {
    seen(Kserd::new(Value::Num(number(param(0)))));
}

fn quiet<T: DeserializeOwned>(k: &Kserd) -> bool {
    match k.clone().decode::<T>() {
        Ok(x) => {
            std::mem::forget(x);
            true
        }
        Err(e) => {
            check(!e.to_string().is_empty(), 145);
            false
        }
    }
}
/// What was decoded, encoded again, holds what the data holds.
fn agrees(k: &Kserd, e: &Kserd) -> bool {
    let absent = |e: &Kserd| e.id() == Some("None");
    match (&k.val, &e.val) {
        (Value::Unit, Value::Unit) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Num(x), Value::Num(y)) => line(*x, *y).is_eq(),
        (Value::Str(x), Value::Str(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Barr(x), Value::Str(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Tuple(x), Value::Tuple(y)) | (Value::Seq(x), Value::Seq(y)) | (Value::Tuple(x), Value::Seq(y)) | (Value::Seq(x), Value::Tuple(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| agrees(a, b))
        }
        // fields which the type does not have are passed over
        (Value::Cntr(x), Value::Cntr(y)) => y.iter().all(|(f, b)| x.get(f).map_or(absent(b), |a| agrees(a, b))),
        (Value::Map(x), Value::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| agrees(a.0, b.0) && agrees(a.1, b.1)),
        (Value::Cntr(x), Value::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| b.0.str() == Some(a.0.as_str()) && agrees(a.1, b.1)),
        _ => blank(&k.val) && blank(&e.val),
    }
}
fn kept<T: DeserializeOwned + Serialize>(k: &Kserd, named: bool) {
    if let Ok(x) = k.clone().decode::<T>() {
        match Kserd::enc(&x) {
            Ok(e) => {
                cover(3);
                if cfg!(not(kse)) && std::env::var_os("KSE_SHOW").is_some() {
                    eprintln!("{:?}\n{:?}", k, e);
                }
                check(agrees(k, &e) && (!named || k.id() == e.id()), 139);
                std::mem::forget(e);
            }
            Err(_) => check(false, 139),
        }
        std::mem::forget(x);
    }
}
/// Decoding anything as any type gives a value or an error, never the wrong kind of value.
fn refuse(k: Kserd) {
    let k = &k;
    let v = &k.val;
    check(quiet::<bool>(k) == matches!(v, Value::Bool(_)), 146);
    check(quiet::<String>(k) == matches!(v, Value::Str(_)) || matches!(v, Value::Barr(_)), 146);
    check(quiet::<char>(k) == matches!(v, Value::Str(s) if s.chars().count() == 1), 146);
    check(!quiet::<u8>(k) || matches!(v, Value::Num(_)), 146);
    check(!quiet::<i64>(k) || matches!(v, Value::Num(_)), 146);
    check(quiet::<f64>(k) == matches!(v, Value::Num(_)), 146);
    check(quiet::<f32>(k) == matches!(v, Value::Num(_)), 146);
    check(quiet::<Bytes>(k) == matches!(v, Value::Barr(_)), 146);
    check(!quiet::<()>(k) || matches!(v, Value::Unit), 146);
    check(!quiet::<Bare>(k) || blank(v), 146);
    check(!quiet::<Two>(k) || len(v) == Some(2), 146);
    check(!quiet::<(u8, u8)>(k) || len(v) == Some(2), 146);
    check(!quiet::<[u8; 1]>(k) || len(v) == Some(1), 146);
    check(!quiet::<Rec<u8>>(k) || matches!(v, Value::Cntr(_) | Value::Map(_)) || len(v) == Some(2), 146);
    check(!quiet::<Vec<u8>>(k) || len(v).is_some(), 146);
    check(!quiet::<Vec<bool>>(k) || len(v).is_some(), 146);
    check(!quiet::<BTreeMap<String, u8>>(k) || matches!(v, Value::Cntr(_) | Value::Map(_)), 146);
    check(!quiet::<Option<u8>>(k) || blank(v) || len(v) == Some(1), 146);
    quiet::<Wrap<u8>>(k);
    quiet::<Lax>(k);
    quiet::<Loose>(k);
    quiet::<Tagged>(k);
    quiet::<Beside>(k);
    quiet::<Flat>(k);
    if quiet::<Pick<u8>>(k) {
        cover(2);
        const V: [&str; 11] = ["Unit", "One", "Pair", "Named", "Args", "Fields", "Tuple", "List", "Maybe", "Nothing", "Again"];
        check(k.id().map(|i| V.contains(&i)).unwrap_or(false), 147);
    }
    cover(1);
}
fn blank(v: &Value) -> bool {
    match v {
        Value::Unit => true,
        Value::Tuple(x) => x.is_empty(),
        Value::Cntr(x) => x.is_empty(),
        _ => false,
    }
}
fn len(v: &Value) -> Option<usize> {
    match v {
        Value::Tuple(x) | Value::Seq(x) => Some(x.len()),
        _ => None,
    }
}
pub fn wrong_tree() {
    refuse(gen::by_params());
}
/// Values which are like those of some types: parameter 0 the kind, 1 how many children.
pub fn like() {
    const N: [&str; 12] = ["Unit", "One", "Pair", "Named", "Args", "Fields", "Tuple", "List", "Maybe", "Nothing", "None", "Some"];
    let kid = || match choice(5) {
        0 => Kserd::new_num(u16()),
        1 => Kserd::new_bool(any_bool()),
        2 => Kserd::new_unit(),
        3 => Kserd::with_id("None", Value::Tuple(vec![])).unwrap(),
        _ => Kserd::with_id("Some", Value::Tuple(vec![Kserd::new_num(u16())])).unwrap(),
    };
    let kids: Vec<Kserd> = (0..param(1)).map(|_| kid()).collect();
    let val = match param(0) {
        0 => Value::Tuple(kids),
        1 => Value::Seq(kids),
        2 => Value::Cntr(kids.into_iter().zip(["x", "y", "b_2", "z"]).map(|(k, f)| (Kstr::brwed(f), k)).collect()),
        _ => Value::Map(kids.into_iter().zip(["x", "y", "b_2", "z"]).map(|(k, f)| (Kserd::new_str(f), k)).collect()),
    };
    let k = Kserd::with_id(N[choice_p(3, N.len())], val).unwrap();
    kept::<Pick<u8>>(&k, true);
    kept::<Vec<u8>>(&k, false);
    kept::<Vec<bool>>(&k, false);
    kept::<BTreeMap<String, u8>>(&k, false);
    kept::<(u8, u8)>(&k, false);
    kept::<[bool; 2]>(&k, false);
    kept::<Two>(&k, false);
    kept::<(Option<u8>, bool, u8)>(&k, false);
    if matches!(k.val, Value::Cntr(_)) {
        kept::<Rec<u8>>(&k, false);
    }
    cover(1);
    std::mem::forget(k);
}
/// Values with input contents named like each variant of an enum (parameter 3).
pub fn wrong_value() {
    const N: [&str; 8] = ["Unit", "One", "Pair", "Named", "Args", "Fields", "None", "Some"];
    let mut k = super::vals::value(param(0), param(1), param(2), N[choice_p(4, N.len())]);
    if let (9, true) = (param(0), flag()) {
        // the fields of a record, one of them possibly of another type or missing
        let c = k.cntr_mut();
        if let Some(mut c) = c {
            c.insert("x".into(), Kserd::new_num(u16()));
            if flag() {
                c.insert("b_2".into(), Kserd::with_id("None", Value::Tuple(vec![])).unwrap());
            }
        }
    }
    refuse(k);
}
/// Borrowed targets need borrowed data and give exactly that data.
pub fn borrowed() {
    let s = ascii(param(0));
    match Kserd::new_str(&s).decode::<&str>() {
        Ok(t) => check(std::ptr::eq(t.as_ptr(), s.as_ptr()) && t.len() == s.len(), 148),
        Err(_) => check(false, 148),
    }
    match Kserd::new_barr(s.as_bytes()).decode::<&[u8]>() {
        Ok(t) => check(std::ptr::eq(t.as_ptr(), s.as_ptr()) && t.len() == s.len(), 148),
        Err(_) => check(false, 148),
    }
    check(Kserd::new_string(s.clone()).decode::<&str>().is_err(), 149);
    check(Kserd::new_barrv(s.clone().into_bytes()).decode::<&[u8]>().is_err(), 149);
    let k = Kserd::new_string(s.clone());
    match k.mk_brw().decode::<&str>() {
        Ok(t) => check(t.as_bytes() == s.as_bytes(), 148),
        Err(_) => check(false, 148),
    }
    match Kserd::new_string(s.clone()).decode::<String>() {
        Ok(t) => check(t.as_bytes() == s.as_bytes(), 148),
        Err(_) => check(false, 148),
    }
    cover(1);
}
fn _debug<T: Debug>() {}
