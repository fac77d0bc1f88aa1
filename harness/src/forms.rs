//! The form of written text and of encoded and constructed data.
use super::fmt_rt::{config, show};
use super::gen;
use super::sym::*;
use super::vals::exact;
use kserd::fmt::*;
use kserd::*;
use serde::ser::{Serialize, SerializeMap, Serializer};
use serde_derive::*;
use std::collections::BTreeMap;

// ---- text: an independent writer of every layout

fn blanks(o: &mut String, n: usize) {
    for _ in 0..n {
        o.push(' ');
    }
}
/// What a value without elements looks like.
fn plain(o: &mut String, k: &Kserd, shown: bool) {
    match (&k.val, k.id()) {
        (Value::Unit, Some(i)) => o.push_str(i),
        (Value::Unit, None) => {}
        (_, Some(i)) if shown => {
            o.push('<');
            o.push_str(i);
            o.push_str("> ");
        }
        _ => {}
    }
    match &k.val {
        Value::Unit => o.push_str("()"),
        Value::Bool(x) => o.push_str(if *x { "true" } else { "false" }),
        Value::Num(Number::Uint(x)) if *x < 10 => o.push((b'0' + *x as u8) as char),
        Value::Num(Number::Uint(x)) => o.push_str(&x.to_string()),
        Value::Num(Number::Int(x)) => o.push_str(&x.to_string()),
        Value::Str(s) => {
            o.push('"');
            o.push_str(s.as_str());
            o.push('"');
        }
        x => o.push_str(&Kserd::new(x.clone()).as_str()),
    }
}
/// Writes the node whose settings are at `n`; the settings follow in the order of writing.
fn write(o: &mut String, k: &Kserd, f: &[Fmt], n: &mut usize, col: usize) {
    let me = f[*n];
    let id = if me.id { k.id() } else { None };
    let (open, close, len) = match &k.val {
        Value::Tuple(x) => ("(", ")", x.len()),
        Value::Cntr(x) => {
            if me.line == Repr::Verbose {
                if let Some(i) = id {
                    blanks(o, col);
                    o.push(':');
                    o.push_str(i);
                    o.push('\n');
                }
                return spread(o, k, f, n, col);
            }
            ("(", ")", x.len())
        }
        Value::Seq(x) => ("[", "]", x.len()),
        Value::Map(x) => ("{", "}", x.len()),
        _ => {
            *n += 1;
            return plain(o, k, me.id);
        }
    };
    *n += 1;
    if let Some(i) = id {
        o.push_str(i);
        if !matches!(k.val, Value::Tuple(_)) {
            o.push(' ');
        }
    }
    o.push_str(open);
    let lines = me.line != Repr::Inline;
    let pad = !lines && matches!(k.val, Value::Map(_)) && len > 0;
    if lines {
        o.push('\n');
    } else if pad {
        o.push(' ');
    }
    let c = if lines { col + 4 } else { col };
    for i in 0..len {
        if lines {
            blanks(o, c);
        }
        match &k.val {
            Value::Tuple(x) | Value::Seq(x) => write(o, &x[i], f, n, c),
            Value::Cntr(x) => {
                let (a, v) = x.iter().nth(i).unwrap();
                field(o, a, v, f, n, c);
            }
            Value::Map(x) => {
                let (a, v) = x.iter().nth(i).unwrap();
                entry(o, a, v, f, n, c);
            }
            _ => {}
        }
        if lines {
            o.push('\n');
        } else if i + 1 < len {
            o.push_str(", ");
        }
    }
    if lines {
        blanks(o, col);
    } else if pad {
        o.push(' ');
    }
    o.push_str(close);
}
fn field(o: &mut String, a: &str, v: &Kserd, f: &[Fmt], n: &mut usize, c: usize) {
    o.push_str(a);
    o.push_str(" = ");
    write(o, v, f, n, c + a.chars().count() + 3);
}
fn entry(o: &mut String, a: &Kserd, v: &Kserd, f: &[Fmt], n: &mut usize, c: usize) {
    let (from, one) = (o.len(), f[*n].line == Repr::Inline);
    write(o, a, f, n, c);
    o.push_str(": ");
    let w = if one { o[from..].chars().count() } else { 3 };
    write(o, v, f, n, c + w);
}
/// The fields of a spread-out container.
fn spread(o: &mut String, k: &Kserd, f: &[Fmt], n: &mut usize, col: usize) {
    *n += 1;
    let x = match &k.val {
        Value::Cntr(x) => x,
        _ => return,
    };
    let head = |o: &mut String, l: &str, a: &str, k: &Kserd, shown: bool, r: &str| {
        blanks(o, col);
        o.push_str(l);
        o.push_str(a);
        if let (true, Some(i)) = (shown, k.id()) {
            o.push(':');
            o.push_str(i);
        }
        o.push_str(r);
        o.push('\n');
    };
    for (a, v) in x {
        let me = f[*n];
        match &v.val {
            Value::Cntr(_) if me.line == Repr::Verbose => {
                o.push('\n');
                head(o, "[", a, v, me.id, "]");
                spread(o, v, f, n, col + 4);
            }
            Value::Seq(s) if me.line == Repr::Verbose => {
                *n += 1;
                for (i, e) in s.iter().enumerate() {
                    // a blank line before every element
                    o.push('\n');
                    head(o, "[[", a, v, me.id, "]]");
                    if f[*n].line == Repr::Verbose {
                        write(o, e, f, n, col + 4);
                    } else {
                        blanks(o, col);
                        write(o, e, f, n, col);
                        o.push('\n');
                    }
                    let _ = i;
                }
            }
            Value::Map(m) if me.line == Repr::Verbose => {
                *n += 1;
                o.push('\n');
                for (b, e) in m {
                    head(o, "[[", a, v, me.id, "]]");
                    blanks(o, col);
                    // settings of the value follow those of the key
                    let at = *n + size(b);
                    if f[at].line == Repr::Verbose {
                        write(o, b, f, n, col);
                        o.push_str(":\n");
                        write(o, e, f, n, col + 4);
                    } else {
                        entry(o, b, e, f, n, col);
                    }
                    o.push('\n');
                }
            }
            _ => {
                blanks(o, col);
                field(o, a, v, f, n, col);
                o.push('\n');
            }
        }
    }
}
fn size(k: &Kserd) -> usize {
    1 + match &k.val {
        Value::Tuple(x) | Value::Seq(x) => x.iter().map(size).sum(),
        Value::Cntr(x) => x.values().map(size).sum(),
        Value::Map(x) => x.iter().map(|(a, b)| size(a) + size(b)).sum::<usize>(),
        _ => 0,
    }
}
fn looks(k: &Kserd, f: &Formatter) {
    let got = f.write_string(String::new());
    let (mut want, mut n) = (String::new(), 0);
    write(&mut want, k, f.fmts(), &mut n, 0);
    show(k, &got);
    show(k, &want);
    observe_text(&got);
    check(n == f.fmts().len(), 180);
    check(got.as_bytes() == want.as_bytes(), 181);
    cover(1);
    if got.contains('\n') {
        cover(2);
    }
    std::mem::forget((got, want));
}
/// Text under every configuration. Parameters as for trees.
pub fn text() {
    let mut k = gen::by_params();
    gen::vary(&mut k);
    let mut f = Formatter::new(&k);
    f.apply_config(config());
    looks(&k, &f);
    std::mem::forget(f);
    std::mem::forget(k);
}
/// Text after requests; parameter 2: how many.
pub fn text_req() {
    let mut k = gen::by_params();
    gen::vary(&mut k);
    let mut f = Formatter::new(&k);
    let n = f.len();
    for _ in 0..param(2) {
        let i = choice(n);
        let _ = match choice(4) {
            0 => f.inline(i),
            1 => f.concise(i),
            2 => f.verbose(i),
            _ => f.id(i, false),
        };
    }
    looks(&k, &f);
    std::mem::forget(f);
    std::mem::forget(k);
}

/// Every way of writing with one configuration gives one text.
pub fn ways() {
    let mut k = gen::by_params();
    gen::vary(&mut k);
    let d = FormattingConfig::default();
    check(!d.id_on_primitives & d.id_on_tuples & d.id_on_containers & !d.id_on_seqs & !d.id_on_maps, 190);
    check(d.width_limit == Some(60), 190);
    let a = k.as_str();
    check(a == k.as_str_with_config(FormattingConfig {
        id_on_primitives: false,
        id_on_tuples: true,
        id_on_containers: true,
        id_on_seqs: false,
        id_on_maps: false,
        width_limit: Some(60),
    }), 191);
    check(a == k.to_string(), 191);
    let c = config();
    let t = k.as_str_with_config(c);
    let mut f = Formatter::new(&k);
    f.apply_config(c);
    let before = f.fmts().to_vec();
    let u = f.write_string(String::new());
    check(t == u, 192);
    let mut p = String::from("[a], ");
    p.push_str(&ascii(1));
    let all = p.clone() + &u;
    check(f.write_string(p) == all, 193);
    check(f.write_string(String::new()) == u, 194);
    check(f.fmts() == &before[..], 194);
    f.apply_config(c);
    check(f.fmts() == &before[..], 195);
    cover(1);
    std::mem::forget(f);
    std::mem::forget((k, a, t, u, all));
}

// ---- data made by encoding

fn id(i: &str, v: Value<'static>) -> Kserd<'static> {
    Kserd { id: Some(Kstr::owned(i.to_string())), val: v }
}
fn bare(v: Value<'static>) -> Kserd<'static> {
    Kserd { id: None, val: v }
}
fn uint(i: &str, x: u128) -> Kserd<'static> {
    id(i, Value::Num(Number::Uint(x)))
}
fn int(i: &str, x: i128) -> Kserd<'static> {
    id(i, Value::Num(Number::Int(x)))
}
fn b(x: u8) -> Kserd<'static> {
    uint("u8", x as u128)
}
fn tup(v: Vec<Kserd<'static>>) -> Value<'static> {
    Value::Tuple(v)
}
fn fields(v: Vec<(&'static str, Kserd<'static>)>) -> Value<'static> {
    Value::Cntr(v.into_iter().map(|(n, v)| (Kstr::brwed(n), v)).collect())
}
fn owned(k: &Kserd) -> bool {
    let s = |s: &Kstr| matches!(s.inner, std::borrow::Cow::Owned(_));
    match &k.val {
        Value::Str(x) => s(x),
        Value::Barr(x) => matches!(x.inner, std::borrow::Cow::Owned(_)),
        _ => true,
    }
}
fn encodes<T: Serialize>(x: T, want: Kserd<'static>) {
    match Kserd::enc(&x) {
        Ok(k) => {
            check(exact(&k, &want), 200);
            check(owned(&k), 200);
            std::mem::forget(k);
        }
        Err(_) => check(false, 201),
    }
    cover(1);
    std::mem::forget((x, want));
}
#[derive(Clone, Copy, Serialize)]
struct Empty;
#[derive(Serialize)]
struct Hollow {}
#[derive(Clone, Copy, Serialize)]
struct New<T>(T);
#[derive(Clone, Copy, Serialize)]
struct Pair(u8, bool);
#[derive(Serialize)]
struct Named {
    b: u8,
    a: Option<i8>,
}
#[derive(Serialize)]
enum E {
    U,
    N(u8),
    T(u8, i8),
    S { y: u8, x: () },
    Z {},
    W(),
}
#[derive(Serialize)]
#[serde(rename = "no name")]
struct Odd;
#[derive(Serialize)]
#[serde(rename = "no=name")]
struct OddFields {
    a: u8,
}
#[derive(Serialize)]
#[serde(rename = "no(name")]
struct OddTuple(u8, u8);
#[derive(Serialize)]
#[serde(rename = "no.name")]
struct OddNew(u8);
#[derive(Serialize)]
enum OddVariants {
    #[serde(rename = "a b")]
    A,
    #[serde(rename = "a/b")]
    B(u8),
    #[serde(rename = "a,b")]
    C(u8, u8),
    #[serde(rename = "<")]
    D { x: u8 },
}
#[derive(Clone, Copy, Serialize)]
enum Any<T> {
    N(T),
    T(u8, T),
    S { x: T },
}
#[derive(Clone, Copy, Serialize)]
struct Has<T> {
    f: T,
}
#[derive(Serialize)]
struct Both<T>(u8, T);
/// A value inside every other.
fn inside<T: Serialize + Copy>(t: T, w: impl Fn() -> Kserd<'static>) {
    encodes(t, w());
    encodes(Some(t), id("Some", tup(vec![w()])));
    encodes(New(t), id("New", tup(vec![w()])));
    encodes(Both(3, t), id("Both", tup(vec![b(3), w()])));
    encodes(Has { f: t }, id("Has", fields(vec![("f", w())])));
    encodes(Any::N(t), id("N", tup(vec![w()])));
    encodes(Any::T(3, t), id("T", tup(vec![b(3), w()])));
    encodes(Any::S { x: t }, id("S", fields(vec![("x", w())])));
    encodes((t,), bare(tup(vec![w()])));
    encodes((t, 3u8), bare(tup(vec![w(), b(3)])));
    encodes([t], bare(tup(vec![w()])));
    encodes(&[t, t][..], bare(Value::Seq(vec![w(), w()])));
    encodes(BTreeMap::from([(3u8, t)]), bare(Value::Map(BTreeMap::from([(b(3), w())]))));
    encodes(One(t), bare(Value::Map(BTreeMap::from([(w(), b(3))]))));
}
/// A map with a key which need not be ordered.
struct One<T>(T);
impl<T: Serialize> Serialize for One<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(&self.0, &3u8)?;
        m.end()
    }
}
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct Shown(String);
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Serialize for Shown {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&self)
    }
}
/// A map put in piece by piece; a value may come without its key.
struct Steps(Vec<(u8, u8)>, bool);
impl Serialize for Steps {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        for (a, b) in &self.0 {
            m.serialize_key(a)?;
            m.serialize_value(b)?;
        }
        if self.1 {
            m.serialize_value(&())?;
        }
        m.end()
    }
}
struct Fails;
impl Serialize for Fails {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("told so"))
    }
}
struct Says(String);
impl Serialize for Says {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom(&self.0))
    }
}
fn refused<T: Serialize>(x: T, says: &str) {
    match Kserd::enc(&x) {
        Ok(_) => check(false, 202),
        Err(e) => check(e.to_string().contains(says), 203),
    }
    cover(1);
}
/// What each form of Rust value becomes: parameter 0.
pub fn encode() {
    let (x, y) = (byte(), byte());
    match param(0) {
        0 => encodes((), bare(Value::Unit)),
        1 => {
            let x = any_bool();
            encodes(x, id("bool", Value::Bool(x)))
        }
        2 => {
            encodes(x, b(x));
            encodes(x as i8, int("i8", x as i8 as i128));
        }
        3 => {
            let x = u16();
            encodes(x, uint("u16", x as u128));
            encodes(x as i16, int("i16", x as i16 as i128));
        }
        4 => {
            let x = u32();
            encodes(x, uint("u32", x as u128));
            encodes(x as i32, int("i32", x as i32 as i128));
        }
        5 => {
            let x = u64();
            encodes(x, uint("u64", x as u128));
            encodes(x as i64, int("i64", x as i64 as i128));
        }
        6 => {
            let x = u128();
            encodes(x, uint("u128", x));
            encodes(x as i128, int("i128", x as i128));
        }
        7 => {
            let x = f64();
            encodes(x, id("f64", Value::Num(Number::Float(x))))
        }
        8 => {
            let s = if flag() { ascii(1) } else { wide2() };
            encodes(s.chars().next().unwrap(), id("char", Value::new_string(s)))
        }
        9 => {
            let s = ascii(choice(4));
            encodes(s.as_str(), id("str", Value::new_string(s.clone())));
            encodes(Shown(s.clone()), id("str", Value::new_string(s.clone())));
            encodes(Bytes(s.clone().into_bytes()), id("barr", Value::new_barrv(s.into_bytes())));
        }
        10 => {
            encodes(None as Option<u8>, id("None", tup(vec![])));
            encodes(Some(x), id("Some", tup(vec![b(x)])));
            encodes(Some(Some(())), id("Some", tup(vec![id("Some", tup(vec![bare(Value::Unit)]))])));
        }
        11 => {
            encodes((x,), bare(tup(vec![b(x)])));
            encodes((x, (), y), bare(tup(vec![b(x), bare(Value::Unit), b(y)])));
            encodes([x, y], bare(tup(vec![b(x), b(y)])));
        }
        12 if param(1) > 0 => {
            let v: Vec<u8> = (0..param(1)).map(|i| if i + 1 == param(1) { x } else { 9 }).collect();
            let want = v.iter().map(|x| b(*x)).collect();
            encodes(Bytes(v.clone()), id("barr", Value::new_barrv(v.clone())));
            encodes(&v, bare(Value::Seq(want)));
            let m: BTreeMap<u16, u8> = v.iter().enumerate().map(|(i, x)| (i as u16, *x)).collect();
            let want = m.iter().map(|(k, v)| (uint("u16", *k as u128), b(*v))).collect();
            encodes(m, bare(Value::Map(want)));
            let s = "é".repeat(param(1)) + &ascii(1);
            encodes(s.as_str(), id("str", Value::new_string(s.clone())));
        }
        12 => {
            let n = choice(4);
            let v: Vec<u8> = (0..n).map(|_| byte()).collect();
            let want = v.iter().map(|x| b(*x)).collect();
            encodes(v, bare(Value::Seq(want)))
        }
        13 => {
            let m: BTreeMap<u8, u8> = (0..choice(3)).map(|_| (byte(), byte())).collect();
            let want = m.iter().map(|(p, q)| (b(*p), b(*q))).collect();
            encodes(m, bare(Value::Map(want)))
        }
        14 => {
            encodes(Empty, id("Empty", tup(vec![])));
            encodes(Hollow {}, id("Hollow", fields(vec![])));
            encodes(New(x), id("New", tup(vec![b(x)])));
            encodes(New(New(())), id("New", tup(vec![id("New", tup(vec![bare(Value::Unit)]))])));
            encodes(Pair(x, true), id("Pair", tup(vec![b(x), id("bool", Value::Bool(true))])));
        }
        15 => {
            let a = if flag() { Some(y as i8) } else { None };
            let want = if a.is_some() { id("Some", tup(vec![int("i8", y as i8 as i128)])) } else { id("None", tup(vec![])) };
            encodes(Named { b: x, a }, id("Named", fields(vec![("a", want), ("b", b(x))])))
        }
        16 => match choice(6) {
            0 => encodes(E::U, id("U", tup(vec![]))),
            1 => encodes(E::N(x), id("N", tup(vec![b(x)]))),
            2 => encodes(E::T(x, y as i8), id("T", tup(vec![b(x), int("i8", y as i8 as i128)]))),
            3 => encodes(E::S { y: x, x: () }, id("S", fields(vec![("x", bare(Value::Unit)), ("y", b(x))]))),
            4 => encodes(E::Z {}, id("Z", fields(vec![]))),
            _ => encodes(E::W(), id("W", tup(vec![]))),
        },
        17 => {
            let v: Vec<(u8, u8)> = (0..choice(3)).map(|_| (byte(), byte())).collect();
            let m: BTreeMap<u8, u8> = v.iter().cloned().collect();
            let want = m.iter().map(|(p, q)| (b(*p), b(*q))).collect();
            encodes(Steps(v, false), bare(Value::Map(want)))
        }
        18 if param(1) > 0 => {
            // any message
            let s = "reason ".repeat(param(1) - 1) + &ascii(2);
            refused(Says(s.clone()), &s);
            refused((x, Says(s.clone())), &s);
        }
        18 => {
            let n = choice(2);
            refused(Steps(vec![(x, y); n], true), "key");
            refused(Fails, "told so");
            refused(vec![Fails], "told so");
            refused((x, Fails), "told so");
            refused(Some(Fails), "told so");
            refused(New(Fails), "told so");
            refused(BTreeMap::from([(x, Fails)]), "told so");
        }
        19 => {
            refused(Odd, "no name");
            refused(OddFields { a: x }, "no=name");
            refused(OddTuple(x, y), "no(name");
            refused(OddNew(x), "no.name");
            refused(OddVariants::A, "a b");
            refused(OddVariants::B(x), "a/b");
            refused(OddVariants::C(x, y), "a,b");
            refused(OddVariants::D { x }, "<");
            refused(vec![OddNew(x)], "no.name");
        }
        21 => inside(x, || b(x)),
        22 => inside((), || bare(Value::Unit)),
        23 => inside((x, y), || bare(tup(vec![b(x), b(y)]))),
        24 => {
            let n = choice(3);
            inside(&[x, y][..n], || bare(Value::Seq([x, y][..n].iter().map(|x| b(*x)).collect())))
        }
        25 => inside(Some(x), || id("Some", tup(vec![b(x)]))),
        26 => inside(None as Option<()>, || id("None", tup(vec![]))),
        27 => inside(New(x), || id("New", tup(vec![b(x)]))),
        28 => inside(Has { f: x }, || id("Has", fields(vec![("f", b(x))]))),
        29 => inside(Any::T(x, y), || id("T", tup(vec![b(x), b(y)]))),
        30 => inside(Any::S { x }, || id("S", fields(vec![("x", b(x))]))),
        31 => inside(Empty, || id("Empty", tup(vec![]))),
        32 => inside("a", || id("str", Value::new_string("a".to_string()))),
        33 => inside(Any::N(Any::N(x)), || id("N", tup(vec![id("N", tup(vec![b(x)]))]))),
        _ => {
            // one in another
            let v = vec![Named { b: x, a: None }];
            let inner = id("Named", fields(vec![("a", id("None", tup(vec![]))), ("b", b(x))]));
            encodes(New((v, E::T(y, 1))), id("New", tup(vec![bare(tup(vec![bare(Value::Seq(vec![inner])), id("T", tup(vec![b(y), int("i8", 1)]))]))])))
        }
    }
}
/// The same for single-precision numbers: a byte (place: parameter 1) of a pattern (parameter 0).
pub fn encode_single() {
    let p = [1.5f32, -0.1, 1e30, 1e-40, 3.4e38][param(0)].to_bits();
    let s = 8 * param(1) as u32;
    let x = f32::from_bits((p & !(0xff << s)) | ((byte() as u32) << s));
    match Kserd::enc(&x) {
        Ok(k) => {
            check(k.id() == Some("f32") && matches!(k.val, Value::Num(Number::Float(_))), 200);
            match k.decode::<f32>() {
                Ok(y) => check(x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()), 131),
                Err(_) => check(false, 132),
            }
        }
        Err(_) => check(false, 130),
    }
    cover(1);
}

// ---- data made by the constructors

fn made(k: Kserd, want: Kserd) {
    check(exact(&k, &want), 210);
    cover(1);
    std::mem::forget((k, want));
}
pub fn construct() {
    let n = choice(3);
    match param(0) {
        0 => made(Kserd::new_unit(), bare(Value::Unit)),
        1 => {
            let x = any_bool();
            made(Kserd::new_bool(x), id("bool", Value::Bool(x)));
        }
        2 => {
            let x = u128();
            made(Kserd::new_num(x), uint("u128", x));
            made(Kserd::new_num(x as u64), uint("u64", x as u64 as u128));
            made(Kserd::new_num(x as usize), uint("usize", x as u64 as u128));
            made(Kserd::new_num(x as u32), uint("u32", x as u32 as u128));
            made(Kserd::new_num(x as u16), uint("u16", x as u16 as u128));
            made(Kserd::new_num(x as u8), uint("u8", x as u8 as u128));
            made(bare(Value::new_num(x)), bare(Value::Num(Number::Uint(x))));
        }
        3 => {
            let x = u128() as i128;
            made(Kserd::new_num(x), int("i128", x));
            made(Kserd::new_num(x as i64), int("i64", x as i64 as i128));
            made(Kserd::new_num(x as isize), int("isize", x as i64 as i128));
            made(Kserd::new_num(x as i32), int("i32", x as i32 as i128));
            made(Kserd::new_num(x as i16), int("i16", x as i16 as i128));
            made(Kserd::new_num(x as i8), int("i8", x as i8 as i128));
            made(bare(Value::new_num(x)), bare(Value::Num(Number::Int(x))));
        }
        4 => {
            let x = f64();
            made(Kserd::new_num(x), id("f64", Value::Num(Number::Float(x))));
            made(Kserd::new_num(1.5f32), id("f32", Value::Num(Number::Float(1.5))));
        }
        9 => {
            // many of them
            let x = byte();
            let at = |i: usize| if i == 299 { x } else { 9 };
            let v: Vec<(String, Kserd)> = (0..300).map(|i| (format!("f{}", i), b(at(i)))).collect();
            let m = v.iter().map(|(n, k)| (Kstr::owned(n.clone()), k.clone())).collect();
            made(Kserd::new_cntr(v).unwrap(), bare(Value::Cntr(m)));
            let v: Vec<(Kserd, Kserd)> = (0..300).map(|i| (uint("u16", i as u128), b(at(i)))).collect();
            let m = v.iter().cloned().collect();
            made(Kserd::new_map(v), bare(Value::Map(m)));
            let s = "0123456789".repeat(30) + &ascii(1);
            made(Kserd::new_string(s.clone()), id("String", Value::Str(Kstr::owned(s.clone()))));
            made(Kserd::new_barrv(s.clone().into_bytes()), id("ByteVec", Value::Barr(Barr::owned(s.into_bytes()))));
        }
        5 => {
            let s = ascii(n);
            let v = Value::new_string(s.clone());
            check(matches!(&v, Value::Str(x) if matches!(x.inner, std::borrow::Cow::Owned(_))), 211);
            made(Kserd::new_string(s.clone()), id("String", v));
            let k = Kserd::new_str(&s);
            check(k.str().map(|x| std::ptr::eq(x.as_ptr(), s.as_ptr())) == Some(true), 211);
            made(k, id("str", Value::Str(Kstr::owned(s.clone()))));
            made(Kserd::new(Value::new_str(&s)), bare(Value::Str(Kstr::owned(s.clone()))));
        }
        6 => {
            let s = ascii(n).into_bytes();
            let v = Value::new_barrv(s.clone());
            check(matches!(&v, Value::Barr(x) if matches!(x.inner, std::borrow::Cow::Owned(_))), 211);
            made(Kserd::new_barrv(s.clone()), id("ByteVec", v));
            let k = Kserd::new_barr(&s);
            check(k.barr().map(|x| std::ptr::eq(x.as_ptr(), s.as_ptr())) == Some(true), 211);
            made(k, id("barr", Value::Barr(Barr::owned(s.clone()))));
            made(Kserd::new(Value::new_barr(&s)), bare(Value::Barr(Barr::owned(s.clone()))));
        }
        7 => {
            // later fields replace earlier ones of the same name
            const N: [&str; 3] = ["q", "a", "q"];
            let v: Vec<(&str, Kserd)> = (0..choice(4)).map(|i| (N[i], b(byte()))).collect();
            let mut m = BTreeMap::new();
            for (n, k) in &v {
                m.insert(Kstr::brwed(n), k.clone());
            }
            made(Kserd::new_cntr(v.clone()).unwrap(), bare(Value::Cntr(m.clone())));
            made(id("A", Value::new_cntr(v).unwrap()), id("A", Value::Cntr(m)));
        }
        _ => {
            let v: Vec<(u8, u8)> = (0..n).map(|_| (byte(), byte())).collect();
            let m: BTreeMap<u8, u8> = v.iter().cloned().collect();
            let all = || v.iter().map(|(p, q)| (b(*p), b(*q)));
            let want = Value::Map(m.iter().map(|(p, q)| (b(*p), b(*q))).collect());
            made(Kserd::new_map(all()), bare(want.clone()));
            made(id("A", Value::new_map(all())), id("A", want));
        }
    }
}

// ---- where nested values are split

/// Width of a value written on one line.
fn one_line(k: &Kserd, f: &[Fmt], n: usize) -> usize {
    let mut at = n;
    let mut o = String::new();
    let g: Vec<Fmt> = f.iter().map(|x| Fmt { line: Repr::Inline, ..*x }).collect();
    write(&mut o, k, &g, &mut at, 0);
    let w = o.chars().count();
    std::mem::forget((o, g));
    w
}
struct Fits<'a> {
    f: &'a [Fmt],
    most: &'a [Repr],
    limit: usize,
}
impl<'a> Fits<'a> {
    /// A value which begins at `col` unless it is spread out, which puts its fields at `inner`;
    /// `listed`: as an element of a list.
    fn value(&self, k: &Kserd, n: &mut usize, over: Repr, col: usize, inner: usize, listed: bool) {
        let me = self.f[*n];
        let wide = col + one_line(k, self.f, *n) > self.limit;
        if me.line == Repr::Inline {
            check(!wide || self.most[*n] == Repr::Inline, 24);
        } else {
            cover(2);
            check(wide, 25);
        }
        *n += 1;
        if me.line == Repr::Inline {
            *n += size(k) - 1;
            return;
        }
        let brackets = me.line == Repr::Concise;
        // what is in brackets in a spread-out container, or spread out in a list, is not placed exactly
        if (brackets && over == Repr::Verbose) || (!brackets && listed) {
            *n += size(k) - 1;
            return;
        }
        let over = me.line;
        let c = if brackets { col + 4 } else { inner };
        match &k.val {
            Value::Tuple(x) | Value::Seq(x) => {
                for e in x {
                    self.value(e, n, over, c, c + 4, true);
                }
            }
            Value::Cntr(x) => {
                for (a, e) in x {
                    let inner = match e.val {
                        Value::Cntr(_) => c + 4,
                        _ => c,
                    };
                    self.value(e, n, over, c + a.chars().count() + 3, inner, false);
                }
            }
            Value::Map(x) => {
                for (a, e) in x {
                    let at = *n;
                    self.value(a, n, over, c, c, false);
                    let w = if self.f[at].line == Repr::Inline { one_line(a, self.f, at) } else { 1 };
                    self.value(e, n, over, c + w + 2, c + 4, false);
                }
            }
            _ => {}
        }
    }
}
/// Nested values are split when they do not fit and only then. Parameters as for trees.
pub fn nested() {
    let mut k = gen::by_params();
    gen::vary(&mut k);
    let mut cfg = config();
    let w = u16();
    cfg.width_limit = Some(w);
    let mut f = Formatter::new(&k);
    f.apply_config(cfg);
    let most: Vec<Repr> = f.nodes().map(|n| super::fmt_rt::most(&n)).collect();
    cover(1);
    if cfg!(not(kse)) && std::env::var_os("KSE_SHOW").is_some() {
        eprintln!("limit {}", w);
    }
    show(&k, &f.write_string(String::new()));
    // in brackets if that is narrow enough
    let root = f.fmts()[0].line;
    if matches!(k.val, Value::Cntr(_)) && root != Repr::Inline {
        let mut g: Vec<Fmt> = f.fmts().iter().zip(&most).map(|(x, m)| Fmt { line: (*m).min(Repr::Concise), ..*x }).collect();
        for n in f.nodes() {
            let mut at = Some(n);
            while let Some(x) = at {
                if x.is_key() {
                    g[n.index()].line = Repr::Inline;
                }
                at = x.parent();
            }
        }
        let mut o = String::new();
        write(&mut o, &k, &g, &mut 0, 0);
        let widest = o.lines().map(|l| l.chars().count()).max().unwrap_or(0);
        check((root == Repr::Concise) == (widest <= w as usize), 27);
        std::mem::forget((g, o));
    }
    let fits = Fits { f: f.fmts(), most: &most, limit: w as usize };
    fits.value(&k, &mut 0, Repr::Concise, 0, 0, false);
    if w == 0 {
        // as spread out as can be
        cover(3);
        for n in f.nodes() {
            let over = n.parent().map_or(Repr::Verbose, |p| f.fmts()[p.index()].line);
            check(f.fmts()[n.index()].line == most[n.index()].min(over), 26);
        }
    }
    std::mem::forget(most);
    std::mem::forget(f);
    std::mem::forget(k);
}
