//! Conversion of Rust values into data by value.
use super::sym::*;
use super::vals::exact;
use kserd::*;

fn named(id: &str, v: Value<'static>) -> Kserd<'static> {
    Kserd::with_id(id.to_string(), v).unwrap()
}
fn is(got: Result<Kserd, ToKserdErr>, want: Kserd) {
    match got {
        Ok(k) => {
            check(exact(&k, &want), 150);
            cover(1);
            std::mem::forget(k);
        }
        Err(_) => check(false, 151),
    }
    std::mem::forget(want);
}
fn num(id: &str, n: Number) -> Kserd<'static> {
    named(id, Value::Num(n))
}
fn text(s: &str) -> Kserd<'static> {
    named("String", Value::Str(Kstr::owned(s.to_string())))
}
fn tuple(v: Vec<Kserd<'static>>) -> Kserd<'static> {
    Kserd::new(Value::Tuple(v))
}
fn b(x: u8) -> Kserd<'static> {
    num("u8", Number::Uint(x as u128))
}
/// Primitives, strings, options, results, boxes and lists: parameter 0.
pub fn single() {
    match param(0) {
        0 => {
            let x = byte();
            is(x.into_kserd(), num("u8", Number::Uint(x as u128)))
        }
        1 => {
            let x = u16();
            is(x.into_kserd(), num("u16", Number::Uint(x as u128)))
        }
        2 => {
            let x = u32();
            is(x.into_kserd(), num("u32", Number::Uint(x as u128)))
        }
        3 => {
            let x = u64();
            is(x.into_kserd(), num("u64", Number::Uint(x as u128)))
        }
        4 => {
            let x = u128();
            is(x.into_kserd(), num("u128", Number::Uint(x)))
        }
        5 => {
            let x = u64() as usize;
            is(x.into_kserd(), num("usize", Number::Uint(x as u128)))
        }
        6 => {
            let x = byte() as i8;
            is(x.into_kserd(), num("i8", Number::Int(x as i128)))
        }
        7 => {
            let x = u16() as i16;
            is(x.into_kserd(), num("i16", Number::Int(x as i128)))
        }
        8 => {
            let x = u32() as i32;
            is(x.into_kserd(), num("i32", Number::Int(x as i128)))
        }
        9 => {
            let x = u64() as i64;
            is(x.into_kserd(), num("i64", Number::Int(x as i128)))
        }
        10 => {
            let x = u128() as i128;
            is(x.into_kserd(), num("i128", Number::Int(x)))
        }
        11 => {
            let x = u64() as isize;
            is(x.into_kserd(), num("isize", Number::Int(x as i128)))
        }
        12 => {
            let x = f64();
            is(x.into_kserd(), num("f64", Number::Float(x)))
        }
        13 => is(().into_kserd(), Kserd::new(Value::Unit)),
        14 => {
            let x = any_bool();
            is(x.into_kserd(), named("bool", Value::Bool(x)))
        }
        15 => {
            let s = if flag() { ascii(1) } else { wide2() };
            is(s.chars().next().unwrap().into_kserd(), named("char", Value::Str(Kstr::owned(s))))
        }
        16 => {
            let s = ascii(choice(4));
            is(s.clone().into_kserd(), text(&s));
            let k = s.as_str().into_kserd();
            let same = match &k {
                Ok(Kserd { id: Some(i), val: Value::Str(t) }) => i.as_str() == "str" && std::ptr::eq(t.as_str().as_ptr(), s.as_ptr()) && t.len() == s.len(),
                _ => false,
            };
            check(same, 152);
        }
        17 => {
            let x = byte();
            is(Box::new(x).into_kserd(), b(x));
            is(Box::new(Some(x)).into_kserd(), b(x));
            is(Some(x).into_kserd(), b(x));
            is(Some(Box::new(x)).into_kserd(), b(x));
            is(Some(Some(x)).into_kserd(), b(x));
        }
        18 => is((None as Option<u8>).into_kserd(), named("None", Value::Tuple(vec![]))),
        19 => {
            let x = byte();
            let s = ascii(1);
            is((Ok(x) as Result<u8, String>).into_kserd(), named("Ok", Value::Tuple(vec![b(x)])));
            is((Err(s.clone()) as Result<u8, String>).into_kserd(), named("Err", Value::Tuple(vec![text(&s)])));
        }
        20 => {
            let x: Vec<u8> = (0..choice(4)).map(|_| byte()).collect();
            let want = x.iter().map(|x| b(*x)).collect();
            is(x.into_kserd(), named("Vec", Value::Seq(want)))
        }
        21 => {
            let (x, y, n) = (byte(), byte(), choice(3));
            let v: Vec<(u8, Vec<u8>)> = (0..n).map(|_| (x, vec![y; n])).collect();
            let want = (0..n).map(|_| tuple(vec![b(x), named("Vec", Value::Seq(vec![b(y); n]))])).collect();
            is(v.into_kserd(), named("Vec", Value::Seq(want)))
        }
        23 => {
            // many elements, a long text
            let mut x = vec![9u8; 300];
            x[[0, 150, 299][choice(3)]] = byte();
            let want = x.iter().map(|x| b(*x)).collect();
            is(x.into_kserd(), named("Vec", Value::Seq(want)));
            let s = "0123456789".repeat(30) + &ascii(1);
            is(s.clone().into_kserd(), text(&s));
        }
        24 => {
            let x = f32::from_bits(0x3fc0_0000 | byte() as u32);
            match x.into_kserd() {
                Ok(k) => {
                    check(k.id() == Some("f32") && matches!(k.val, Value::Num(Number::Float(_))), 150);
                    check(k.decode::<f32>().ok() == Some(x), 153);
                }
                Err(_) => check(false, 151),
            }
            cover(1)
        }
        22 => {
            let (x, y) = (byte(), any_bool());
            let v = vec![if y { Ok(x) } else { Err(()) }, Err(())];
            let e = named("Err", Value::Tuple(vec![Kserd::new(Value::Unit)]));
            let o = named("Ok", Value::Tuple(vec![b(x)]));
            is(v.into_kserd(), named("Vec", Value::Seq(vec![if y { o } else { e.clone() }, e])))
        }
        _ => {
            let k = named("Keep", Value::Tuple(vec![b(byte()), Kserd::new(Value::Unit)]));
            is(k.clone().into_kserd(), k.clone());
            is(vec![Some(k.clone())].into_kserd(), named("Vec", Value::Seq(vec![k])))
        }
    }
}
/// Tuples of every size: elements of different types in order.
pub fn tuples() {
    let a: [u8; 12] = arr();
    macro_rules! go {
        ($($i:tt)*) => { is(($(pick!($i, a[$i]),)*).into_kserd(), tuple(vec![$(want!($i, a[$i])),*])) };
    }
    macro_rules! pick {
        (1, $x:expr) => { $x as i8 };
        (3, $x:expr) => { Some($x) };
        (5, $x:expr) => { ($x, ()) };
        (8, $x:expr) => { Box::new($x) };
        ($i:tt, $x:expr) => { $x };
    }
    macro_rules! want {
        (1, $x:expr) => { num("i8", Number::Int($x as i8 as i128)) };
        (5, $x:expr) => { tuple(vec![b($x), Kserd::new(Value::Unit)]) };
        ($i:tt, $x:expr) => { b($x) };
    }
    match param(0) {
        1 => go!(0),
        2 => go!(0 1),
        3 => go!(0 1 2),
        4 => go!(0 1 2 3),
        5 => go!(0 1 2 3 4),
        6 => go!(0 1 2 3 4 5),
        7 => go!(0 1 2 3 4 5 6),
        8 => go!(0 1 2 3 4 5 6 7),
        9 => go!(0 1 2 3 4 5 6 7 8),
        10 => go!(0 1 2 3 4 5 6 7 8 9),
        11 => go!(0 1 2 3 4 5 6 7 8 9 10),
        _ => go!(0 1 2 3 4 5 6 7 8 9 10 11),
    }
}
/// Arrays of every size.
pub fn arrays() {
    macro_rules! go {
        ($($n:tt)*) => { match param(0) {
            $($n => {
                let a: [u8; $n] = arr();
                is(a.into_kserd(), named("array", Value::Seq(a.iter().map(|x| b(*x)).collect())));
                // and what comes out decodes to what went in
                match a.into_kserd().map(|k| k.decode::<Vec<u8>>()) {
                    Ok(Ok(v)) => check(v == a, 153),
                    _ => check(false, 153),
                }
            })*
            _ => unreachable!(),
        } };
    }
    go!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}
/// What comes out decodes to what went in.
pub fn decodes() {
    fn go<'a, T: ToKserd<'static> + serde::de::DeserializeOwned + PartialEq + Clone>(x: T) {
        match x.clone().into_kserd().map(|k| k.decode::<T>()) {
            Ok(Ok(y)) => check(y == x, 153),
            _ => check(false, 153),
        }
        cover(1);
    }
    match param(0) {
        0 => go((byte(), any_bool(), ())),
        1 => go(vec![(byte(), ascii(1))]),
        2 => go(if flag() { Ok(byte()) } else { Err(ascii(1)) } as Result<u8, String>),
        3 => go((ascii(1).chars().next().unwrap(), wide2().chars().next().unwrap())),
        4 => go((None as Option<u8>, u64() as i64)),
        5 => go(Box::new((byte(),))),
        6 => go((u128(), u128() as i128, vec![vec![byte()], vec![]])),
        _ => go((byte() as i8, u16(), u16() as i16, u32(), u32() as i32, u64(), u64() as usize, u64() as isize)),
    }
}
