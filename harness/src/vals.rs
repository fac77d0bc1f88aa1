//! Values: equality, order, ownership, names, accessors, strings and byte arrays.
use super::gen;
use super::num::{hash, line};
use super::sym::*;
use kserd::*;
use std::cmp::Ordering;

const KINDS: usize = 11;
const ANY: [usize; 10] = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10];

/// A value of a kind (`KINDS`: any but floats) with input contents and at most `w` children.
pub fn value(kind: usize, w: usize, depth: usize, id: &'static str) -> Kserd<'static> {
    let kind = if kind == KINDS { ANY[choice(ANY.len())] } else { kind };
    let kid = |_| {
        // children are picked among kinds which compare in interesting ways
        const PICK: [usize; 7] = [2, 3, 5, 0, 7, 9, 1];
        let k = PICK[choice(if depth > 1 { 7 } else { 3 })];
        value(k, if depth > 1 { 1 } else { 0 }, depth - 1, id)
    };
    let val = match kind {
        0 => Value::Unit,
        1 => Value::Bool(any_bool()),
        2 => Value::Num(Number::Uint(byte() as u128)),
        3 => Value::Num(Number::Int(byte() as i8 as i128)),
        4 => Value::Num(Number::Float(byte() as i8 as f64 / 4.0)),
        5 => Value::new_string(ascii(if depth == 0 { 1 } else { choice(w + 1) })),
        6 => {
            let mut v = vec![0; choice(w + 1)];
            fill(&mut v);
            Value::new_barrv(v)
        }
        7 => Value::Tuple((0..choice(w + 1)).map(kid).collect()),
        8 => Value::Seq((0..choice(w + 1)).map(kid).collect()),
        9 => {
            let n = choice(w + 1);
            let mut m = std::collections::BTreeMap::new();
            for i in 0..n {
                const N: [&str; 5] = ["a", "b", "c", "d", "e"];
                m.insert(Kstr::brwed(N[i + choice(2)]), kid(i));
            }
            Value::Cntr(m)
        }
        _ => {
            let n = choice(w + 1);
            let mut m = std::collections::BTreeMap::new();
            for i in 0..n {
                m.insert(value(2, 0, 0, id), kid(i));
            }
            Value::Map(m)
        }
    };
    Kserd::with_id(id, val).unwrap()
}
fn empty(v: &Value) -> bool {
    match v {
        Value::Tuple(x) => x.is_empty(),
        Value::Cntr(x) => x.is_empty(),
        _ => false,
    }
}
/// Structural comparison which ignores names; `None` where only consistency is required.
fn oracle(a: &Value, b: &Value) -> Option<Ordering> {
    fn text(a: &[u8], b: &[u8]) -> Ordering {
        for (x, y) in a.iter().zip(b) {
            if x != y {
                return if x < y { Ordering::Less } else { Ordering::Greater };
            }
        }
        a.len().cmp(&b.len())
    }
    fn step(o: Option<Ordering>) -> Result<(), Option<Ordering>> {
        if o == Some(Ordering::Equal) {
            Ok(())
        } else {
            Err(o)
        }
    }
    fn list(a: &[Kserd], b: &[Kserd]) -> Result<(), Option<Ordering>> {
        for (x, y) in a.iter().zip(b) {
            step(oracle(x, y))?;
        }
        step(Some(a.len().cmp(&b.len())))
    }
    let r = match (a, b) {
        (Value::Unit, Value::Unit) => Ok(()),
        (Value::Bool(x), Value::Bool(y)) => return Some(x.cmp(y)),
        (Value::Num(x), Value::Num(y)) => return Some(line(*x, *y)),
        (Value::Str(x), Value::Str(y)) => return Some(text(x.as_bytes(), y.as_bytes())),
        (Value::Barr(x), Value::Barr(y)) => return Some(text(x.as_bytes(), y.as_bytes())),
        (Value::Tuple(x), Value::Tuple(y)) => list(x, y),
        (Value::Seq(x), Value::Seq(y)) => list(x, y),
        (Value::Cntr(x), Value::Cntr(y)) => (|| {
            for (p, q) in x.iter().zip(y) {
                step(Some(text(p.0.as_bytes(), q.0.as_bytes())))?;
                step(oracle(p.1, q.1))?;
            }
            step(Some(x.len().cmp(&y.len())))
        })(),
        (Value::Map(x), Value::Map(y)) => (|| {
            for (p, q) in x.iter().zip(y) {
                step(oracle(p.0, q.0))?;
                step(oracle(p.1, q.1))?;
            }
            step(Some(x.len().cmp(&y.len())))
        })(),
        // an empty tuple and an empty container are one value
        _ if empty(a) && empty(b) => Ok(()),
        _ => Err(None),
    };
    match r {
        Ok(()) => Some(Ordering::Equal),
        Err(o) => o,
    }
}
/// Pairs: kinds (parameters 0, 1), most children (2), depth (3).
pub fn pairs() {
    let a = value(param(0), param(2), param(3), "A");
    let b = value(param(1), param(2), param(3), "Bb");
    pair(a, b);
}
fn pair(a: Kserd<'static>, b: Kserd<'static>) {
    let got = a.cmp(&b);
    let back = b.cmp(&a);
    check(got == back.reverse(), 60);
    check((a == b) == (got == Ordering::Equal), 61);
    check((a != b) == (got != Ordering::Equal), 61);
    check(a.partial_cmp(&b) == Some(got), 62);
    check(a.val.cmp(&b.val) == got && a.val.partial_cmp(&b.val) == Some(got), 63);
    check((a.val == b.val) == (a == b), 63);
    match oracle(&a, &b) {
        Some(want) => {
            cover(if want == Ordering::Equal { 1 } else { 2 });
            check(got == want, 64);
        }
        None => {
            cover(3);
            check(got != Ordering::Equal, 65);
        }
    }
    std::mem::forget((a, b));
}
/// Many elements of a kind, one of them (chosen) an arbitrary byte.
fn long(kind: usize, n: usize, id: &'static str) -> Kserd<'static> {
    let at = if n > 100 { [0, n / 2, n - 1][choice(3)] } else { choice(n) };
    let x = byte();
    let b = |i: usize| if i == at { x } else { 7 };
    let kid = |i: usize| Kserd::new(Value::Num(Number::Uint(b(i) as u128)));
    let val = match kind {
        0 => {
            assume(x < 128);
            Value::new_string(String::from_utf8((0..n).map(b).collect()).unwrap())
        }
        1 => Value::new_barrv((0..n).map(b).collect()),
        2 => Value::Tuple((0..n).map(kid).collect()),
        3 => Value::Seq((0..n).map(kid).collect()),
        4 => Value::Cntr((0..n).map(|i| (Kstr::owned(format!("f{}", i)), kid(i))).collect()),
        _ => Value::Map((0..n).map(|i| (Kserd::new(Value::Num(Number::Uint(i as u128))), kid(i))).collect()),
    };
    Kserd::with_id(id, val).unwrap()
}
/// Pairs of long values: kind, lengths.
pub fn long_pairs() {
    pair(long(param(0), param(1), "A"), long(param(0), param(2), "Bb"));
}
/// Copies of long values: kind, length.
pub fn owner_long() {
    copies(long(param(0), param(1), "A"));
}
/// Triples: the order is transitive. Kinds are parameters 0 to 2.
pub fn triples() {
    let a = value(param(0), param(3), 1, "A");
    let b = value(param(1), param(3), 1, "Bb");
    let c = value(param(2), param(3), 1, "Cc");
    let (x, y, z) = (a.cmp(&b), b.cmp(&c), a.cmp(&c));
    if x != Ordering::Greater && y != Ordering::Greater {
        cover(1);
        check(z != Ordering::Greater, 66);
        check((z == Ordering::Equal) == (x == Ordering::Equal && y == Ordering::Equal), 67);
    }
    std::mem::forget((a, b, c));
}

/// Everything the same: kinds, contents bit for bit, names.
pub fn exact(a: &Kserd, b: &Kserd) -> bool {
    if a.id() != b.id() {
        return false;
    }
    let list = |x: &Vec<Kserd>, y: &Vec<Kserd>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| exact(p, q));
    match (&a.val, &b.val) {
        (Value::Unit, Value::Unit) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Num(Number::Uint(x)), Value::Num(Number::Uint(y))) => x == y,
        (Value::Num(Number::Int(x)), Value::Num(Number::Int(y))) => x == y,
        (Value::Num(Number::Float(x)), Value::Num(Number::Float(y))) => x.to_bits() == y.to_bits(),
        (Value::Str(x), Value::Str(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Barr(x), Value::Barr(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Tuple(x), Value::Tuple(y)) => list(x, y),
        (Value::Seq(x), Value::Seq(y)) => list(x, y),
        (Value::Cntr(x), Value::Cntr(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0.as_bytes() == q.0.as_bytes() && exact(p.1, q.1))
        }
        (Value::Map(x), Value::Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| exact(p.0, q.0) && exact(p.1, q.1))
        }
        _ => false,
    }
}
fn copies(k: Kserd) {
    let c = k.clone();
    check(exact(&k, &c), 70);
    {
        let b = k.mk_brw();
        check(exact(&k, &b), 71);
        check(exact(&b, &b.clone()), 70);
        let o = b.into_owned();
        check(exact(&k, &o), 72);
        std::mem::forget(o);
        let v = k.val.mk_brw();
        let v = Kserd { id: k.id.clone(), val: v };
        check(exact(&k, &v), 71);
        std::mem::forget(v);
    }
    let v = Kserd { id: k.id.clone(), val: k.val.clone() };
    check(exact(&k, &v), 70);
    let v = Kserd { id: k.id.clone(), val: v.val.into_owned() };
    check(exact(&k, &v), 72);
    std::mem::forget(v);
    let o = k.into_owned();
    check(exact(&c, &o), 72);
    cover(1);
    std::mem::forget((c, o));
}
/// Owned, borrowed and cloned trees of a family.
pub fn owner_trees() {
    copies(gen::by_params());
}
/// The same for values with input contents of a kind (parameter 0).
pub fn owner_vals() {
    let mut k = value(param(0), param(1), param(2), "A");
    // an arbitrary name
    if param(3) > 0 {
        k.id = Some(Kstr::owned(ascii(param(3) - 1)));
    }
    copies(k);
}

/// Names of values and fields: accepted exactly when allowed, kept as given.
pub fn names() {
    let mut s = String::new();
    match param(1) {
        0 => s = ascii(param(0)),
        1 => {
            s.push_str(&ascii(param(0)));
            s.push_str(&wide2());
        }
        2 => {
            s.push_str(&wide2());
            s.push_str(&ascii(param(0)));
        }
        n => {
            s.push_str(&"an_é-Long:name1".repeat(n));
            s.push_str(&ascii(param(0)));
        }
    }
    let mut bad_id = false;
    let mut bad_field = s.is_empty();
    for (i, b) in s.bytes().enumerate() {
        bad_id |= b"(){}[]<> ,./\\=".contains(&b);
        bad_field |= b" /\\\"\t'".contains(&b) | (i == 0 && b.is_ascii_digit());
    }
    match Kserd::with_id(s.clone(), Value::Unit) {
        Ok(k) => {
            cover(1);
            check(!bad_id, 80);
            check(k.id().map(|x| x.as_bytes() == s.as_bytes()) == Some(true), 81);
        }
        Err(e) => {
            cover(2);
            check(bad_id, 82);
            check(!e.to_string().is_empty(), 83);
        }
    }
    let first = (Kstr::owned(s.clone()), Kserd::new_unit());
    let other = (Kstr::brwed("zz"), Kserd::new(Value::Num(Number::Uint(7))));
    let items = if param(2) == 0 { vec![first] } else { vec![first, other] };
    match Kserd::new_cntr(items) {
        Ok(k) => {
            cover(3);
            check(!bad_field, 84);
            let c = k.cntr();
            check(c.is_some(), 85);
            if let Some(c) = c {
                check(c.get_unit(s.as_str()).is_some() || s == "zz", 85);
                check(c.len() == if param(2) == 0 || s == "zz" { 1 } else { 2 }, 85);
            }
            std::mem::forget(k);
        }
        Err(e) => {
            cover(4);
            check(bad_field, 86);
            check(!e.to_string().is_empty(), 83);
        }
    }
}

fn only(k: &Kserd, kind: usize) {
    let at = |i: usize| kind == i;
    check(k.unit() == at(0), 90);
    check(k.bool().is_some() == at(1), 90);
    let num = matches!(k.val, Value::Num(_));
    if !num {
        check(k.uint().is_none() && k.int().is_none() && k.float().is_none(), 90);
    }
    check(k.str().is_some() == at(5), 90);
    check(k.barr().is_some() == at(6), 90);
    check(k.tuple().is_some() == at(7), 90);
    check(k.seq().is_some() == at(8), 90);
    check(k.tuple_or_seq().is_some() == (at(7) || at(8)), 90);
    check(k.cntr().is_some() == at(9), 90);
    check(k.map().is_some() == at(10), 90);
}
/// Each accessor answers for its own kind only, with the content; the mutable ones change it.
pub fn access() {
    let kind = param(0);
    let mut k = value(kind, param(1), 1, "A");
    let before = k.clone();
    only(&k, kind);
    match &before.val {
        Value::Bool(x) => check(k.bool() == Some(*x), 91),
        Value::Num(n) => {
            check(k.uint() == n.as_u128().ok(), 91);
            check(k.int() == n.as_i128().ok(), 91);
            check(k.float() == Some(n.as_f64()), 91);
        }
        Value::Str(s) => {
            check(k.str().map(|x| x.as_bytes()) == Some(s.as_bytes()), 91);
            let one = s.len() == 1;
            check(k.ch() == if one { Some(s.as_bytes()[0] as char) } else { None }, 92);
        }
        Value::Barr(s) => check(k.barr() == Some(s.as_bytes()), 91),
        Value::Tuple(x) | Value::Seq(x) => {
            let y = k.tuple_or_seq().unwrap();
            check(y.len() == x.len() && y.iter().zip(x).all(|(p, q)| exact(p, q)), 91);
        }
        Value::Cntr(x) => {
            let c = k.cntr().unwrap();
            check(c.len() == x.len() && c.iter().zip(x).all(|(p, q)| p.0 == q.0 && exact(p.1, q.1)), 91);
        }
        Value::Map(x) => {
            let c = k.map().unwrap();
            check(c.len() == x.len() && c.iter().zip(x).all(|(p, q)| exact(p.0, q.0) && exact(p.1, q.1)), 91);
        }
        Value::Unit => {}
    }
    if kind != 5 {
        check(k.ch().is_none(), 92);
    } else {
        let w = wide2();
        check(Value::new_str(&w).ch() == w.chars().next(), 92);
        let two = w.clone() + &ascii(1);
        check(Value::new_str(&two).ch().is_none(), 92);
    }
    // mutable ones
    let n = param(1) as u64 + 40;
    let at = |i: usize| kind == i;
    check(k.bool_mut().is_some() == at(1), 93);
    check(k.num_mut().is_some() == (2..5).contains(&kind), 93);
    check(k.str_mut().is_some() == at(5), 93);
    check(k.barr_mut().is_some() == at(6), 93);
    check(k.tuple_mut().is_some() == at(7), 93);
    check(k.seq_mut().is_some() == at(8), 93);
    check(k.tuple_or_seq_mut().is_some() == (at(7) || at(8)), 93);
    check(k.cntr_mut().is_some() == at(9), 93);
    check(k.map_mut().is_some() == at(10), 93);
    check(exact(&k, &before), 94);
    let fresh = Kserd::new(Value::Num(Number::Uint(n as u128)));
    let ok = match kind {
        1 => {
            let x = k.bool_mut().unwrap();
            *x = !*x;
            k.bool() == before.bool().map(|x| !x)
        }
        2..=4 => {
            *k.num_mut().unwrap() = Number::Uint(n as u128);
            k.uint() == Some(n as u128)
        }
        5 => {
            k.str_mut().unwrap().push('!');
            let s = k.str().unwrap();
            s.len() == before.str().unwrap().len() + 1 && s.ends_with('!') && s.starts_with(before.str().unwrap())
        }
        6 => {
            k.barr_mut().unwrap().push(9);
            let s = k.barr().unwrap();
            s.len() == before.barr().unwrap().len() + 1 && s.ends_with(&[9]) && s.starts_with(before.barr().unwrap())
        }
        7 | 8 => {
            if kind == 7 {
                k.tuple_mut().unwrap().push(fresh);
            } else {
                k.seq_mut().unwrap().push(fresh);
            }
            let x = k.tuple_or_seq_mut().unwrap();
            x.len() == before.tuple_or_seq().unwrap().len() + 1 && x[x.len() - 1].uint() == Some(n as u128)
        }
        9 => {
            k.cntr_mut().unwrap().insert(Kstr::brwed("q"), fresh);
            let c = k.cntr().unwrap();
            c.len() == before.cntr().unwrap().len() + 1 && c.get_num("q") == Some(Number::Uint(n as u128))
        }
        10 => {
            k.map_mut().unwrap().insert(Kserd::new(Value::new_str("q")), fresh);
            k.map().unwrap().len() == before.map().unwrap().len() + 1
        }
        _ => true,
    };
    check(ok, 95);
    check(k.id() == before.id(), 96);
    cover(1);
    std::mem::forget((k, before));
}
/// Typed access to the fields of a container: the field has a kind (parameter 0).
pub fn fields() {
    let kind = param(0);
    let v = value(kind, 1, 1, "A");
    let keep = v.clone();
    let mut k = Kserd::new_cntr(vec![("f", v), ("g", Kserd::new(Value::Num(Number::Uint(1))))]).unwrap();
    let at = |i: usize| kind == i;
    {
        let c = k.cntr().unwrap();
        check(c.get_unit("f").is_some() == at(0), 90);
        check(c.get_bool("f") == keep.bool(), 90);
        check(c.get_num("f").is_some() == (2..5).contains(&kind), 90);
        if let (Some(n), Value::Num(m)) = (c.get_num("f"), &keep.val) {
            check(line(n, *m) == Ordering::Equal, 91);
        }
        check(c.get_str("f").map(|x| x.as_bytes()) == keep.str().map(|x| x.as_bytes()), 91);
        check(c.get_barr("f") == keep.barr(), 91);
        let list = |x: Option<&Vec<Kserd>>, y: Option<&Vec<Kserd>>| match (x, y) {
            (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| exact(p, q)),
            (None, None) => true,
            _ => false,
        };
        check(list(c.get_tuple("f"), keep.tuple()) && list(c.get_seq("f"), keep.seq()), 91);
        check(list(c.get_tuple_or_seq("f"), keep.tuple_or_seq()), 91);
        check(c.get_cntr("f").is_some() == at(9) && c.get_map("f").is_some() == at(10), 91);
        if let (Some(x), Value::Cntr(y)) = (c.get_cntr("f"), &keep.val) {
            check(x.len() == y.len() && y.iter().all(|(n, v)| x.get(n.as_str()).map_or(false, |x| exact(x, v))), 91);
        }
        if let (Some(x), Value::Map(y)) = (c.get_map("f"), &keep.val) {
            check(x.len() == y.len() && x.iter().zip(y).all(|(p, q)| exact(p.0, q.0) && exact(p.1, q.1)), 91);
        }
        check(c.get_unit("h").is_none() && c.get_bool("h").is_none() && c.get_num("h").is_none() && c.get_str("h").is_none(), 97);
        check(c.get_barr("h").is_none() && c.get_tuple("h").is_none() && c.get_seq("h").is_none() && c.get_map("h").is_none(), 97);
        check(c.get_tuple_or_seq("h").is_none() && c.get_cntr("h").is_none(), 97);
    }
    {
        let mut c = k.cntr_mut().unwrap();
        check(c.get_bool_mut("f").is_some() == at(1), 93);
        check(c.get_num_mut("f").is_some() == (2..5).contains(&kind), 93);
        check(c.get_str_mut("f").is_some() == at(5), 93);
        check(c.get_barr_mut("f").is_some() == at(6), 93);
        check(c.get_tuple_mut("f").is_some() == at(7), 93);
        check(c.get_seq_mut("f").is_some() == at(8), 93);
        check(c.get_tuple_or_seq_mut("f").is_some() == (at(7) || at(8)), 93);
        check(c.get_cntr_mut("f").is_some() == at(9), 93);
        check(c.get_map_mut("f").is_some() == at(10), 93);
        if let Some(x) = c.get_bool_mut("f") {
            *x = !*x;
            check(c.get_bool("f") == keep.bool().map(|x| !x), 95);
        }
        if let Some(x) = c.get_num_mut("f") {
            *x = Number::Int(-77);
            check(c.get_num("f").map(|x| x.as_i128()) == Some(Ok(-77)), 95);
        }
        if let Some(x) = c.get_str_mut("f") {
            x.push('!');
            check(c.get_str("f").map(|x| x.ends_with('!') && x.len() == keep.str().unwrap().len() + 1) == Some(true), 95);
        }
        if let Some(x) = c.get_barr_mut("f") {
            x.push(1);
            check(c.get_barr("f").map(|x| x.len()) == keep.barr().map(|x| x.len() + 1), 95);
        }
        if let Some(x) = c.get_tuple_or_seq_mut("f") {
            x.push(Kserd::new_unit());
            check(c.get_tuple_or_seq("f").map(|x| x.len()) == keep.tuple_or_seq().map(|x| x.len() + 1), 95);
        }
        if let Some(x) = c.get_tuple_mut("f") {
            x.clear();
            check(c.get_tuple("f").map(|x| x.len()) == Some(0), 95);
        }
        if let Some(x) = c.get_seq_mut("f") {
            x.clear();
            check(c.get_seq("f").map(|x| x.len()) == Some(0), 95);
        }
        if let Some(mut x) = c.get_cntr_mut("f") {
            x.insert(Kstr::brwed("zz"), Kserd::new_bool(true));
            check(c.get_cntr("f").and_then(|x| x.get_bool("zz")) == Some(true), 95);
        }
        if let Some(x) = c.get_map_mut("f") {
            x.clear();
            check(c.get_map("f").map(|x| x.len()) == Some(0), 95);
        }
        check(c.get_num("g").map(|x| x.as_u128()) == Some(Ok(1)), 96);
        check(c.get_bool_mut("h").is_none() && c.get_num_mut("h").is_none() && c.get_str_mut("h").is_none(), 97);
        check(c.get_barr_mut("h").is_none() && c.get_tuple_mut("h").is_none() && c.get_seq_mut("h").is_none(), 97);
        check(c.get_map_mut("h").is_none() && c.get_tuple_or_seq_mut("h").is_none() && c.get_cntr_mut("h").is_none(), 97);
    }
    // whatever is put in place of a field is read back
    if let Some(mut c) = k.cntr_mut() {
        let x = byte();
        c.insert(Kstr::brwed("f"), Kserd::new_num(x));
        check(c.get_num("f").map(|n| n.as_u128()) == Some(Ok(x as u128)) && c.len() == 2, 95);
        c.remove("g");
        check(c.get_num("g").is_none() && c.len() == 1, 95);
    }
    cover(1);
    std::mem::forget((k, keep));
}

/// Strings and byte arrays behave by content, however they are held. Lengths: parameters 0 and 1.
pub fn held() {
    let long = "a common beginning of é, ".repeat(param(2));
    let (s, t) = (long.clone() + &ascii(param(0)), long + &ascii(param(1)));
    let want = s.as_bytes().cmp(t.as_bytes());
    let (sb, so) = (Kstr::brwed(&s), Kstr::owned(s.clone()));
    let (tb, to) = (Kstr::brwed(&t), Kstr::owned(t.clone()));
    check(sb.as_str().as_bytes() == s.as_bytes() && so.as_str().as_bytes() == s.as_bytes(), 100);
    for a in [&sb, &so] {
        for b in [&tb, &to] {
            check(a.cmp(b) == want && a.partial_cmp(b) == Some(want), 101);
            check((a == b) == (want == Ordering::Equal), 102);
            check((*a == *t.as_str()) == (want == Ordering::Equal), 102);
            let (p, q): (&str, &str) = (std::borrow::Borrow::borrow(a), b.as_ref());
            check((p == q) == (want == Ordering::Equal) && p.len() == a.len() && q.len() == b.len(), 102);
        }
    }
    check(hash(&sb) == hash(&so) && hash(&sb) == hash(s.as_str()), 103);
    check(sb.to_string().as_bytes() == s.as_bytes(), 100);
    let r: &str = sb.as_ref();
    check(r.as_bytes() == s.as_bytes(), 100);
    let (c, d): (Kstr, Kstr) = (s.as_str().into(), s.clone().into());
    check(c == so && d == sb && std::ptr::eq(c.as_str(), s.as_str()), 100);
    let c = so.clone();
    let o = Kstr::brwed(&s).into_owned();
    check(o == so && c == sb, 100);
    let mut m = Kstr::brwed(&s);
    m.to_mut().push('x');
    check(m.as_str().len() == s.len() + 1 && m.as_str().starts_with(s.as_str()) && m.as_str().ends_with('x'), 104);
    check(sb.as_str().as_bytes() == s.as_bytes(), 104);
    let mut m = so.clone();
    m.to_mut().push('x');
    check(m.as_str().len() == s.len() + 1 && so.as_bytes() == s.as_bytes(), 104);

    let (s, t) = (s.into_bytes(), t.into_bytes());
    let (sb, so) = (Barr::brwed(&s), Barr::owned(s.clone()));
    let (tb, to) = (Barr::brwed(&t), Barr::owned(t.clone()));
    check(sb.as_bytes() == &s[..] && so.as_bytes() == &s[..], 105);
    for a in [&sb, &so] {
        for b in [&tb, &to] {
            check(a.cmp(b) == want && a.partial_cmp(b) == Some(want), 106);
            check((a == b) == (want == Ordering::Equal), 107);
            check((*a == t[..]) == (want == Ordering::Equal) && (a == t[..]) == (want == Ordering::Equal), 107);
            let (p, q): (&[u8], &[u8]) = (a.as_ref(), b.as_ref());
            check((p == q) == (want == Ordering::Equal) && p.len() == a.len() && q.len() == b.len(), 107);
        }
    }
    check(hash(&sb) == hash(&so), 108);
    let (c, d): (Barr, Barr) = (s.as_slice().into(), s.clone().into());
    check(c == so && d == sb && std::ptr::eq(c.as_bytes(), &s[..]), 105);
    let o = Barr::brwed(&s).into_owned();
    check(o == so && so.clone() == sb, 105);
    let mut m = Barr::brwed(&s);
    m.to_mut().push(7);
    check(m.as_bytes().len() == s.len() + 1 && m.as_bytes().starts_with(&s) && m.as_bytes().ends_with(&[7]), 109);
    check(sb.as_bytes() == &s[..], 109);
    let mut m = so.clone();
    m.to_mut().push(7);
    check(m.as_bytes().len() == s.len() + 1 && so.as_bytes() == &s[..], 109);
    cover(if want == Ordering::Equal { 1 } else { 2 });
}
