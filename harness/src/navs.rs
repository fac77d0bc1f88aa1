//! Navigation: indices, parents, children, keys and descendants of a tree.
use super::gen;
use super::sym::*;
use kserd::nav::*;
use kserd::*;

struct Spot<'a> {
    k: &'a Kserd<'static>,
    parent: Option<usize>,
    key: bool,
    idx: usize,
    keys: Vec<usize>,
    vals: Vec<usize>,
}
/// Preorder with a map's keys before their values.
fn walk<'a>(k: &'a Kserd<'static>, parent: Option<usize>, key: bool, idx: usize, out: &mut Vec<Spot<'a>>) -> usize {
    let me = out.len();
    out.push(Spot { k, parent, key, idx, keys: vec![], vals: vec![] });
    let mut put = |key: bool, i: usize, c: &'a Kserd<'static>| {
        let at = walk(c, Some(me), key, i, out);
        if key {
            out[me].keys.push(at);
        } else {
            out[me].vals.push(at);
        }
    };
    match &k.val {
        Value::Tuple(x) | Value::Seq(x) => {
            for (i, c) in x.iter().enumerate() {
                put(false, i, c);
            }
        }
        Value::Cntr(x) => {
            for (i, c) in x.values().enumerate() {
                put(false, i, c);
            }
        }
        Value::Map(x) => {
            for (i, (a, b)) in x.iter().enumerate() {
                put(true, i, a);
                put(false, i, b);
            }
        }
        _ => {}
    }
    me
}
macro_rules! indices {
    ($it:expr) => {
        $it.map(|n| n.index()).collect::<Vec<usize>>()
    };
}
pub fn consistent() {
    of(&gen::by_params());
}
/// Maps whose keys are arbitrary numbers or one-character strings, so that their order is not known
/// beforehand; the keys of the inner map share the first value.
pub fn keyed() {
    let mut m = std::collections::BTreeMap::new();
    for i in 0..param(0) {
        let k = if choice(2) == 0 { Kserd::new_num(u128()) } else { Kserd::new_string(ascii(1)) };
        let v = match choice(3) {
            0 => Kserd::new_unit(),
            1 => Kserd::new(Value::Seq(vec![Kserd::new_num(i as u8), Kserd::new_unit()])),
            _ => Kserd::new(Value::Map(Some((k.clone(), Kserd::new_unit())).into_iter().collect())),
        };
        m.insert(k, v);
    }
    of(&Kserd::new(Value::Map(m)));
}
fn of(k: &Kserd<'static>) {
    let mut want = vec![];
    walk(k, None, false, 0, &mut want);
    let nav = Navigator::new(k);
    check(nav.len() == want.len() && !nav.is_empty(), 110);
    check(nav.root().index() == 0 && std::ptr::eq(nav.root().kserd(), k), 111);
    check(nav.get(want.len()).is_none(), 110);
    check(indices!(nav.nodes()) == (0..want.len()).collect::<Vec<_>>(), 112);
    for (i, s) in want.iter().enumerate() {
        let n = match nav.get(i) {
            Some(n) => n,
            None => return check(false, 110),
        };
        check(n.index() == i && std::ptr::eq(n.kserd(), s.k), 111);
        check(n.parent().map(|p| p.index()) == s.parent, 113);
        check(n.is_key() == s.key, 114);
        check(n.idx_in_parent() == s.idx, 115);
        check(n.value_children().len() == s.vals.len() && n.value_children().is_empty() == s.vals.is_empty(), 116);
        check(indices!(n.value_children()) == s.vals, 116);
        check(indices!(n.key_children()) == s.keys, 117);
        check(n.key_children().len() == s.keys.len() && n.key_children().is_empty() == s.keys.is_empty(), 117);
        // an iterator counts what is left of it
        let mut it = n.value_children();
        for j in 0..s.vals.len() {
            check(it.next().map(|n| n.index()) == Some(s.vals[j]) && it.len() == s.vals.len() - j - 1, 116);
            check(it.is_empty() == (it.len() == 0), 116);
        }
        check(it.next().is_none(), 116);
        let mut it = n.key_children();
        for j in 0..s.keys.len() {
            check(it.next().map(|n| n.index()) == Some(s.keys[j]) && it.len() == s.keys.len() - j - 1, 117);
            check(it.is_empty() == (it.len() == 0), 117);
        }
        check(it.next().is_none(), 117);
        match n.value() {
            NodeValue::Tuple(mut it) | NodeValue::Seq(mut it) => {
                for j in 0..s.vals.len() {
                    check(it.next().map(|n| n.index()) == Some(s.vals[j]) && it.len() == s.vals.len() - j - 1 && it.is_empty() == (it.len() == 0), 120);
                }
                check(it.next().is_none(), 120);
            }
            NodeValue::Cntr(mut it) => {
                for j in 0..s.vals.len() {
                    check(it.next().map(|n| n.1.index()) == Some(s.vals[j]) && it.len() == s.vals.len() - j - 1 && it.is_empty() == (it.len() == 0), 120);
                }
                check(it.next().is_none(), 120);
            }
            NodeValue::Map(mut it) => {
                for j in 0..s.vals.len() {
                    check(it.next().map(|n| n.1.index()) == Some(s.vals[j]) && it.len() == s.vals.len() - j - 1 && it.is_empty() == (it.len() == 0), 120);
                }
                check(it.next().is_none(), 120);
            }
            NodeValue::Primitive => {}
        }
        // nodes are equal when they are the same place
        for j in 0..want.len() {
            check((nav.get(j).unwrap() == n) == (i == j), 121);
        }
        check(n.nav().len() == want.len() && n.nav().get(i).unwrap() == n, 121);
        // descendants
        let end = (i + 1..want.len()).find(|&j| !under(&want, j, i)).unwrap_or(want.len());
        let depth: Vec<usize> = n.descendants_depth().iter().map(|n| n.index()).collect();
        check(depth == (i + 1..end).collect::<Vec<_>>(), 118);
        let mut wide = vec![];
        let mut at = vec![i];
        while !at.is_empty() {
            let mut next = vec![];
            for &j in &at {
                next.extend(want[j].keys.iter().cloned());
                next.extend(want[j].vals.iter().cloned());
            }
            wide.extend(next.iter().cloned());
            at = next;
        }
        let breadth: Vec<usize> = n.descendants_breadth().iter().map(|n| n.index()).collect();
        check(breadth == wide, 119);
        // the node's value
        let ok = match (n.value(), &s.k.val) {
            (NodeValue::Tuple(it), Value::Tuple(x)) => it.len() == x.len() && indices!(it) == s.vals,
            (NodeValue::Seq(it), Value::Seq(x)) => it.len() == x.len() && indices!(it) == s.vals,
            (NodeValue::Cntr(it), Value::Cntr(x)) => {
                let n = it.len() == x.len() && it.is_empty() == x.is_empty();
                let v: Vec<(String, usize)> = it.map(|(n, v)| (n.to_string(), v.index())).collect();
                n && v.iter().map(|x| x.1).collect::<Vec<_>>() == s.vals && v.iter().zip(x.keys()).all(|(p, q)| p.0 == q.as_str())
            }
            (NodeValue::Map(it), Value::Map(x)) => {
                let n = it.len() == x.len() && it.is_empty() == x.is_empty();
                let v: Vec<(usize, usize)> = it.map(|(n, v)| (n.index(), v.index())).collect();
                n && v.iter().map(|x| x.0).collect::<Vec<_>>() == s.keys && v.iter().map(|x| x.1).collect::<Vec<_>>() == s.vals
            }
            (NodeValue::Primitive, Value::Tuple(_)) | (NodeValue::Primitive, Value::Seq(_)) => false,
            (NodeValue::Primitive, Value::Cntr(_)) | (NodeValue::Primitive, Value::Map(_)) => false,
            (NodeValue::Primitive, _) => true,
            _ => false,
        };
        check(ok, 120);
        if s.key {
            cover(2);
        }
        if wide.len() > 3 {
            cover(3);
        }
    }
    cover(1);
}
fn under(w: &[Spot], mut j: usize, i: usize) -> bool {
    while let Some(p) = w[j].parent {
        if p == i {
            return true;
        }
        j = p;
    }
    false
}
