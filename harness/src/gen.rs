//! Symbolic construction of values: every structural decision is an input.
use super::sym::*;
use kserd::*;

pub const UNIT: usize = 0;
pub const BOOL: usize = 1;
pub const NUM: usize = 2;
pub const STR: usize = 3;
pub const BARR: usize = 4;
pub const TUPLE: usize = 5;
pub const CNTR: usize = 6;
pub const SEQ: usize = 7;
pub const MAP: usize = 8;
pub const NEG: usize = 9;
pub const INF: usize = 10;
pub const NAN: usize = 11;
pub const FRAC: usize = 12;
pub const YES: usize = 13;
pub const BIG: usize = 14;
pub const TEXT: usize = 15;
pub const LONG: usize = 16;

/// What the generator may produce.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub kinds: &'static [usize], // while depth remains
    pub leaf: &'static [usize],  // at depth 0
    pub keys: &'static [usize],  // as map keys; collections in here hold one or two leaves
    pub width: usize,            // most children per collection
    pub min: usize,              // least children per collection
    pub ids: u8,                 // names: 0 none, 1 on any of the nodes, 2 on all
    pub wide: bool,              // names with characters outside ASCII
    pub cycle: usize,            // chains which repeat two kinds: 1 + which
    pub long_keys: bool,         // the keys hold long texts
    pub thin: bool,              // only the first child has children
}

fn leaf_val(k: usize, n: u64) -> Value<'static> {
    match k {
        UNIT => Value::Unit,
        BOOL => Value::Bool(n % 2 == 0),
        YES => Value::Bool(true),
        NUM => Value::Num(Number::Uint(n as u128)),
        NEG => Value::Num(Number::Int(-(n as i128))),
        INF => Value::Num(Number::Float(f64::INFINITY)),
        NAN => Value::Num(Number::Float(f64::NAN)),
        FRAC => Value::Num(Number::Float(-0.5 - n as f64)),
        BIG => Value::Num(Number::Float(1e23 * n as f64)),
        STR => Value::new_string(format!("s{}", n)),
        TEXT => Value::new_string(format!("[a = {} (1, 2)]\n{{b: c}} :d", n)),
        LONG => Value::new_string(format!("some-longer-text-as-key-{}", n)),
        BARR => Value::new_barrv(vec![n as u8, 7]),
        _ => unreachable!(),
    }
}
fn is_leaf(k: usize) -> bool {
    k < TUPLE || k > MAP
}
const NAMES: [&str; 4] = ["a", "b1", "c-d", "_e"];
const IDS: [&str; 4] = ["Xx", "y_", "Z-0", "wide-name7"];
const WIDE_NAMES: [&str; 4] = ["é", "ñandú", "x字", "_🦀é"];
const WIDE_IDS: [&str; 4] = ["É", "größe", "字字", "x🦀"];

pub fn tree(c: Cfg, depth: usize, p: u32, n: &mut u64) -> Kserd<'static> {
    let set = if depth == 0 { c.leaf } else { c.kinds };
    let k = match c.cycle {
        0 => set[choice_p(p, set.len())],
        _ if depth == 0 => NUM,
        x => COLL[if depth % 2 == 0 { (x - 1) / 4 } else { (x - 1) % 4 }],
    };
    node(c, k, depth, p, n)
}
fn node(c: Cfg, k: usize, depth: usize, p: u32, n: &mut u64) -> Kserd<'static> {
    let id = c.ids > 1 || (c.ids == 1 && flag());
    *n += 1;
    let idn = if c.wide { WIDE_IDS } else { IDS }[(*n % 4) as usize];
    let val = if is_leaf(k) {
        leaf_val(k, *n)
    } else {
        let w = c.min + choice_p(if p == 0 { 0 } else { p + 1 }, c.width - c.min + 1);
        let np = if p == 0 { 0 } else { p + 2 };
        let mut kids = Vec::new();
        for i in 0..w {
            let deep = if c.thin && i > 0 { 0 } else { depth - 1 };
            kids.push(tree(c, deep, if i == 0 { np } else { 0 }, n));
        }
        let names = if c.wide { &WIDE_NAMES } else { &NAMES };
        match k {
            TUPLE => Value::Tuple(kids),
            SEQ => Value::Seq(kids),
            CNTR => Value::Cntr(kids.into_iter().enumerate().map(|(i, k)| (names.get(i).map_or_else(|| Kstr::owned(format!("f{}", i)), |x| Kstr::brwed(x)), k)).collect()),
            _ => {
                let mut m = std::collections::BTreeMap::new();
                let mut empties = 0;
                let leaf = if c.long_keys { &[LONG] } else { c.leaf };
                for v in kids {
                    let kk = c.keys[choice_p(0, c.keys.len())];
                    let key = node(Cfg { kinds: leaf, leaf, keys: leaf, ids: if is_leaf(kk) { c.ids } else { 0 }, width: 2, min: 1, ..c }, kk, 1, 0, n);
                    empties += matches!(key.val, Value::Unit) as u8;
                    assume(empties < 2);
                    m.insert(key, v);
                }
                Value::Map(m)
            }
        }
    };
    if id {
        Kserd::with_id(idn, val).unwrap()
    } else {
        Kserd::new(val)
    }
}

const ALL: &[usize] = &[UNIT, BOOL, NUM, STR, BARR, TUPLE, CNTR, SEQ, MAP];
const COLL: &[usize] = &[TUPLE, CNTR, SEQ, MAP];
const NUMCOLL: &[usize] = &[NUM, TUPLE, CNTR, SEQ, MAP];
const PRIMS: &[usize] = &[UNIT, BOOL, NUM, STR, BARR, NEG, INF, NAN, FRAC, YES, BIG];

/// The families of trees used by the checks (parameter 0).
pub fn family(i: usize) -> Cfg {
    match i {
        // every kind of leaf, with and without names
        0 => Cfg { kinds: ALL, leaf: &[UNIT, BOOL, NUM, STR, BARR], keys: &[UNIT, NUM, STR], width: 2, min: 0, ids: 1, wide: false, cycle: 0, long_keys: false, thin: false },
        // nested shapes
        1 => Cfg { kinds: NUMCOLL, leaf: &[NUM], keys: &[NUM], width: 2, min: 1, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // chains with names
        2 => Cfg { kinds: COLL, leaf: &[NUM], keys: &[NUM], width: 1, min: 1, ids: 1, wide: false, cycle: 0, long_keys: false, thin: false },
        // every awkward primitive
        3 => Cfg { kinds: COLL, leaf: PRIMS, keys: PRIMS, width: 2, min: 1, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // collections as keys
        4 => Cfg { kinds: COLL, leaf: &[NUM, INF], keys: &[NUM, TUPLE, CNTR, SEQ, MAP], width: 1, min: 1, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // empties inside everything
        5 => Cfg { kinds: COLL, leaf: &[NUM], keys: &[NUM], width: 2, min: 0, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // verbose shapes in each other, collections as keys
        7 => Cfg { kinds: &[CNTR, MAP], leaf: &[NUM], keys: &[NUM, TUPLE], width: 1, min: 1, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // pairs of containers and lists
        8 => Cfg { kinds: &[CNTR, SEQ, NUM], leaf: &[NUM], keys: &[NUM], width: 2, min: 1, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // three or four children
        9 => Cfg { kinds: COLL, leaf: &[NUM], keys: &[NUM], width: 4, min: 3, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // three children, some of them collections
        10 => Cfg { kinds: NUMCOLL, leaf: &[NUM], keys: &[NUM], width: 3, min: 3, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // everything named
        11 => Cfg { kinds: NUMCOLL, leaf: &[NUM], keys: &[STR], width: 2, min: 1, ids: 2, wide: false, cycle: 0, long_keys: false, thin: false },
        // texts which look like something else
        12 => Cfg { kinds: COLL, leaf: &[TEXT], keys: &[TEXT, NUM], width: 2, min: 1, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // many children
        13 => Cfg { kinds: COLL, leaf: &[NUM], keys: &[NUM], width: 13, min: 12, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // names outside ASCII
        14 => Cfg { kinds: NUMCOLL, leaf: &[NUM, UNIT], keys: &[STR], width: 2, min: 1, ids: 2, wide: true, cycle: 0, long_keys: false, thin: false },
        // hundreds of children
        15 => Cfg { kinds: COLL, leaf: &[NUM], keys: &[NUM], width: 300, min: 300, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
        // long chains which repeat two kinds
        16 => Cfg { kinds: COLL, leaf: &[NUM], keys: &[NUM], width: 1, min: 1, ids: 0, wide: false, cycle: 1 + choice_p(3, 16), long_keys: false, thin: false },
        // long collections as keys
        17 => Cfg { kinds: COLL, leaf: &[NUM], keys: COLL, width: 1, min: 1, ids: 0, wide: false, cycle: 0, long_keys: true, thin: false },
        // full trees which repeat two kinds, of two and of nine children
        18 => Cfg { width: 2, min: 2, ..family(16) },
        19 => Cfg { width: 9, min: 9, ..family(16) },
        // chains with another child after each
        20 => Cfg { thin: true, ..family(18) },
        // chains, deeper
        _ => Cfg { kinds: COLL, leaf: &[NUM, YES], keys: &[STR], width: 1, min: 1, ids: 0, wide: false, cycle: 0, long_keys: false, thin: false },
    }
}
/// Makes the first number which is no map key an arbitrary digit.
pub fn vary(k: &mut Kserd<'static>) -> bool {
    match &mut k.val {
        Value::Num(Number::Uint(x)) => {
            let d = byte();
            assume(d < 10);
            *x = d as u128;
            true
        }
        Value::Tuple(x) | Value::Seq(x) => x.iter_mut().any(vary),
        Value::Cntr(x) => x.values_mut().any(vary),
        Value::Map(x) => x.values_mut().any(vary),
        _ => false,
    }
}
/// The tree selected by parameters: 0 family, 1 depth, 2 unused, 3.. leading choices (value + 1).
pub fn by_params() -> Kserd<'static> {
    let mut n = 0;
    tree(family(param(0)), param(1), 3, &mut n)
}
