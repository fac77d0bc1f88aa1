//! Hash-consed bit-vector expression DAG with a small simplifier and a concrete evaluator.
//! Widths go up to 128 bits.  Floats are carried as their IEEE-754 bit patterns.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Zext,
    Sext,
    Extract, // k = low bit, w = width
    Concat,  // a = high, b = low
    MulHi,   // upper half of the double-width unsigned product
    // floating point: args and results are bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FRound,   // k = rounding mode: 0 RNE(even) 1 RNA 2 +inf(ceil) 3 -inf(floor) 4 zero(trunc)
    FEq,      // ordered equal
    FLt,      // ordered less than
    FLe,      // ordered less or equal
    FIsNan,
    UIToFP,   // result width w
    SIToFP,
    FPToUI,   // round to zero, only used where in range
    FPToSI,
    FPCvt,    // f32 <-> f64
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub const NV: usize = 4; // mask words -> 256 symbolic bytes
pub type Mask = [u64; NV];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub mask: Vec<Mask>,
    /// unsigned value range of every node, independent of the path
    pub rng: Vec<(u128, u128)>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<FxHasher>>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
    depth: Vec<u16>,
    tabs: HashMap<E, std::rc::Rc<[u128; 256]>>,
}

#[derive(Default, Clone)]
pub struct FxHasher(u64);
impl std::hash::Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

pub fn m(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn mask_or(a: &Mask, b: &Mask) -> Mask {
    let mut r = *a;
    for i in 0..NV {
        r[i] |= b[i]
    }
    r
}
pub fn mask_hit(a: &Mask, b: &Mask) -> bool {
    (0..NV).any(|i| a[i] & b[i] != 0)
}
pub fn mask_sub(a: &Mask, b: &Mask) -> bool {
    (0..NV).all(|i| a[i] & !b[i] == 0)
}
pub fn mask_count(a: &Mask) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn mask_bits(a: &Mask) -> Vec<usize> {
    let mut v = vec![];
    for i in 0..NV {
        let mut x = a[i];
        while x != 0 {
            v.push(i * 64 + x.trailing_zeros() as usize);
            x &= x - 1;
        }
    }
    v
}

pub fn f_round(x: f64, mode: u128) -> f64 {
    match mode {
        0 => x.round_ties_even(),
        1 => x.round(),
        2 => x.ceil(),
        3 => x.floor(),
        _ => x.trunc(),
    }
}
const CNAN64: u128 = 0x7ff8000000000000;
const CNAN32: u128 = 0x7fc00000;
fn f64r(x: f64) -> u128 {
    if x.is_nan() {
        CNAN64
    } else {
        x.to_bits() as u128
    }
}
fn f32r(x: f32) -> u128 {
    if x.is_nan() {
        CNAN32
    } else {
        x.to_bits() as u128
    }
}
fn d(x: u128) -> f64 {
    f64::from_bits(x as u64)
}
fn s(x: u128) -> f32 {
    f32::from_bits(x as u32)
}

/// Concrete semantics of every operator; `aw` is the width of the first argument.
pub fn apply(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let mw = m(w);
    match op {
        Op::Const => k,
        Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b) & mw,
        Op::Sub => a.wrapping_sub(b) & mw,
        Op::Mul => a.wrapping_mul(b) & mw,
        Op::MulHi => {
            assert_eq!(w, 128);
            let (a1, a0, b1, b0) = (a >> 64, a as u64 as u128, b >> 64, b as u64 as u128);
            let t = (a0 * b0 >> 64) + (a1 * b0 & m(64)) + (a0 * b1 & m(64));
            a1 * b1 + (a1 * b0 >> 64) + (a0 * b1 >> 64) + (t >> 64)
        }
        Op::UDiv => {
            if b == 0 {
                mw
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    mw
                }
            } else {
                x.wrapping_div(y) as u128 & mw
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & mw
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & mw
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            (if b >= w as u128 { x >> 127 } else { x >> b }) as u128 & mw
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Zext => a,
        Op::Sext => sx(a, aw) as u128 & mw,
        Op::Extract => (a >> k) & mw,
        Op::Concat => unreachable!(), // handled by callers (needs width of b)
        Op::FAdd => {
            if w == 64 {
                f64r(d(a) + d(b))
            } else {
                f32r(s(a) + s(b))
            }
        }
        Op::FSub => {
            if w == 64 {
                f64r(d(a) - d(b))
            } else {
                f32r(s(a) - s(b))
            }
        }
        Op::FMul => {
            if w == 64 {
                f64r(d(a) * d(b))
            } else {
                f32r(s(a) * s(b))
            }
        }
        Op::FDiv => {
            if w == 64 {
                f64r(d(a) / d(b))
            } else {
                f32r(s(a) / s(b))
            }
        }
        Op::FRem => {
            if w == 64 {
                f64r(d(a) % d(b))
            } else {
                f32r(s(a) % s(b))
            }
        }
        Op::FSqrt => {
            if w == 64 {
                f64r(d(a).sqrt())
            } else {
                f32r(s(a).sqrt())
            }
        }
        Op::FRound => {
            if w == 64 {
                f64r(f_round(d(a), k))
            } else {
                f32r(f_round(s(a) as f64, k) as f32)
            }
        }
        Op::FEq => {
            (if aw == 64 {
                d(a) == d(b)
            } else {
                s(a) == s(b)
            }) as u128
        }
        Op::FLt => (if aw == 64 { d(a) < d(b) } else { s(a) < s(b) }) as u128,
        Op::FLe => {
            (if aw == 64 {
                d(a) <= d(b)
            } else {
                s(a) <= s(b)
            }) as u128
        }
        Op::FIsNan => (if aw == 64 { d(a).is_nan() } else { s(a).is_nan() }) as u128,
        Op::UIToFP => {
            if w == 64 {
                f64r(a as f64)
            } else {
                f32r(a as f32)
            }
        }
        Op::SIToFP => {
            let x = sx(a, aw);
            if w == 64 {
                f64r(x as f64)
            } else {
                f32r(x as f32)
            }
        }
        Op::FPToUI => (if aw == 64 { d(a) as u128 } else { s(a) as u128 }) & mw,
        Op::FPToSI => (if aw == 64 { d(a) as i128 } else { s(a) as i128 }) as u128 & mw,
        Op::FPCvt => {
            if aw == 32 && w == 64 {
                f64r(s(a) as f64)
            } else {
                f32r(d(a) as f32)
            }
        }
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut x = Arena {
            nodes: vec![],
            mask: vec![],
            rng: vec![],
            map: HashMap::default(),
            stamp: vec![],
            memo: vec![],
            cur: 0,
            depth: vec![],
            tabs: HashMap::new(),
        };
        x.konst(1, 0); // id 0 = false
        x.konst(1, 1); // id 1 = true
        x
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        assert!(n.w <= 128, "expression wider than 128 bits");
        let id = self.nodes.len() as E;
        let mut mk = [0u64; NV];
        match n.op {
            Op::Const => (),
            Op::Var => mk[n.k as usize / 64] |= 1 << (n.k % 64),
            _ => {
                for x in [n.a, n.b, n.c] {
                    if x != u32::MAX {
                        mk = mask_or(&mk, &self.mask[x as usize]);
                    }
                }
            }
        }
        let r = self.range_of(&n);
        let dp = match n.op {
            Op::Const | Op::Var => 0,
            _ => [n.a, n.b, n.c].iter().filter(|x| **x != u32::MAX).map(|x| self.depth[*x as usize]).max().unwrap().saturating_add(1),
        };
        self.depth.push(dp);
        self.nodes.push(n);
        self.mask.push(mk);
        self.rng.push(r);
        self.stamp.push(0);
        self.memo.push(0);
        self.map.insert(n, id);
        id
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let full = (0, m(n.w));
        let r = |e: E| self.rng[e as usize];
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Zext => r(n.a),
            Op::Extract if n.k == 0 => {
                let (lo, hi) = r(n.a);
                if hi <= m(n.w) {
                    (lo, hi)
                } else {
                    full
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let (h, l) = (r(n.a), r(n.b));
                ((h.0 << lw) + l.0, (h.1 << lw) + l.1)
            }
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_add(b.1) {
                    Some(h) if h <= m(n.w) => (a.0 + b.0, h),
                    _ => {
                        // adding a "negative" constant to something always at least that big
                        if b.0 == b.1 {
                            let neg = 0u128.wrapping_sub(b.0) & m(n.w);
                            if neg != 0 && a.0 >= neg {
                                return (a.0 - neg, a.1 - neg);
                            }
                        }
                        full
                    }
                }
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m(n.w) => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (0, a.1.min(b.1 - 1))
                } else {
                    full
                }
            }
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            _ => full,
        }
    }
    pub fn konst(&mut self, w: u16, k: u128) -> E {
        self.intern(Node { op: Op::Const, w, a: u32::MAX, b: u32::MAX, c: u32::MAX, k: k & m(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        assert!(i < NV * 64, "too many symbolic bytes");
        self.intern(Node { op: Op::Var, w: 8, a: u32::MAX, b: u32::MAX, c: u32::MAX, k: i as u128 })
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w, a, b, c, k })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let ones = self.konst(w, m(w));
        self.bin(Op::Xor, a, ones)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => 1,
            _ => aw,
        };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let v = apply(op, w, aw, x, y, 0, 0);
            return self.konst(w, v);
        }
        let (mut a, mut b) = (a, b);
        // commutative: constant to the right, otherwise order by id
        if matches!(op, Op::Add | Op::Mul | Op::MulHi | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        let kb = self.cv(b);
        match op {
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    let nk = self.konst(w, (0u128).wrapping_sub(k));
                    return self.bin(Op::Add, a, nk);
                }
            }
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.cv(na.b) {
                            let nk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, nk);
                        }
                    }
                    if na.op == Op::Ite && (self.cv(na.b).is_some() && self.cv(na.c).is_some()) {
                        let t = self.bin(Op::Add, na.b, b);
                        let e = self.bin(Op::Add, na.c, b);
                        return self.ite(na.a, t, e);
                    }
                }
                // (x + k) + y -> (x + y) + k
                if kb.is_none() {
                    if na.op == Op::Add && self.cv(na.b).is_some() {
                        let t = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, t, na.b);
                    }
                    if nb.op == Op::Add && self.cv(nb.b).is_some() {
                        let t = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, t, nb.b);
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k != 0 && na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if k <= m(iw) {
                            let k2 = self.konst(iw, k);
                            let r = self.bin(Op::UDiv, na.a, k2);
                            return self.zext(r, w);
                        }
                        return self.konst(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let mk = self.konst(w, k - 1);
                        return self.bin(Op::And, a, mk);
                    }
                    if k != 0 && na.op == Op::Zext {
                        let iw = self.w(na.a);
                        if k <= m(iw) {
                            let k2 = self.konst(iw, k);
                            let r = self.bin(Op::URem, na.a, k2);
                            return self.zext(r, w);
                        }
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m(w) {
                        return a;
                    }
                    // low mask -> zext(extract)
                    if (k & (k + 1)) == 0 {
                        let lw = (128 - k.leading_zeros()) as u16;
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.cv(na.b) {
                            let nk = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, nk);
                        }
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        let nk = self.konst(iw, k & m(iw));
                        let x = self.bin(Op::And, na.a, nk);
                        return self.zext(x, w);
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let t = self.bin(Op::And, na.b, b);
                        let e = self.bin(Op::And, na.c, b);
                        return self.ite(na.a, t, e);
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let hw = self.w(na.a);
                        let kl = self.konst(lw, k & m(lw));
                        let kh = self.konst(hw, k >> lw);
                        let l = self.bin(Op::And, na.b, kl);
                        let h = self.bin(Op::And, na.a, kh);
                        return self.concat(h, l);
                    }
                }
                if w == 1 {
                    let nt = self.not_of(a);
                    if nt == Some(b) {
                        return 0;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m(w) {
                        return b;
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let t = self.bin(Op::Or, na.b, b);
                        let e = self.bin(Op::Or, na.c, b);
                        return self.ite(na.a, t, e);
                    }
                }
                if w == 1 {
                    let nt = self.not_of(a);
                    if nt == Some(b) {
                        return 1;
                    }
                }
                if let Some(r) = self.or_disjoint(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.cv(na.b) {
                            let nk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, nk);
                        }
                    }
                    if w == 1 {
                        // k == 1 : negate comparison
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => (),
                        }
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let t = self.bin(Op::Xor, na.b, b);
                        let e = self.bin(Op::Xor, na.c, b);
                        return self.ite(na.a, t, e);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let x = self.extract(a, 0, w - k as u16);
                    let z = self.konst(k as u16, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let x = self.extract(a, k as u16, w - k as u16);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return 1;
                }
                if let Some(k) = kb {
                    if w == 1 && aw == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::Ite => {
                            let (x, y) = (self.cv(na.b), self.cv(na.c));
                            if x.is_some() || y.is_some() {
                                let t = self.bin(Op::Eq, na.b, b);
                                let e = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, t, e);
                            }
                        }
                        Op::Zext => {
                            let iw = self.w(na.a);
                            if k > m(iw) {
                                return 0;
                            }
                            let nk = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, nk);
                        }
                        Op::Sext => {
                            let iw = self.w(na.a);
                            let kk = k & m(iw);
                            if (sx(kk, iw) as u128 & m(aw)) != k {
                                return 0;
                            }
                            let nk = self.konst(iw, kk);
                            return self.bin(Op::Eq, na.a, nk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cv(na.b) {
                                let nk = self.konst(aw, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, nk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cv(na.b) {
                                let nk = self.konst(aw, k ^ k2);
                                return self.bin(Op::Eq, na.a, nk);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kl = self.konst(lw, k & m(lw));
                            let kh = self.konst(hw, k >> lw);
                            let l = self.bin(Op::Eq, na.b, kl);
                            let h = self.bin(Op::Eq, na.a, kh);
                            return self.bin(Op::And, h, l);
                        }
                        _ => (),
                    }
                } else {
                    if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return 0;
                }
                if kb == Some(0) {
                    return 0;
                }
                if kb == Some(1) {
                    let z = self.konst(aw, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return 1;
                }
                if kb == Some(m(aw)) {
                    return 1;
                }
                if self.cv(a) == Some(0) {
                    return 1;
                }
                if kb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return (op == Op::Sle) as E;
                }
                // both sides known non-negative -> unsigned
                if self.nonneg(a) && self.nonneg(b) {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                // x < 0 with x = zext -> false, handled above by nonneg on const 0
                if op == Op::Slt && kb == Some(0) {
                    let sgn = self.extract(a, aw - 1, 1);
                    return sgn;
                }
                if op == Op::Sle && self.cv(a) == Some(0) {
                    let sgn = self.extract(b, aw - 1, 1);
                    return self.not(sgn);
                }
                if op == Op::Slt && self.cv(a) == Some(m(aw)) {
                    let sgn = self.extract(b, aw - 1, 1);
                    return self.not(sgn);
                }
                if na.op == Op::Ite && kb.is_some() && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                    let t = self.bin(op, na.b, b);
                    let e = self.bin(op, na.c, b);
                    return self.ite(na.a, t, e);
                }
            }
            _ => (),
        }
        // range based folding and narrowing
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        match op {
            Op::Eq if ra.1 < rb.0 || rb.1 < ra.0 => return 0,
            Op::Ult => {
                if ra.1 < rb.0 {
                    return 1;
                }
                if ra.0 >= rb.1 {
                    return 0;
                }
            }
            Op::Ule => {
                if ra.1 <= rb.0 {
                    return 1;
                }
                if ra.0 > rb.1 {
                    return 0;
                }
            }
            Op::UDiv if rb.0 > 0 && ra.1 < rb.0 => return self.konst(w, 0),
            Op::URem if rb.0 > 0 && ra.1 < rb.0 => return a,
            _ => (),
        }
        let need = match op {
            Op::Add => ra.1.checked_add(rb.1),
            Op::Mul => ra.1.checked_mul(rb.1),
            Op::UDiv | Op::URem if rb.0 > 0 => Some(ra.1.max(rb.1)),
            Op::Eq | Op::Ult | Op::Ule => Some(ra.1.max(rb.1)),
            _ => None,
        };
        if let Some(h) = need {
            let nw = (128 - h.leading_zeros()).max(1) as u16;
            if nw < aw {
                let x = self.extract(a, 0, nw);
                let y = self.extract(b, 0, nw);
                let r = self.bin(op, x, y);
                return if w == 1 { r } else { self.zext(r, w) };
            }
        }
        self.mk(op, w, a, b, u32::MAX, 0)
    }
    fn nonneg(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Const => (n.k >> (n.w - 1)) & 1 == 0,
            _ if n.w == 1 => false,
            Op::Zext => true,
            Op::Concat => self.nonneg(n.a),
            _ => self.rng[e as usize].1 <= m(n.w - 1),
        }
    }
    fn not_of(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.op == Op::Xor && n.w == 1 && n.b == 1 {
            return Some(n.a);
        }
        None
    }
    fn cmp_narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let na = self.n(a);
        let nb = self.n(b);
        // zext vs const / zext vs zext
        if na.op == Op::Zext {
            let iw = self.w(na.a);
            if let Some(k) = self.cv(b) {
                if k > m(iw) {
                    return Some(1);
                }
                let nk = self.konst(iw, k);
                return Some(self.bin(op, na.a, nk));
            }
            if nb.op == Op::Zext {
                let jw = self.w(nb.a);
                let x = iw.max(jw);
                let p = self.zext(na.a, x);
                let q = self.zext(nb.a, x);
                if x < na.w {
                    return Some(self.bin(op, p, q));
                }
            }
        }
        if nb.op == Op::Zext {
            let iw = self.w(nb.a);
            if let Some(k) = self.cv(a) {
                if k > m(iw) {
                    return Some(0);
                }
                let nk = self.konst(iw, k);
                return Some(self.bin(op, nk, nb.a));
            }
        }
        if na.op == Op::Ite && self.cv(b).is_some() && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
            let t = self.bin(op, na.b, b);
            let e = self.bin(op, na.c, b);
            return Some(self.ite(na.a, t, e));
        }
        if nb.op == Op::Ite && self.cv(a).is_some() && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
            let t = self.bin(op, a, nb.b);
            let e = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, t, e));
        }
        None
    }
    /// Or of values whose set bits cannot overlap, as concatenation.
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let na = self.n(a);
        let nb = self.n(b);
        let (hi, lo, nh, nl) = if na.op == Op::Concat && self.cv(na.b) == Some(0) {
            (a, b, na, nb)
        } else if nb.op == Op::Concat && self.cv(nb.b) == Some(0) {
            (b, a, nb, na)
        } else {
            return None;
        };
        let _ = hi;
        let zw = self.w(nh.b);
        // low value must fit in zw bits
        match nl.op {
            Op::Zext if self.w(nl.a) <= zw => {
                let l = self.zext(nl.a, zw);
                Some(self.concat(nh.a, l))
            }
            Op::Const if nl.k <= m(zw) => {
                let l = self.konst(zw, nl.k);
                Some(self.concat(nh.a, l))
            }
            Op::Concat => {
                // hi part of lo must be zero above zw
                let lw = self.w(nl.b);
                if self.cv(nl.a) == Some(0) && lw <= zw {
                    let l = self.extract(lo, 0, zw);
                    return Some(self.concat(nh.a, l));
                }
                if let Node { op: Op::Zext, a: ia, .. } = self.n(nl.a) {
                    if self.w(ia) + lw <= zw {
                        let l = self.extract(lo, 0, zw);
                        return Some(self.concat(nh.a, l));
                    }
                }
                None
            }
            _ => None,
        }
    }

    pub fn ite(&mut self, c: E, t: E, e: E) -> E {
        if c == 1 {
            return t;
        }
        if c == 0 {
            return e;
        }
        if t == e {
            return t;
        }
        let w = self.w(t);
        if let Some(nc) = self.not_of(c) {
            return self.ite(nc, e, t);
        }
        if w == 1 {
            if t == 1 && e == 0 {
                return c;
            }
            if t == 0 && e == 1 {
                return self.not(c);
            }
            if t == 1 {
                return self.bin(Op::Or, c, e);
            }
            if e == 0 {
                return self.bin(Op::And, c, t);
            }
            if t == 0 {
                let nc = self.not(c);
                return self.bin(Op::And, nc, e);
            }
            if e == 1 {
                let nc = self.not(c);
                return self.bin(Op::Or, nc, t);
            }
        }
        let nt = self.n(t);
        let ne = self.n(e);
        if ne.op == Op::Ite && ne.b == t {
            // c ? t : (d ? t : f)
            let cc = self.bin(Op::Or, c, ne.a);
            return self.ite(cc, t, ne.c);
        }
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, e);
        }
        if ne.op == Op::Ite && ne.a == c {
            return self.ite(c, t, ne.c);
        }
        if nt.op == Op::Zext && ne.op == Op::Zext && self.w(nt.a) == self.w(ne.a) {
            let x = self.ite(c, nt.a, ne.a);
            return self.zext(x, w);
        }
        self.mk(Op::Ite, w, c, t, e, 0)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(k) = self.cv(a) {
            return self.konst(w, k);
        }
        let n = self.n(a);
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let t = self.zext(n.b, w);
            let e = self.zext(n.c, w);
            return self.ite(n.a, t, e);
        }
        self.mk(Op::Zext, w, a, u32::MAX, u32::MAX, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.konst(w, sx(k, aw) as u128);
        }
        let n = self.n(a);
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if n.op == Op::Sext {
            return self.sext(n.a, w);
        }
        if aw == 1 {
            let t = self.konst(w, m(w));
            let e = self.konst(w, 0);
            return self.ite(a, t, e);
        }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let t = self.sext(n.b, w);
            let e = self.sext(n.c, w);
            return self.ite(n.a, t, e);
        }
        self.mk(Op::Sext, w, a, u32::MAX, u32::MAX, 0)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} from {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.konst(w, k >> lo);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let t = self.extract(n.b, lo, w);
                    let e = self.extract(n.c, lo, w);
                    return self.ite(n.a, t, e);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let t = self.extract(n.a, lo, w);
                let e = self.extract(n.b, lo, w);
                return self.bin(n.op, t, e);
            }
            Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                let t = self.extract(n.a, 0, w);
                let e = self.extract(n.b, 0, w);
                return self.bin(n.op, t, e);
            }
            _ => (),
        }
        self.mk(Op::Extract, w, a, u32::MAX, u32::MAX, lo as u128)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) {
            return self.konst(w, (x << lw) | y);
        }
        if self.cv(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let nh = self.n(hi);
        let nl = self.n(lo);
        // adjacent extracts of one value
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // extract(x, lw..) ++ x-low (x itself narrower): extract(x,k,..) ++ extract folded to var is covered above
        if nh.op == Op::Zext {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        // hi = extract over y with lo = (extract . concat ...) : try merging hi with top of lo
        if nl.op == Op::Concat {
            let nlh = self.n(nl.a);
            if nh.op == Op::Extract && nlh.op == Op::Extract && nh.a == nlh.a && nh.k == nlh.k + nlh.w as u128 {
                let h = self.extract(nh.a, nlh.k as u16, hw + nlh.w);
                return self.concat(h, nl.b);
            }
            // right-nested normal form merges constants
            if let (Some(x), Some(y)) = (self.cv(hi), self.cv(nl.a)) {
                let h = self.konst(hw + nlh.w, (x << nlh.w) | y);
                return self.concat(h, nl.b);
            }
        }
        if nh.op == Op::Concat {
            // normalise to right-nested
            let l = self.concat(nh.b, lo);
            return self.concat(nh.a, l);
        }
        self.mk(Op::Concat, w, hi, lo, u32::MAX, 0)
    }
    /// unary / parameterised operators (floating point and conversions)
    pub fn un(&mut self, op: Op, w: u16, a: E, k: u128) -> E {
        let aw = self.w(a);
        if let Some(x) = self.cv(a) {
            let v = apply(op, w, aw, x, 0, 0, k);
            return self.konst(w, v);
        }
        self.mk(op, w, a, u32::MAX, u32::MAX, k)
    }

    /// The values of a node depending on one byte only, for each value of that byte.
    pub fn column(&mut self, e: E, var: usize) -> std::rc::Rc<[u128; 256]> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let mut t = [0u128; 256];
        if self.depth[e as usize] < 10 {
            let mut mm = vec![0u8; var + 1];
            for v in 0..256 {
                mm[var] = v as u8;
                t[v] = self.eval(e, &mm);
            }
            return std::rc::Rc::new(t);
        }
        if self.tabs.len() > 40_000 {
            self.tabs.clear();
        }
        let n = self.nodes[e as usize];
        let a = self.column(n.a, var);
        let aw = self.nodes[n.a as usize].w;
        match n.op {
            Op::Ite => {
                let (x, y) = (self.column(n.b, var), self.column(n.c, var));
                for v in 0..256 {
                    t[v] = if a[v] != 0 { x[v] } else { y[v] };
                }
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w;
                let b = self.column(n.b, var);
                for v in 0..256 {
                    t[v] = a[v] << lw | b[v];
                }
            }
            _ if n.b == u32::MAX => {
                for v in 0..256 {
                    t[v] = apply(n.op, n.w, aw, a[v], 0, 0, n.k);
                }
            }
            _ => {
                let b = self.column(n.b, var);
                for v in 0..256 {
                    t[v] = apply(n.op, n.w, aw, a[v], b[v], 0, n.k);
                }
            }
        }
        let t = std::rc::Rc::new(t);
        self.tabs.insert(e, t.clone());
        t
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            self.stamp.iter_mut().for_each(|x| *x = 0);
            self.cur = 1;
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *model.get(n.k as usize).unwrap_or(&0) as u128,
            _ => (),
        }
        if self.stamp[e as usize] == self.cur {
            return self.memo[e as usize];
        }
        let a = self.ev(n.a, model);
        let r = match n.op {
            Op::Ite => {
                if a != 0 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w;
                (a << lw) | self.ev(n.b, model)
            }
            _ => {
                let b = if n.b != u32::MAX { self.ev(n.b, model) } else { 0 };
                let aw = self.nodes[n.a as usize].w;
                apply(n.op, n.w, aw, a, b, 0, n.k)
            }
        };
        self.stamp[e as usize] = self.cur;
        self.memo[e as usize] = r;
        r
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("x{}", n.k),
            _ => {
                if depth == 0 {
                    return format!("#{}", e);
                }
                let mut s = format!("({:?}.{}", n.op, n.w);
                if n.k != 0 || n.op == Op::Extract {
                    s += &format!("@{}", n.k);
                }
                for x in [n.a, n.b, n.c] {
                    if x != u32::MAX {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
