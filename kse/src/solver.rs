//! Solver front end: independence slicing, query cache, z3 through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Cfg = *mut c_void;
type Params = *mut c_void;
type Sym = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_set_param_value(c: Cfg, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sort(c: Ctx, e: c_uint, s: c_uint) -> Sort;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, r: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, r: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    unsafe {
        let s = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {}: {:?}", e, s);
    }
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Answer {
    Unsat,
    Sat(Vec<(usize, u8)>),
    Unknown,
}

pub struct Solv {
    c: Ctx,
    fast: Solver,
    bv_logic: Sym,
    fp_logic: Sym,
    timeout_key: Sym,
    asts: HashMap<(E, bool), Ast>, // bool: as Bool sort
    cache: HashMap<Box<[E]>, Answer>,
    tables: HashMap<E, [u64; 4], std::hash::BuildHasherDefault<FxHasher>>,
    confirmed: std::collections::HashSet<([u64; 4], [u64; 4])>,
    pub tabled: u64,
    /// one-byte formulas refuted by their truth table where z3 gave up confirming it
    pub table_only: u64,
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub slow: u64,
    pub time: f64,
    pub fast_ms: u32,
    pub slow_ms: u32,
    table_ms: u32,
    pub max_ms: u128,
    fresh_count: u32,
}

impl Solv {
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(seed: u64) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mk = |s: &str| {
                let s = CString::new(s).unwrap();
                Z3_mk_string_symbol(c, s.as_ptr())
            };
            let _ = seed;
            let mut s = Solv {
                c,
                fast: std::ptr::null_mut(),
                bv_logic: mk("QF_BV"),
                fp_logic: mk("QF_BVFP"),
                timeout_key: mk("timeout"),
                asts: HashMap::new(),
                cache: HashMap::new(),
                tables: HashMap::default(),
                confirmed: Default::default(),
                tabled: 0,
                table_only: 0,
                queries: 0,
                cached: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                slow: 0,
                time: 0.0,
                fast_ms: 1500,
                slow_ms: 300_000,
                table_ms: 250,
                max_ms: 0,
                fresh_count: 0,
            };
            s.reset_fast();
            s
        }
    }
    unsafe fn params(&self, ms: u32) -> Params {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        Z3_params_set_uint(self.c, p, self.timeout_key, ms);
        p
    }
    unsafe fn reset_fast(&mut self) {
        if !self.fast.is_null() {
            Z3_solver_dec_ref(self.c, self.fast);
        }
        self.fast = Z3_mk_simple_solver(self.c);
        Z3_solver_inc_ref(self.c, self.fast);
        let p = self.params(self.fast_ms);
        Z3_solver_set_params(self.c, self.fast, p);
        self.fresh_count = 0;
    }
    unsafe fn fsort(&self, w: u16) -> Sort {
        if w == 64 {
            Z3_mk_fpa_sort(self.c, 11, 53)
        } else {
            Z3_mk_fpa_sort(self.c, 8, 24)
        }
    }
    unsafe fn fp(&mut self, ar: &Arena, e: E) -> Ast {
        let a = self.bv(ar, e);
        Z3_mk_fpa_to_fp_bv(self.c, a, self.fsort(ar.w(e)))
    }
    unsafe fn num(&self, w: u16, k: u128) -> Ast {
        let s = CString::new(k.to_string()).unwrap();
        Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w as c_uint))
    }
    unsafe fn from_fp(&self, w: u16, f: Ast) -> Ast {
        let nan = Z3_mk_fpa_is_nan(self.c, f);
        let k = self.num(w, if w == 64 { 0x7ff8000000000000 } else { 0x7fc00000 });
        let b = Z3_mk_fpa_to_ieee_bv(self.c, f);
        Z3_mk_ite(self.c, nan, k, b)
    }
    unsafe fn bl(&mut self, ar: &Arena, e: E) -> Ast {
        debug_assert_eq!(ar.w(e), 1);
        if let Some(&a) = self.asts.get(&(e, true)) {
            return a;
        }
        let c = self.c;
        let n = ar.nodes[e as usize];
        let r = match n.op {
            Op::Const => {
                if n.k == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::And => {
                let x = [self.bl(ar, n.a), self.bl(ar, n.b)];
                Z3_mk_and(c, 2, x.as_ptr())
            }
            Op::Or => {
                let x = [self.bl(ar, n.a), self.bl(ar, n.b)];
                Z3_mk_or(c, 2, x.as_ptr())
            }
            Op::Xor => {
                if n.b == 1 {
                    let a = self.bl(ar, n.a);
                    Z3_mk_not(c, a)
                } else {
                    let (a, b) = (self.bl(ar, n.a), self.bl(ar, n.b));
                    Z3_mk_xor(c, a, b)
                }
            }
            Op::Eq => {
                if ar.w(n.a) == 1 {
                    let (a, b) = (self.bl(ar, n.a), self.bl(ar, n.b));
                    Z3_mk_eq(c, a, b)
                } else {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    Z3_mk_eq(c, a, b)
                }
            }
            Op::Ult => {
                let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                Z3_mk_bvult(c, a, b)
            }
            Op::Ule => {
                let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                Z3_mk_bvule(c, a, b)
            }
            Op::Slt => {
                let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                Z3_mk_bvslt(c, a, b)
            }
            Op::Sle => {
                let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                Z3_mk_bvsle(c, a, b)
            }
            Op::FEq => {
                let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                Z3_mk_fpa_eq(c, a, b)
            }
            Op::FLt => {
                let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                Z3_mk_fpa_lt(c, a, b)
            }
            Op::FLe => {
                let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                Z3_mk_fpa_leq(c, a, b)
            }
            Op::FIsNan => {
                let a = self.fp(ar, n.a);
                Z3_mk_fpa_is_nan(c, a)
            }
            Op::Ite => {
                let (a, b, d) = (self.bl(ar, n.a), self.bl(ar, n.b), self.bl(ar, n.c));
                Z3_mk_ite(c, a, b, d)
            }
            _ => {
                let a = self.bv(ar, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, a, one)
            }
        };
        self.asts.insert((e, true), r);
        r
    }
    unsafe fn bv(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.asts.get(&(e, false)) {
            return a;
        }
        let c = self.c;
        let n = ar.nodes[e as usize];
        macro_rules! b2 {
            ($f:ident) => {{
                let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                $f(c, a, b)
            }};
        }
        macro_rules! f2 {
            ($f:ident) => {{
                let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                let r = $f(c, Z3_mk_fpa_rne(c), a, b);
                self.from_fp(n.w, r)
            }};
        }
        let r = match n.op {
            Op::Const => self.num(n.w, n.k),
            Op::Var => {
                let s = CString::new(format!("x{}", n.k)).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8))
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => {
                let a = self.bl(ar, e);
                Z3_mk_ite(c, a, self.num(1, 1), self.num(1, 0))
            }
            Op::Add => b2!(Z3_mk_bvadd),
            Op::Sub => b2!(Z3_mk_bvsub),
            Op::Mul => b2!(Z3_mk_bvmul),
            Op::MulHi => {
                let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                let w = n.w as c_uint;
                let (a, b) = (Z3_mk_zero_ext(c, w, a), Z3_mk_zero_ext(c, w, b));
                Z3_mk_extract(c, 2 * w - 1, w, Z3_mk_bvmul(c, a, b))
            }
            Op::UDiv => b2!(Z3_mk_bvudiv),
            Op::URem => b2!(Z3_mk_bvurem),
            Op::SDiv => b2!(Z3_mk_bvsdiv),
            Op::SRem => b2!(Z3_mk_bvsrem),
            Op::And => b2!(Z3_mk_bvand),
            Op::Or => b2!(Z3_mk_bvor),
            Op::Xor => b2!(Z3_mk_bvxor),
            Op::Shl => b2!(Z3_mk_bvshl),
            Op::LShr => b2!(Z3_mk_bvlshr),
            Op::AShr => b2!(Z3_mk_bvashr),
            Op::Ite => {
                let (a, b, d) = (self.bl(ar, n.a), self.bv(ar, n.b), self.bv(ar, n.c));
                Z3_mk_ite(c, a, b, d)
            }
            Op::Zext => {
                let a = self.bv(ar, n.a);
                Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
            }
            Op::Sext => {
                let a = self.bv(ar, n.a);
                Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
            }
            Op::Extract => {
                let a = self.bv(ar, n.a);
                let lo = n.k as c_uint;
                Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, a)
            }
            Op::Concat => b2!(Z3_mk_concat),
            Op::FAdd => f2!(Z3_mk_fpa_add),
            Op::FSub => f2!(Z3_mk_fpa_sub),
            Op::FMul => f2!(Z3_mk_fpa_mul),
            Op::FDiv => f2!(Z3_mk_fpa_div),
            Op::FRem => {
                eprintln!("frem not supported symbolically");
                std::process::exit(3)
            }
            Op::FSqrt => {
                let a = self.fp(ar, n.a);
                let r = Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a);
                self.from_fp(n.w, r)
            }
            Op::FRound => {
                let a = self.fp(ar, n.a);
                let rm = match n.k {
                    0 => Z3_mk_fpa_rne(c),
                    1 => Z3_mk_fpa_rna(c),
                    2 => Z3_mk_fpa_rtp(c),
                    3 => Z3_mk_fpa_rtn(c),
                    _ => Z3_mk_fpa_rtz(c),
                };
                let r = Z3_mk_fpa_round_to_integral(c, rm, a);
                self.from_fp(n.w, r)
            }
            Op::UIToFP => {
                let a = self.bv(ar, n.a);
                let r = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w));
                self.from_fp(n.w, r)
            }
            Op::SIToFP => {
                let a = self.bv(ar, n.a);
                let r = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w));
                self.from_fp(n.w, r)
            }
            Op::FPToUI => {
                let a = self.fp(ar, n.a);
                Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint)
            }
            Op::FPToSI => {
                let a = self.fp(ar, n.a);
                Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint)
            }
            Op::FPCvt => {
                let a = self.fp(ar, n.a);
                let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w));
                self.from_fp(n.w, r)
            }
        };
        self.asts.insert((e, false), r);
        r
    }

    /// Constraints of `pc` transitively sharing variables with `cond`.
    fn slice(ar: &Arena, pc: &[E], cond: E) -> (Vec<E>, Mask) {
        let mut mask = ar.mask[cond as usize];
        let mut used = vec![false; pc.len()];
        let mut out = vec![cond];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if !used[i] && mask_hit(&ar.mask[p as usize], &mask) {
                    used[i] = true;
                    out.push(p);
                    let nm = mask_or(&mask, &ar.mask[p as usize]);
                    if nm != mask {
                        mask = nm;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (out, mask)
    }

    /// Is `pc && cond` satisfiable?  `pc` alone is known satisfiable.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], cond: E) -> Answer {
        if cond == 0 {
            return Answer::Unsat;
        }
        self.queries += 1;
        let cm = ar.mask[cond as usize];
        let mut table_empty = None;
        if mask_count(&cm) == 1 {
            // one-byte condition: its 256-row truth table against the byte's domain
            let var = mask_bits(&cm)[0];
            let t = self.table(ar, cond, var);
            let mut d = [!0u64; 4];
            let mut linked = false;
            for &p in pc {
                let pm = &ar.mask[p as usize];
                if mask_hit(pm, &cm) {
                    if mask_sub(pm, &cm) {
                        let q = self.table(ar, p, var);
                        for i in 0..4 {
                            d[i] &= q[i];
                        }
                    } else {
                        linked = true;
                    }
                }
            }
            let x = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            if x == [0; 4] {
                if self.confirmed.contains(&(d, t)) {
                    self.tabled += 1;
                    return Answer::Unsat;
                }
                if self.table_only >= 12 {
                    // z3 keeps giving up on this arithmetic: the table is decisive by itself
                    self.table_only += 1;
                    self.confirmed.insert((d, t));
                    return Answer::Unsat;
                }
                table_empty = Some((d, t));
            } else if !linked {
                self.tabled += 1;
                let v = (0..256).find(|i| x[i / 64] >> (i % 64) & 1 == 1).unwrap();
                return Answer::Sat(vec![(var, v as u8)]);
            }
        }
        let (mut cs, mask) = if table_empty.is_some() {
            let mut v: Vec<E> = pc.iter().cloned().filter(|&p| mask_sub(&ar.mask[p as usize], &cm)).collect();
            v.push(cond);
            (v, cm)
        } else {
            Self::slice(ar, pc, cond)
        };
        cs.sort_unstable();
        cs.dedup();
        if let Some(a) = self.cache.get(&cs[..]) {
            self.cached += 1;
            return a.clone();
        }
        let t0 = Instant::now();
        let vars = mask_bits(&mask);
        let has_fp = cs.iter().any(|&e| has_fp(ar, e));
        let mut ans = Answer::Unknown;
        unsafe {
            if !has_fp {
                self.fresh_count += 1;
                if self.fresh_count > 2000 || table_empty.is_some() {
                    self.reset_fast();
                }
                if table_empty.is_some() {
                    let p = self.params(self.table_ms);
                    Z3_solver_set_params(self.c, self.fast, p);
                }
                Z3_solver_push(self.c, self.fast);
                for &e in &cs {
                    let a = self.bl(ar, e);
                    Z3_solver_assert(self.c, self.fast, a);
                }
                ans = self.run(self.fast, ar, &vars);
                Z3_solver_pop(self.c, self.fast, 1);
            }
            if table_empty.is_some() && !has_fp {
                self.reset_fast();
            } else if let Answer::Unknown = ans {
                self.slow += 1;
                self.reset_fast();
                let s = Z3_mk_solver_for_logic(self.c, if has_fp { self.fp_logic } else { self.bv_logic });
                Z3_solver_inc_ref(self.c, s);
                let p = self.params(if table_empty.is_some() { self.table_ms } else { self.slow_ms });
                Z3_solver_set_params(self.c, s, p);
                for &e in &cs {
                    let a = self.bl(ar, e);
                    Z3_solver_assert(self.c, s, a);
                }
                ans = self.run(s, ar, &vars);
                Z3_solver_dec_ref(self.c, s);
            }
        }
        let dt = t0.elapsed();
        self.time += dt.as_secs_f64();
        self.max_ms = self.max_ms.max(dt.as_millis());
        if std::env::var("KSE_SLOW").is_ok() && dt.as_millis() > 20 {
            eprintln!("SLOW {}ms n={} vars={:?} {} {}", dt.as_millis(), cs.len(), vars, matches!(ans, Answer::Unsat), ar.show(cond, 9));
        }
        match &ans {
            Answer::Sat(mdl) => {
                self.sat += 1;
                // the model must satisfy the query under our own evaluator
                let mut mm = vec![0u8; NV * 64];
                for &(i, v) in mdl {
                    mm[i] = v;
                }
                for &e in &cs {
                    if ar.eval(e, &mm) != 1 {
                        eprintln!("model mismatch on {}", ar.show(e, 12));
                        std::process::exit(3);
                    }
                }
            }
            Answer::Unsat => self.unsat += 1,
            Answer::Unknown => self.unknown += 1,
        }
        if let Some(k) = table_empty {
            // z3 has to agree with the truth table
            if matches!(ans, Answer::Unknown) {
                self.unknown -= 1;
                self.table_only += 1;
            } else if !matches!(ans, Answer::Unsat) {
                eprintln!("truth table disagreement on {}", ar.show(cond, 12));
                std::process::exit(3);
            }
            self.confirmed.insert(k);
            return Answer::Unsat;
        }
        if !matches!(ans, Answer::Unknown) {
            self.cache.insert(cs.into_boxed_slice(), ans.clone());
        }
        ans
    }
    fn table(&mut self, ar: &mut Arena, e: E, var: usize) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        let col = ar.column(e, var);
        for v in 0..256usize {
            if col[v] == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.tables.insert(e, t);
        t
    }
    unsafe fn run(&mut self, s: Solver, ar: &mut Arena, vars: &[usize]) -> Answer {
        match Z3_solver_check(self.c, s) {
            -1 => Answer::Unsat,
            1 => {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for &v in vars {
                    let e = ar.var(v);
                    let a = self.bv(ar, e);
                    let mut r: Ast = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, a, true, &mut r);
                    let mut x = 0u64;
                    Z3_get_numeral_uint64(self.c, r, &mut x);
                    out.push((v, x as u8));
                }
                Z3_model_dec_ref(self.c, m);
                Answer::Sat(out)
            }
            _ => Answer::Unknown,
        }
    }
}

fn has_fp(ar: &Arena, e: E) -> bool {
    // small memo would be possible; DAGs with fp are small and fp is rare
    fn go(ar: &Arena, e: E, seen: &mut std::collections::HashSet<E>) -> bool {
        if !seen.insert(e) {
            return false;
        }
        let n = ar.nodes[e as usize];
        if matches!(
            n.op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FRound | Op::FEq | Op::FLt | Op::FLe
                | Op::FIsNan | Op::UIToFP | Op::SIToFP | Op::FPToUI | Op::FPToSI | Op::FPCvt
        ) {
            return true;
        }
        if n.op == Op::Const || n.op == Op::Var {
            return false;
        }
        [n.a, n.b, n.c].iter().any(|&x| x != u32::MAX && go(ar, x, seen))
    }
    go(ar, e, &mut std::collections::HashSet::new())
}
