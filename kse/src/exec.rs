//! Path-forking symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Frame {
    f: *const Func,
    bb: u32,
    ip: u32,
    regs: Vec<Val>,
    sp: u64,
    ret: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<E>,
    model: Vec<u8>,
    nvars: usize,
    insts: u64,
    obs: Vec<Val>,
    covers: Vec<u32>,
    tls: u64,
}

pub enum Stop {
    Done,       // path finished normally
    Dead,       // infeasible / assumed away
    Panic(String),
    Fail(u32),  // unconditional failure
    Err(String),
}

pub struct Violation {
    pub kind: String,
    pub code: u32,
    pub bytes: Vec<u8>,
    pub at: String,
}
pub struct Sample {
    pub bytes: Vec<u8>,
    pub obs: Vec<u128>,
    pub covers: Vec<u32>,
}

pub struct Exec {
    pub md: Module,
    pub ar: Arena,
    pub sv: Solv,
    pub work: Vec<State>,
    pub params: Vec<u64>,
    pub funcs: BTreeSet<u32>,
    exts: HashMap<u32, Option<&'static str>>,
    // results
    pub paths: u64,
    pub dead: u64,
    pub forks: u64,
    pub insts: u64,
    pub panics: u64,
    pub checks: u64,
    pub viols: Vec<Violation>,
    pub covers: BTreeMap<u32, (u64, Vec<u8>)>,
    pub samples: Vec<Sample>,
    pub incomplete: Option<String>,
    pub max_viol: usize,
    pub deadline: Instant,
    pub max_insts: u64,
    pub max_sym: usize,
    pub sample_every: u64,
    pub max_mem_mb: u64,
    pub panic_ok: bool,
    pub profile: Option<HashMap<(u32, u32), u64>>,
    cur_fn_ids: HashMap<*const Func, u32>,
}

type R<T> = Result<T, Stop>;

fn c(v: &Val) -> Option<u128> {
    match v {
        Val::C(k) => Some(*k),
        _ => None,
    }
}

impl Exec {
    pub fn new(md: Module, params: Vec<u64>, seed: u64, limit_s: f64) -> Self {
        Exec {
            md,
            ar: Arena::new(),
            sv: Solv::new(seed),
            work: vec![],
            params,
            funcs: BTreeSet::new(),
            exts: HashMap::new(),
            paths: 0,
            dead: 0,
            forks: 0,
            insts: 0,
            panics: 0,
            checks: 0,
            viols: vec![],
            covers: BTreeMap::new(),
            samples: vec![],
            incomplete: None,
            max_viol: 1,
            deadline: Instant::now() + Duration::from_secs_f64(limit_s),
            max_insts: 200_000_000,
            max_sym: 0,
            sample_every: 1,
            max_mem_mb: 6000,
            panic_ok: false,
            profile: None,
            cur_fn_ids: HashMap::new(),
        }
    }

    fn val(&self, e: E) -> Val {
        match self.ar.cv(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }
    fn ex(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(k) => self.ar.konst(w, *k),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }

    pub fn run(&mut self, entry: &str) {
        let id = match self.md.fn_by_name.get(entry) {
            Some(&i) => i,
            None => {
                self.incomplete = Some(format!("no entry {}", entry));
                return;
            }
        };
        let image = Rc::new(std::mem::take(&mut self.md.image));
        let mut st = State {
            frames: vec![],
            mem: Mem::new(image),
            pc: vec![],
            model: vec![],
            nvars: 0,
            insts: 0,
            obs: vec![],
            covers: vec![],
            tls: 0,
        };
        self.push_frame(&mut st, id, vec![], None, None).ok();
        self.work.push(st);
        let mut tick = 0u64;
        while let Some(mut st) = self.work.pop() {
            let stop = self.path(&mut st);
            self.insts += st.insts;
            self.max_sym = self.max_sym.max(st.nvars);
            match stop {
                Stop::Done => {
                    self.paths += 1;
                    for &cv in &st.covers {
                        let bytes = st.model[..st.nvars].to_vec();
                        let e = self.covers.entry(cv).or_insert((0, bytes));
                        e.0 += 1;
                    }
                    if self.paths % self.sample_every == 0 && self.samples.len() < 64 {
                        let m = st.model.clone();
                        let obs = st
                            .obs
                            .iter()
                            .map(|v| match v {
                                Val::C(k) => *k,
                                Val::S(e) => self.ar.eval(*e, &m),
                                _ => 0,
                            })
                            .collect();
                        self.samples.push(Sample { bytes: st.model[..st.nvars].to_vec(), obs, covers: st.covers.clone() });
                        if self.samples.len() == 64 {
                            // thin out and widen the stride
                            let mut i = 0;
                            self.samples.retain(|_| {
                                i += 1;
                                i % 2 == 0
                            });
                            self.sample_every *= 2;
                        }
                    }
                }
                Stop::Dead => self.dead += 1,
                Stop::Panic(at) => {
                    self.paths += 1;
                    self.panics += 1;
                    self.viols.push(Violation { kind: "panic".into(), code: 0, bytes: st.model[..st.nvars].to_vec(), at });
                }
                Stop::Fail(code) => {
                    self.paths += 1;
                    let at = self.trace(&st);
                    self.viols.push(Violation { kind: "fail".into(), code, bytes: st.model[..st.nvars].to_vec(), at });
                }
                Stop::Err(e) => {
                    let t = self.trace(&st);
                    let hx: String = st.model[..st.nvars].iter().map(|b| format!("{:02x}", b)).collect();
                    self.incomplete = Some(format!("{} at {} model {}", e, t, hx));
                    return;
                }
            }
            if self.viols.len() >= self.max_viol {
                return;
            }
            tick += 1;
            if tick % 16 == 0 {
                if Instant::now() > self.deadline {
                    self.incomplete = Some(format!("time limit, {} states pending", self.work.len()));
                    return;
                }
                if tick % 1024 == 0 && rss_mb() > self.max_mem_mb {
                    self.incomplete = Some("memory limit".into());
                    return;
                }
            }
        }
    }

    fn trace(&self, st: &State) -> String {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| unsafe { let g: &Func = &*f.f; format!("{}#{}:{}", short(&g.name), g.blocks[f.bb as usize].name, f.ip) })
            .collect::<Vec<_>>()
            .join(" < ")
    }

    fn push_frame(&mut self, st: &mut State, id: u32, args: Vec<Val>, ret: Option<u32>, normal: Option<u32>) -> R<()> {
        let f = match self.md.code(id) {
            Some(f) => f,
            None => return Err(Stop::Err(format!("no body: {}", self.md.fns[id as usize].name))),
        };
        if st.frames.len() > 20000 {
            return Err(Stop::Err("call depth".into()));
        }
        if self.funcs.insert(id) {
            self.cur_fn_ids.insert(Rc::as_ptr(&f), id);
        }
        let mut regs = args;
        if regs.len() != f.nparams {
            return Err(Stop::Err(format!("arg count for {}", f.name)));
        }
        regs.resize(f.nregs as usize, Val::C(0));
        st.frames.push(Frame { f: Rc::as_ptr(&f), bb: 0, ip: 0, regs, sp: st.mem.stack_top, ret, normal });
        Ok(())
    }

    fn path(&mut self, st: &mut State) -> Stop {
        let mut n = 0u32;
        loop {
            match self.step(st) {
                Ok(()) => (),
                Err(s) => return s,
            }
            st.insts += 1;
            n += 1;
            if n & 0xfffff == 0 {
                if st.insts > self.max_insts {
                    return Stop::Err("instruction cap".into());
                }
                if Instant::now() > self.deadline {
                    return Stop::Err("time limit inside path".into());
                }
            }
        }
    }

    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    fn add_pc(&mut self, st: &mut State, e: E) {
        let n = self.ar.nodes[e as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if e != 1 && !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }
    fn upd(model: &mut Vec<u8>, m: &[(usize, u8)]) {
        for &(i, v) in m {
            if i >= model.len() {
                model.resize(i + 1, 0);
            }
            model[i] = v;
        }
    }
    fn ask(&mut self, st: &State, e: E) -> R<Option<Vec<(usize, u8)>>> {
        match self.sv.check(&mut self.ar, &st.pc, e) {
            Answer::Unsat => Ok(None),
            Answer::Sat(m) => Ok(Some(m)),
            Answer::Unknown => Err(Stop::Err(format!("solver unknown on {}", self.ar.show(e, 6)))),
        }
    }

    /// Decide a symbolic condition; forks when both outcomes are feasible. The forked sibling
    /// re-executes the current instruction.
    fn decide(&mut self, st: &mut State, e: E) -> R<bool> {
        if e <= 1 {
            return Ok(e == 1);
        }
        let v = self.ar.eval(e, &st.model) == 1;
        let ne = self.ar.not(e);
        let (mine, other) = if v { (e, ne) } else { (ne, e) };
        if let Some(m) = self.ask(st, other)? {
            let mut s2 = st.clone();
            self.add_pc(&mut s2, other);
            Self::upd(&mut s2.model, &m);
            self.forks += 1;
            if let Some(p) = &mut self.profile {
                let f = st.frames.last().unwrap();
                let id = *self.cur_fn_ids.get(&f.f).unwrap_or(&0);
                *p.entry((id, f.bb)).or_insert(0) += 1;
            }
            self.work.push(s2);
            self.add_pc(st, mine);
        }
        Ok(v)
    }

    /// A concrete value for `o`, forking over the alternatives.
    fn conc(&mut self, st: &mut State, o: &Opd, w: u16) -> R<u128> {
        let v = self.get(st, o);
        match v {
            Val::C(k) => Ok(k),
            Val::S(e) => {
                let k = self.conc_e(st, e, w)?;
                if let Opd::R(r) = o {
                    self.set(st, *r, Val::C(k));
                }
                Ok(k)
            }
            _ => Err(Stop::Err("conc of aggregate".into())),
        }
    }
    fn conc_e(&mut self, st: &mut State, e: E, w: u16) -> R<u128> {
        let k = self.ar.eval(e, &st.model);
        let ke = self.ar.konst(w, k);
        let eq = self.ar.eq(e, ke);
        let ok = self.decide(st, eq)?;
        debug_assert!(ok);
        Ok(k)
    }

    fn chk(&self, st: &State, a: u64, n: u64) -> R<()> {
        if st.mem.valid(a, n) {
            Ok(())
        } else {
            Err(Stop::Err(format!("bad address {:#x}+{}", a, n)))
        }
    }

    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => {
                let w = ty.bits();
                let n = (w as usize + 7) / 8;
                self.chk(st, a, n as u64)?;
                if let Some(k) = st.mem.read_c(a, n) {
                    return Ok(Val::C(k & m(w)));
                }
                let mut e: Option<E> = None;
                for i in 0..n {
                    let (b, s) = st.mem.get(a + i as u64);
                    let x = if s != 0 { s } else { self.ar.konst(8, b as u128) };
                    e = Some(match e {
                        None => x,
                        Some(lo) => self.ar.concat(x, lo),
                    });
                }
                let mut e = e.unwrap();
                if w as usize != n * 8 {
                    e = self.ar.extract(e, 0, w);
                }
                Ok(self.val(e))
            }
            Ty::Vec(n, t) if t.bits() == 1 => {
                let mut v = vec![];
                for i in 0..*n {
                    let b = self.load(st, a + (i / 8) as u64, &Ty::Int(8))?;
                    let e = self.ex(&b, 8);
                    let x = self.ar.extract(e, (i % 8) as u16, 1);
                    v.push(self.val(x));
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut v = Vec::with_capacity(ty.nelem());
                for i in 0..ty.nelem() {
                    v.push(self.load(st, a + ty.field_off(i), ty.elem(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load {:?}", ty))),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => {
                let w = ty.bits();
                let n = (w as usize + 7) / 8;
                self.chk(st, a, n as u64)?;
                match v {
                    Val::C(k) => st.mem.write_c(a, n, *k),
                    Val::S(e) => {
                        let mut e = *e;
                        if w as usize != n * 8 {
                            e = self.ar.zext(e, n as u16 * 8);
                        }
                        for i in 0..n {
                            let x = self.ar.extract(e, i as u16 * 8, 8);
                            match self.ar.cv(x) {
                                Some(k) => st.mem.put(a + i as u64, k as u8, 0),
                                None => st.mem.put(a + i as u64, 0, x),
                            }
                        }
                    }
                    Val::Agg(_) => return Err(Stop::Err("store agg as scalar".into())),
                }
                Ok(())
            }
            Ty::Vec(_, t) if t.bits() == 1 => Err(Stop::Err("store <n x i1>".into())),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Val::Agg(vs) = v {
                    for i in 0..ty.nelem() {
                        self.store(st, a + ty.field_off(i), ty.elem(i), &vs[i])?;
                    }
                    Ok(())
                } else {
                    Err(Stop::Err("store scalar as agg".into()))
                }
            }
            _ => Err(Stop::Err(format!("store {:?}", ty))),
        }
    }

    /// Load through a symbolic address: an if-then-else over every feasible location.
    fn sym_load(&mut self, st: &mut State, o: &Opd, e: E, ty: &Ty) -> R<Val> {
        let mask = self.ar.mask[e as usize];
        let mut addrs: Vec<u64> = vec![];
        let scalar = matches!(ty, Ty::Int(_) | Ty::F(_));
        let mut ok = false;
        if scalar && mask_count(&mask) == 1 {
            let var = mask_bits(&mask)[0];
            let own: Vec<E> = st.pc.iter().cloned().filter(|p| mask_sub(&self.ar.mask[*p as usize], &mask)).collect();
            let mut model = st.model.clone();
            if model.len() <= var {
                model.resize(var + 1, 0);
            }
            for v in 0..=255u8 {
                model[var] = v;
                if own.iter().all(|p| self.ar.eval(*p, &model) == 1) {
                    addrs.push(self.ar.eval(e, &model) as u64);
                }
            }
            addrs.sort_unstable();
            addrs.dedup();
            ok = true;
        } else if scalar && self.ar.rng[e as usize].1 - self.ar.rng[e as usize].0 <= 1024 {
            // every location inside the address range, with the stride given by constant low bits
            let (lo, hi) = self.ar.rng[e as usize];
            let mut step = 1;
            while step < 16 {
                let b = self.ar.extract(e, 0, (step as u128 * 2).trailing_zeros() as u16);
                match self.ar.cv(b) {
                    Some(k) if k == lo & (step as u128 * 2 - 1) => step *= 2,
                    _ => break,
                }
            }
            addrs = (lo as u64..=hi as u64).step_by(step).collect();
            ok = true;
        } else if scalar {
            // enumerate with the solver
            let mut excl = 1;
            let mut cur = self.ar.eval(e, &st.model) as u64;
            loop {
                addrs.push(cur);
                let ke = self.ar.konst(64, cur as u128);
                let ne = {
                    let q = self.ar.eq(e, ke);
                    self.ar.not(q)
                };
                excl = self.ar.and1(excl, ne);
                match self.ask(st, excl)? {
                    None => {
                        ok = true;
                        break;
                    }
                    Some(mm) => {
                        let mut model = st.model.clone();
                        Self::upd(&mut model, &mm);
                        cur = self.ar.eval(e, &model) as u64;
                    }
                }
                if addrs.len() > 24 {
                    break;
                }
            }
        }
        if !ok {
            let a = self.conc(st, o, 64)? as u64;
            return self.load(st, a, ty);
        }
        let w = ty.bits();
        let n = (w as u64 + 7) / 8;
        // group locations by the value found there
        let mut groups: Vec<(E, E)> = vec![]; // (value, condition)
        let mut index: HashMap<E, usize> = HashMap::new();
        for a in addrs {
            let ka = self.ar.konst(64, a as u128);
            let eq = self.ar.eq(e, ka);
            if !st.mem.valid(a, n) {
                if self.ask(st, eq)?.is_some() {
                    return Err(Stop::Err(format!("bad symbolic address {:#x}", a)));
                }
                continue;
            }
            let v = self.load(st, a, ty)?;
            let ve = self.ex(&v, w);
            match index.get(&ve) {
                Some(&i) => {
                    let cc = self.ar.or1(groups[i].1, eq);
                    groups[i].1 = cc;
                }
                None => {
                    index.insert(ve, groups.len());
                    groups.push((ve, eq));
                }
            }
        }
        let mut r = groups.pop().unwrap().0;
        for (v, cnd) in groups.into_iter().rev() {
            r = self.ar.ite(cnd, v, r);
        }
        Ok(self.val(r))
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let f = unsafe { &*fr.f };
        let from = fr.bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let v = pick(fr, inc, from)?;
                fr.regs[*d as usize] = v;
            } else {
                let mut vs: Vec<Val> = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    vs.push(pick(fr, inc, from)?);
                }
                for ((d, _), v) in b.phis.iter().zip(vs) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }

    fn binop(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        let eop = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            BinOp::FRem => Op::FRem,
        };
        if w > 128 {
            return self.wide(op, w, a, b);
        }
        match (a, b) {
            (Val::C(x), Val::C(y)) => Ok(Val::C(apply(eop, w, w, *x, *y, 0, 0))),
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.binop(op, w, &x[i], &y[i])?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => {
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.ar.bin(eop, x, y);
                Ok(self.val(r))
            }
        }
    }
    /// 256-bit integers are pairs of halves, low one first; only what compiled code needs of them.
    fn wide(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        let half = |v: &Val| match v {
            Val::Agg(x) => (x[0].clone(), x[1].clone()),
            x => (x.clone(), Val::C(0)),
        };
        let ((al, ah), (bl, bh)) = (half(a), half(b));
        let k = |n: u128| Val::C(n);
        if w != 256 {
            return Err(Stop::Err(format!("{} bit arithmetic", w)));
        }
        let (lo, hi) = match (op, c(&ah), c(&bl), c(&bh)) {
            (BinOp::Mul, Some(0), _, Some(0)) => {
                let lo = self.binop(BinOp::Mul, 128, &al, &bl)?;
                let (x, y) = (self.ex(&al, 128), self.ex(&bl, 128));
                let h = self.ar.bin(Op::MulHi, x, y);
                (lo, self.val(h))
            }
            (BinOp::LShr, _, Some(n), Some(0)) if n >= 128 => (self.binop(BinOp::LShr, 128, &ah, &k(n - 128))?, k(0)),
            (BinOp::LShr, _, Some(n), Some(0)) if n > 0 => {
                let x = self.binop(BinOp::LShr, 128, &al, &k(n))?;
                let y = self.binop(BinOp::Shl, 128, &ah, &k(128 - n))?;
                (self.binop(BinOp::Or, 128, &x, &y)?, self.binop(BinOp::LShr, 128, &ah, &k(n))?)
            }
            _ => return Err(Stop::Err("256 bit arithmetic".into())),
        };
        Ok(Val::Agg(Rc::new(vec![lo, hi])))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => {
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx(*x, w) > sx(*y, w),
                    Pred::Sge => sx(*x, w) >= sx(*y, w),
                    Pred::Slt => sx(*x, w) < sx(*y, w),
                    Pred::Sle => sx(*x, w) <= sx(*y, w),
                };
                Val::C(r as u128)
            }
            (Val::Agg(x), Val::Agg(y)) => {
                let v = (0..x.len()).map(|i| self.icmp(p, w, &x[i], &y[i])).collect();
                Val::Agg(Rc::new(v))
            }
            _ => {
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let e = match p {
                    Pred::Eq => self.ar.bin(Op::Eq, x, y),
                    Pred::Ne => {
                        let q = self.ar.bin(Op::Eq, x, y);
                        self.ar.not(q)
                    }
                    Pred::Ugt => self.ar.bin(Op::Ult, y, x),
                    Pred::Uge => self.ar.bin(Op::Ule, y, x),
                    Pred::Ult => self.ar.bin(Op::Ult, x, y),
                    Pred::Ule => self.ar.bin(Op::Ule, x, y),
                    Pred::Sgt => self.ar.bin(Op::Slt, y, x),
                    Pred::Sge => self.ar.bin(Op::Sle, y, x),
                    Pred::Slt => self.ar.bin(Op::Slt, x, y),
                    Pred::Sle => self.ar.bin(Op::Sle, x, y),
                };
                self.val(e)
            }
        }
    }
    fn fcmp(&mut self, p: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let nx = self.ar.un(Op::FIsNan, 1, x, 0);
        let ny = self.ar.un(Op::FIsNan, 1, y, 0);
        let uno = self.ar.or1(nx, ny);
        let base = &p[1..];
        let e = match p {
            "ord" => self.ar.not(uno),
            "uno" => uno,
            "true" => 1,
            "false" => 0,
            _ => {
                let o = match base {
                    "eq" => self.ar.bin(Op::FEq, x, y),
                    "lt" => self.ar.bin(Op::FLt, x, y),
                    "le" => self.ar.bin(Op::FLe, x, y),
                    "gt" => self.ar.bin(Op::FLt, y, x),
                    "ge" => self.ar.bin(Op::FLe, y, x),
                    "ne" => {
                        // ordered and not equal
                        let q = self.ar.bin(Op::FEq, x, y);
                        let nq = self.ar.not(q);
                        let no = self.ar.not(uno);
                        self.ar.and1(nq, no)
                    }
                    _ => return Err(Stop::Err(format!("fcmp {}", p))),
                };
                if p.starts_with('u') {
                    self.ar.or1(o, uno)
                } else {
                    o
                }
            }
        };
        Ok(self.val(e))
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if let (Ty::Vec(n, ft), CastOp::Bitcast) = (from, op) {
            // vector -> scalar or vector -> vector: go through one wide value (<=128 bits)
            let fw = ft.bits();
            let total = fw * *n as u16;
            if total > 128 {
                return Err(Stop::Err("wide bitcast".into()));
            }
            let vs = match v {
                Val::Agg(x) => x.clone(),
                _ => return Err(Stop::Err("bitcast".into())),
            };
            let mut acc: Option<E> = None;
            for x in vs.iter() {
                let e = self.ex(x, fw);
                acc = Some(match acc {
                    None => e,
                    Some(lo) => self.ar.concat(e, lo),
                });
            }
            let acc = acc.unwrap();
            return match to {
                Ty::Vec(k, tt) => {
                    let tw = tt.bits();
                    let mut out = vec![];
                    for i in 0..*k {
                        let x = self.ar.extract(acc, i as u16 * tw, tw);
                        out.push(self.val(x));
                    }
                    Ok(Val::Agg(Rc::new(out)))
                }
                _ => Ok(self.val(acc)),
            };
        }
        if let (Ty::Vec(k, tt), CastOp::Bitcast) = (to, op) {
            let tw = tt.bits();
            let e = self.ex(v, from.bits());
            let mut out = vec![];
            for i in 0..*k {
                let x = self.ar.extract(e, i as u16 * tw, tw);
                out.push(self.val(x));
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        if let (Ty::Vec(_, ft), Ty::Vec(_, tt)) = (from, to) {
            if let Val::Agg(vs) = v {
                let mut out = vec![];
                for x in vs.iter() {
                    out.push(self.cast(op, ft, tt, x)?);
                }
                return Ok(Val::Agg(Rc::new(out)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        if tw > 128 && op == CastOp::Zext && fw <= 128 {
            let e = self.ex(v, fw);
            let e = self.ar.zext(e, 128);
            return Ok(Val::Agg(Rc::new(vec![self.val(e), Val::C(0)])));
        }
        if let (CastOp::Trunc, true, Val::Agg(x)) = (op, fw == 256, v) {
            let e = self.ex(&x[0], 128);
            let e = self.ar.extract(e, 0, tw);
            return Ok(self.val(e));
        }
        if tw > 128 || (fw > 128 && matches!(v, Val::Agg(_))) {
            return Err(Stop::Err("wide cast".into()));
        }
        if let Val::C(k) = v {
            let r = match op {
                CastOp::Zext | CastOp::Bitcast => *k,
                CastOp::Sext => sx(*k, fw) as u128 & m(tw),
                CastOp::Trunc => *k & m(tw),
                CastOp::UIToFP => apply(Op::UIToFP, tw, fw, *k, 0, 0, 0),
                CastOp::SIToFP => apply(Op::SIToFP, tw, fw, *k, 0, 0, 0),
                CastOp::FPToUI => apply(Op::FPToUI, tw, fw, *k, 0, 0, 0),
                CastOp::FPToSI => apply(Op::FPToSI, tw, fw, *k, 0, 0, 0),
                CastOp::FPCvt => apply(Op::FPCvt, tw, fw, *k, 0, 0, 0),
            };
            return Ok(Val::C(r));
        }
        let e = self.ex(v, fw);
        let r = match op {
            CastOp::Zext => self.ar.zext(e, tw),
            CastOp::Bitcast => e,
            CastOp::Sext => self.ar.sext(e, tw),
            CastOp::Trunc => self.ar.extract(e, 0, tw),
            CastOp::UIToFP => self.ar.un(Op::UIToFP, tw, e, 0),
            CastOp::SIToFP => self.ar.un(Op::SIToFP, tw, e, 0),
            CastOp::FPToUI => self.ar.un(Op::FPToUI, tw, e, 0),
            CastOp::FPToSI => self.ar.un(Op::FPToSI, tw, e, 0),
            CastOp::FPCvt => self.ar.un(Op::FPCvt, tw, e, 0),
        };
        Ok(self.val(r))
    }
    fn select(&mut self, cnd: E, ty: &Ty, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let v = (0..x.len()).map(|i| self.select(cnd, ty.elem(i), &x[i], &y[i])).collect();
                Val::Agg(Rc::new(v))
            }
            _ => {
                let w = ty.bits();
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.ar.ite(cnd, x, y);
                self.val(r)
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = unsafe { &*fr.f };
        let inst: &'static Inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        match inst {
            Inst::Bin { op, ty, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let w = match ty {
                    Ty::Vec(_, t) => t.bits(),
                    t => t.bits(),
                };
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) && c(&y) == Some(0) {
                    return Err(Stop::Err("division by zero".into()));
                }
                let r = self.binop(*op, w, &x, &y)?;
                self.set(st, *d, r);
            }
            Inst::FNeg { ty, d, a } => {
                let x = self.get(st, a);
                let w = ty.bits();
                let r = self.binop(BinOp::Xor, w, &x, &Val::C(1u128 << (w - 1)))?;
                self.set(st, *d, r);
            }
            Inst::Icmp { p, ty, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let w = match ty {
                    Ty::Vec(_, t) => t.bits(),
                    t => t.bits(),
                };
                let r = self.icmp(*p, w, &x, &y);
                self.set(st, *d, r);
            }
            Inst::Fcmp { p, ty, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = self.fcmp(p, ty.bits(), &x, &y)?;
                self.set(st, *d, r);
            }
            Inst::Cast { op, from, to, d, a } => {
                let x = self.get(st, a);
                let r = self.cast(*op, from, to, &x)?;
                self.set(st, *d, r);
            }
            Inst::Load { d, ty, p } => {
                let r = match self.get(st, p) {
                    Val::C(a) => self.load(st, a as u64, ty)?,
                    Val::S(e) => self.sym_load(st, p, e, ty)?,
                    _ => return Err(Stop::Err("load addr".into())),
                };
                self.set(st, *d, r);
            }
            Inst::Store { ty, v, p } => {
                let a = self.conc(st, p, 64)? as u64;
                let x = self.get(st, v);
                self.store(st, a, ty, &x)?;
            }
            Inst::Gep { d, base, off, idx } => {
                let b = self.get(st, base);
                let mut acc = match b {
                    Val::C(k) => Val::C((k as u64).wrapping_add(*off) as u128),
                    v => self.binop(BinOp::Add, 64, &v, &Val::C(*off as u128))?,
                };
                for (o, w, sc) in idx {
                    let v = self.get(st, o);
                    match (&acc, &v) {
                        (Val::C(x), Val::C(k)) => {
                            acc = Val::C((*x as u64).wrapping_add((sx(*k, *w) as u64).wrapping_mul(*sc)) as u128)
                        }
                        _ => {
                            let e = self.ex(&v, *w);
                            let e = if *w > 64 { self.ar.extract(e, 0, 64) } else { self.ar.sext(e, 64) };
                            let s = self.ar.konst(64, *sc as u128);
                            let t = self.ar.bin(Op::Mul, e, s);
                            let x = self.ex(&acc, 64);
                            let r = self.ar.bin(Op::Add, x, t);
                            acc = self.val(r);
                        }
                    }
                }
                self.set(st, *d, acc);
            }
            Inst::Br(t) => return self.jump(st, *t),
            Inst::CondBr(cnd, t, e) => {
                let k = match self.get(st, cnd) {
                    Val::C(k) => k == 1,
                    Val::S(x) => {
                        let r = self.decide(st, x)?;
                        if let Opd::R(rg) = cnd {
                            self.set(st, *rg, Val::C(r as u128));
                        }
                        r
                    }
                    _ => return Err(Stop::Err("br".into())),
                };
                return self.jump(st, if k { *t } else { *e });
            }
            Inst::Switch { w, v, def, cases } => {
                match self.get(st, v) {
                    Val::C(k) => {
                        let t = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def);
                        return self.jump(st, t);
                    }
                    Val::S(e) => {
                        // group by target
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut none = 1;
                        for (k, t) in cases {
                            let ke = self.ar.konst(*w, *k);
                            let q = self.ar.eq(e, ke);
                            let nq = self.ar.not(q);
                            none = self.ar.and1(none, nq);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *t) {
                                g.1 = self.ar.or1(g.1, q);
                            } else {
                                groups.push((*t, q));
                            }
                        }
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == *def) {
                            g.1 = self.ar.or1(g.1, none);
                        } else {
                            groups.push((*def, none));
                        }
                        let mut mine = None;
                        let mut others = vec![];
                        for (t, cnd) in groups {
                            if self.ar.eval(cnd, &st.model) == 1 {
                                mine = Some((t, cnd));
                            } else if let Some(mm) = self.ask(st, cnd)? {
                                others.push((t, cnd, mm));
                            }
                        }
                        let (t, cnd) = mine.unwrap();
                        for (t2, c2, mm) in others.iter() {
                            let mut s2 = st.clone();
                            self.add_pc(&mut s2, *c2);
                            Self::upd(&mut s2.model, mm);
                            self.forks += 1;
                            if let Some(p) = &mut self.profile {
                                let f = st.frames.last().unwrap();
                                let id = *self.cur_fn_ids.get(&f.f).unwrap_or(&0);
                                *p.entry((id, f.bb)).or_insert(0) += 1;
                            }
                            self.jump(&mut s2, *t2)?;
                            self.work.push(s2);
                        }
                        if !others.is_empty() {
                            self.add_pc(st, cnd);
                        }
                        return self.jump(st, t);
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
            }
            Inst::Select { d, c: cnd, cty, ty, a, b } => {
                if let Ty::Vec(..) = cty {
                    let cv = self.get(st, cnd);
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    if let (Val::Agg(cv), Val::Agg(x), Val::Agg(y)) = (cv, x, y) {
                        let mut out = vec![];
                        for i in 0..cv.len() {
                            let ce = self.ex(&cv[i], 1);
                            out.push(self.select(ce, ty.elem(i), &x[i], &y[i]));
                        }
                        self.set(st, *d, Val::Agg(Rc::new(out)));
                    } else {
                        return Err(Stop::Err("vector select".into()));
                    }
                } else {
                    let r = match self.get(st, cnd) {
                        Val::C(1) => self.get(st, a),
                        Val::C(_) => self.get(st, b),
                        Val::S(e) => {
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            if *ty == Ty::Ptr {
                                if self.decide(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.select(e, ty, &x, &y)
                            }
                        }
                        _ => return Err(Stop::Err("select".into())),
                    };
                    self.set(st, *d, r);
                }
            }
            Inst::Call { d, callee, args, rty, normal } => return self.call(st, *d, callee, args, rty, *normal),
            Inst::Ret(v) => {
                let r = v.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                st.mem.stack_top = fr.sp;
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, r) {
                    self.set(st, d, v);
                }
                if let Some(n) = fr.normal {
                    return self.jump(st, n);
                }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            Inst::Unreachable => return Err(Stop::Err("unreachable executed".into())),
            Inst::Extract { d, a, idx } => {
                let mut v = self.get(st, a);
                for &i in idx {
                    v = match v {
                        Val::Agg(x) => x[i].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Insert { d, a, ty: _, v, idx } => {
                let base = self.get(st, a);
                let x = self.get(st, v);
                fn ins(b: &Val, idx: &[usize], x: Val) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    match b {
                        Val::Agg(v) => {
                            let mut n = (**v).clone();
                            n[idx[0]] = ins(&v[idx[0]], &idx[1..], x);
                            Val::Agg(Rc::new(n))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&base, idx, x);
                self.set(st, *d, r);
            }
            Inst::Alloca { d, size, align } => {
                let a = st.mem.push_stack(*size, *align);
                self.set(st, *d, Val::C(a as u128));
            }
            Inst::Rmw { d, op, ty, p, v } => {
                let a = self.conc(st, p, 64)? as u64;
                let old = self.load(st, a, ty)?;
                let x = self.get(st, v);
                let w = ty.bits();
                let new = match op.as_str() {
                    "add" => self.binop(BinOp::Add, w, &old, &x)?,
                    "sub" => self.binop(BinOp::Sub, w, &old, &x)?,
                    "and" => self.binop(BinOp::And, w, &old, &x)?,
                    "or" => self.binop(BinOp::Or, w, &old, &x)?,
                    "xor" => self.binop(BinOp::Xor, w, &old, &x)?,
                    "xchg" => x,
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.store(st, a, ty, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg { d, ty, p, c: cm, n } => {
                let a = self.conc(st, p, 64)? as u64;
                let old = self.load(st, a, ty)?;
                let cv = self.get(st, cm);
                let nv = self.get(st, n);
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &cv);
                match eq {
                    Val::C(1) => self.store(st, a, ty, &nv)?,
                    Val::C(_) => (),
                    _ => return Err(Stop::Err("symbolic cmpxchg".into())),
                }
                self.set(st, *d, Val::Agg(Rc::new(vec![old, eq])));
            }
            Inst::Copy { d, a } => {
                let v = self.get(st, a);
                self.set(st, *d, v);
            }
            Inst::ExtElem { d, a, i } => {
                let k = self.conc(st, i, 64)? as usize;
                if let Val::Agg(v) = self.get(st, a) {
                    let x = v[k].clone();
                    self.set(st, *d, x);
                }
            }
            Inst::InsElem { d, a, v, i } => {
                let k = self.conc(st, i, 64)? as usize;
                let x = self.get(st, v);
                if let Val::Agg(vs) = self.get(st, a) {
                    let mut n = (*vs).clone();
                    n[k] = x;
                    self.set(st, *d, Val::Agg(Rc::new(n)));
                }
            }
            Inst::Shuffle { d, a, b, mask } => {
                if let (Val::Agg(x), Val::Agg(y)) = (self.get(st, a), self.get(st, b)) {
                    let v = mask.iter().map(|&i| if i < x.len() { x[i].clone() } else { y[(i - x.len()) % y.len()].clone() }).collect();
                    self.set(st, *d, Val::Agg(Rc::new(v)));
                }
            }
            Inst::Nop => (),
            Inst::Bad(s) => return Err(Stop::Err(format!("unsupported instruction {}", s))),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn fin(&mut self, st: &mut State, d: Option<u32>, v: Val, normal: Option<u32>) -> R<()> {
        if let Some(d) = d {
            self.set(st, d, v);
        }
        if let Some(n) = normal {
            return self.jump(st, n);
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, callee: &'static Callee, args: &'static [(Ty, Opd)], rty: &'static Ty, normal: Option<u32>) -> R<()> {
        let id = match callee {
            Callee::Fn(id) => *id,
            Callee::Op(o) => {
                let a = self.conc(st, o, 64)? as u64;
                if a < FBASE || (a - FBASE) / 16 >= self.md.fns.len() as u64 {
                    return Err(Stop::Err(format!("indirect call to {:#x}", a)));
                }
                ((a - FBASE) / 16) as u32
            }
            Callee::Intrinsic(n) => {
                let v = self.intrinsic(st, n, args, rty)?;
                return self.fin(st, d, v, normal);
            }
            Callee::Asm => return self.fin(st, d, Val::C(0), normal),
        };
        let ext = match self.exts.get(&id) {
            Some(x) => *x,
            None => {
                let x = classify(&self.md.fns[id as usize].name, self.md.fns[id as usize].body.is_some());
                self.exts.insert(id, x);
                x
            }
        };
        if let Some(n) = ext {
            let v = self.external(st, n, args, id)?;
            return self.fin(st, d, v, normal);
        }
        let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
        self.push_frame(st, id, vals, d, normal)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &'static [(Ty, Opd)], rty: &Ty) -> R<Val> {
        if n.starts_with("llvm.lifetime")
            || n.starts_with("llvm.experimental.noalias")
            || n.starts_with("llvm.assume")
            || n.starts_with("llvm.dbg")
            || n.starts_with("llvm.prefetch")
            || n.starts_with("llvm.invariant")
            || n.starts_with("llvm.x86.sse2.pause")
        {
            return Ok(Val::C(0));
        }
        if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") {
            let k = self.conc(st, &args[2].1, 64)? as u64;
            let dst = self.conc(st, &args[0].1, 64)? as u64;
            let src = self.conc(st, &args[1].1, 64)? as u64;
            if k > 0 {
                self.chk(st, dst, k)?;
                self.chk(st, src, k)?;
                st.mem.copy(dst, src, k);
            }
            return Ok(Val::C(0));
        }
        if n.starts_with("llvm.memset") {
            let k = self.conc(st, &args[2].1, 64)? as u64;
            let dst = self.conc(st, &args[0].1, 64)? as u64;
            let b = self.get(st, &args[1].1);
            if k > 0 {
                self.chk(st, dst, k)?;
                for i in 0..k {
                    match b {
                        Val::C(x) => st.mem.put(dst + i, x as u8, 0),
                        Val::S(e) => st.mem.put(dst + i, 0, e),
                        _ => (),
                    }
                }
            }
            return Ok(Val::C(0));
        }
        if n.starts_with("llvm.trap") {
            return Err(Stop::Panic(self.trace(st)));
        }
        if n.starts_with("llvm.threadlocal.address") {
            return Ok(self.get(st, &args[0].1));
        }
        if n.starts_with("llvm.is.constant") {
            return Ok(Val::C(0));
        }
        if n.starts_with("llvm.expect") || n.starts_with("llvm.ptrmask") || n.starts_with("llvm.launder") || n.starts_with("llvm.strip") {
            if n.starts_with("llvm.ptrmask") {
                let (a, b) = (self.get(st, &args[0].1), self.get(st, &args[1].1));
                return self.binop(BinOp::And, 64, &a, &b);
            }
            return Ok(self.get(st, &args[0].1));
        }
        let a = self.get(st, &args[0].1);
        // vector intrinsics elementwise
        if let Val::Agg(_) = a {
            return Err(Stop::Err(format!("vector intrinsic {}", n)));
        }
        let w = args[0].0.bits();
        let x = self.ex(&a, w);
        let y = if args.len() > 1 && matches!(args[1].0, Ty::Int(_) | Ty::F(_) | Ty::Ptr) {
            let b = self.get(st, &args[1].1);
            Some(self.ex(&b, args[1].0.bits()))
        } else {
            None
        };
        let base = n[5..].split('.').collect::<Vec<_>>();
        let r = match (base[0], *base.get(1).unwrap_or(&"")) {
            ("umin", _) => {
                let q = self.ar.bin(Op::Ult, x, y.unwrap());
                self.ar.ite(q, x, y.unwrap())
            }
            ("umax", _) => {
                let q = self.ar.bin(Op::Ult, x, y.unwrap());
                self.ar.ite(q, y.unwrap(), x)
            }
            ("smin", _) => {
                let q = self.ar.bin(Op::Slt, x, y.unwrap());
                self.ar.ite(q, x, y.unwrap())
            }
            ("smax", _) => {
                let q = self.ar.bin(Op::Slt, x, y.unwrap());
                self.ar.ite(q, y.unwrap(), x)
            }
            ("abs", _) => {
                let z = self.ar.konst(w, 0);
                let q = self.ar.bin(Op::Slt, x, z);
                let ng = self.ar.bin(Op::Sub, z, x);
                self.ar.ite(q, ng, x)
            }
            ("ucmp", _) | ("scmp", _) => {
                let rw = rty.bits();
                let o = if base[0] == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = self.ar.bin(o, x, y.unwrap());
                let gt = self.ar.bin(o, y.unwrap(), x);
                let (mo, on, ze) = (self.ar.konst(rw, m(rw)), self.ar.konst(rw, 1), self.ar.konst(rw, 0));
                let t = self.ar.ite(gt, on, ze);
                self.ar.ite(lt, mo, t)
            }
            ("uadd", "sat") => {
                let s = self.ar.bin(Op::Add, x, y.unwrap());
                let ov = self.ar.bin(Op::Ult, s, x);
                let mx = self.ar.konst(w, m(w));
                self.ar.ite(ov, mx, s)
            }
            ("usub", "sat") => {
                let s = self.ar.bin(Op::Sub, x, y.unwrap());
                let ov = self.ar.bin(Op::Ult, x, y.unwrap());
                let z = self.ar.konst(w, 0);
                self.ar.ite(ov, z, s)
            }
            ("uadd", "with") | ("usub", "with") | ("sadd", "with") | ("ssub", "with") | ("umul", "with") | ("smul", "with") => {
                return self.ovf(base[0], w, x, y.unwrap());
            }
            ("ctpop", _) => {
                let mut acc = self.ar.konst(w, 0);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let z = self.ar.zext(b, w);
                    acc = self.ar.bin(Op::Add, acc, z);
                }
                acc
            }
            ("ctlz", _) => {
                // highest set bit wins
                let mut acc = self.ar.konst(w, w as u128);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let k = self.ar.konst(w, (w - 1 - i) as u128);
                    acc = self.ar.ite(b, k, acc);
                }
                acc
            }
            ("cttz", _) => {
                let mut acc = self.ar.konst(w, w as u128);
                for i in (0..w).rev() {
                    let b = self.ar.extract(x, i, 1);
                    let k = self.ar.konst(w, i as u128);
                    acc = self.ar.ite(b, k, acc);
                }
                acc
            }
            ("bswap", _) => {
                let mut acc: Option<E> = None;
                for i in (0..w / 8).rev() {
                    let b = self.ar.extract(x, i * 8, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(lo) => self.ar.concat(b, lo),
                    });
                }
                acc.unwrap()
            }
            ("bitreverse", _) => {
                let mut acc: Option<E> = None;
                for i in (0..w).rev() {
                    let b = self.ar.extract(x, i, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(lo) => self.ar.concat(b, lo),
                    });
                }
                acc.unwrap()
            }
            ("fshl", _) | ("fshr", _) => {
                let s = self.get(st, &args[2].1);
                let k = match s {
                    Val::C(k) => (k % w as u128) as u16,
                    _ => self.conc(st, &args[2].1, w)? as u16 % w,
                };
                let hi = x;
                let lo = y.unwrap();
                // fshl: (hi:lo << k) high word ; fshr: (hi:lo >> k) low word
                let k = if base[0] == "fshl" { k } else { (w - k) % w };
                if k == 0 {
                    if base[0] == "fshl" {
                        hi
                    } else {
                        lo
                    }
                } else {
                    let h = self.ar.extract(hi, 0, w - k);
                    let l = self.ar.extract(lo, w - k, k);
                    self.ar.concat(h, l)
                }
            }
            ("fabs", _) => {
                let lo = self.ar.extract(x, 0, w - 1);
                self.ar.zext(lo, w)
            }
            ("copysign", _) => {
                let lo = self.ar.extract(x, 0, w - 1);
                let s = self.ar.extract(y.unwrap(), w - 1, 1);
                self.ar.concat(s, lo)
            }
            ("floor", _) => self.ar.un(Op::FRound, w, x, 3),
            ("ceil", _) => self.ar.un(Op::FRound, w, x, 2),
            ("trunc", _) => self.ar.un(Op::FRound, w, x, 4),
            ("round", _) => self.ar.un(Op::FRound, w, x, 1),
            ("roundeven", _) | ("rint", _) | ("nearbyint", _) => self.ar.un(Op::FRound, w, x, 0),
            ("sqrt", _) => self.ar.un(Op::FSqrt, w, x, 0),
            ("minnum", _) | ("maxnum", _) | ("minimumnum", _) | ("maximumnum", _) => {
                let yy = y.unwrap();
                let nx = self.ar.un(Op::FIsNan, 1, x, 0);
                let ny = self.ar.un(Op::FIsNan, 1, yy, 0);
                let lt = if base[0].starts_with("min") { self.ar.bin(Op::FLt, x, yy) } else { self.ar.bin(Op::FLt, yy, x) };
                let t = self.ar.ite(lt, x, yy);
                let t = self.ar.ite(ny, x, t);
                self.ar.ite(nx, yy, t)
            }
            ("is", "fpclass") => {
                let mk = self.ar.cv(y.unwrap()).unwrap() as u32;
                self.fpclass(x, w, mk)
            }
            ("fptoui", "sat") => {
                let rw = rty.bits();
                self.fpsat(x, w, rw, false)
            }
            ("fptosi", "sat") => {
                let rw = rty.bits();
                self.fpsat(x, w, rw, true)
            }
            _ => return Err(Stop::Err(format!("intrinsic {}", n))),
        };
        Ok(self.val(r))
    }
    fn fpclass(&mut self, x: E, w: u16, mk: u32) -> E {
        let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
        let sign = self.ar.extract(x, w - 1, 1);
        let nsign = self.ar.not(sign);
        let ex = self.ar.extract(x, mb, eb);
        let ma = self.ar.extract(x, 0, mb);
        let eall = self.ar.konst(eb, m(eb));
        let ez = self.ar.konst(eb, 0);
        let mz = self.ar.konst(mb, 0);
        let e_ones = self.ar.eq(ex, eall);
        let e_zero = self.ar.eq(ex, ez);
        let m_zero = self.ar.eq(ma, mz);
        let m_nz = self.ar.not(m_zero);
        let quiet = self.ar.extract(x, mb - 1, 1);
        let nquiet = self.ar.not(quiet);
        let nan = self.ar.and1(e_ones, m_nz);
        let inf = self.ar.and1(e_ones, m_zero);
        let zero = self.ar.and1(e_zero, m_zero);
        let sub = self.ar.and1(e_zero, m_nz);
        let t1 = self.ar.not(e_ones);
        let t2 = self.ar.not(e_zero);
        let norm = self.ar.and1(t1, t2);
        let mut r = 0;
        let snan = self.ar.and1(nan, nquiet);
        let qnan = self.ar.and1(nan, quiet);
        let list = [
            (0, snan, None),
            (1, qnan, None),
            (2, inf, Some(sign)),
            (3, norm, Some(sign)),
            (4, sub, Some(sign)),
            (5, zero, Some(sign)),
            (6, zero, Some(nsign)),
            (7, sub, Some(nsign)),
            (8, norm, Some(nsign)),
            (9, inf, Some(nsign)),
        ];
        for (bit, cnd, sg) in list {
            if mk & (1 << bit) != 0 {
                let q = match sg {
                    Some(s) => self.ar.and1(cnd, s),
                    None => cnd,
                };
                r = self.ar.or1(r, q);
            }
        }
        r
    }
    fn fpsat(&mut self, x: E, w: u16, rw: u16, signed: bool) -> E {
        let mkf = |v: f64| -> u128 {
            if w == 64 {
                v.to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        };
        let nan = self.ar.un(Op::FIsNan, 1, x, 0);
        let z = self.ar.konst(rw, 0);
        if signed {
            let lim = 2f64.powi(rw as i32 - 1);
            let hi = self.ar.konst(w, mkf(lim));
            let lo = self.ar.konst(w, mkf(-lim));
            let mx = self.ar.konst(rw, m(rw - 1));
            let mn = self.ar.konst(rw, 1u128 << (rw - 1));
            let too_hi = self.ar.bin(Op::FLe, hi, x);
            let too_lo = self.ar.bin(Op::FLt, x, lo);
            let cv = self.ar.un(Op::FPToSI, rw, x, 0);
            let t = self.ar.ite(too_lo, mn, cv);
            let t = self.ar.ite(too_hi, mx, t);
            self.ar.ite(nan, z, t)
        } else {
            let lim = 2f64.powi(rw as i32);
            let hi = self.ar.konst(w, mkf(lim));
            let zero = self.ar.konst(w, 0);
            let mx = self.ar.konst(rw, m(rw));
            let too_hi = self.ar.bin(Op::FLe, hi, x);
            let neg = self.ar.bin(Op::FLt, x, zero);
            let cv = self.ar.un(Op::FPToUI, rw, x, 0);
            let t = self.ar.ite(neg, z, cv);
            let t = self.ar.ite(too_hi, mx, t);
            self.ar.ite(nan, z, t)
        }
    }
    fn ovf(&mut self, k: &str, w: u16, x: E, y: E) -> R<Val> {
        let (r, o) = match k {
            "uadd" => {
                let s = self.ar.bin(Op::Add, x, y);
                let o = self.ar.bin(Op::Ult, s, x);
                (s, o)
            }
            "usub" => {
                let s = self.ar.bin(Op::Sub, x, y);
                let o = self.ar.bin(Op::Ult, x, y);
                (s, o)
            }
            "sadd" | "ssub" => {
                let op = if k == "sadd" { Op::Add } else { Op::Sub };
                let s = self.ar.bin(op, x, y);
                let sxb = self.ar.extract(x, w - 1, 1);
                let syb = self.ar.extract(y, w - 1, 1);
                let ssb = self.ar.extract(s, w - 1, 1);
                let syb = if k == "sadd" { syb } else { self.ar.not(syb) };
                // overflow iff sign(x)==sign(y') and sign(s)!=sign(x)
                let a = self.ar.bin(Op::Xor, sxb, syb);
                let a = self.ar.not(a);
                let b = self.ar.bin(Op::Xor, ssb, sxb);
                let o = self.ar.and1(a, b);
                (s, o)
            }
            "umul" | "smul" => {
                let s = self.ar.bin(Op::Mul, x, y);
                if let (Some(a), Some(b)) = (self.ar.cv(x), self.ar.cv(y)) {
                    let o = if k == "umul" {
                        a.checked_mul(b).map(|v| v > m(w)).unwrap_or(true)
                    } else {
                        sx(a, w)
                            .checked_mul(sx(b, w))
                            .map(|v| sx(v as u128 & m(w), w) != v)
                            .unwrap_or(true)
                    };
                    (s, o as E)
                } else if k == "umul" && (self.ar.cv(y).is_some() || self.ar.cv(x).is_some()) {
                    let (v, kk) = if let Some(b) = self.ar.cv(y) { (x, b) } else { (y, self.ar.cv(x).unwrap()) };
                    if kk == 0 {
                        (s, 0)
                    } else {
                        let lim = self.ar.konst(w, m(w) / kk);
                        let o = self.ar.bin(Op::Ult, lim, v);
                        (s, o)
                    }
                } else if w <= 64 {
                    let (a, b) = if k == "umul" {
                        (self.ar.zext(x, w * 2), self.ar.zext(y, w * 2))
                    } else {
                        (self.ar.sext(x, w * 2), self.ar.sext(y, w * 2))
                    };
                    let p = self.ar.bin(Op::Mul, a, b);
                    let lo = self.ar.extract(p, 0, w);
                    let back = if k == "umul" { self.ar.zext(lo, w * 2) } else { self.ar.sext(lo, w * 2) };
                    let q = self.ar.eq(p, back);
                    let o = self.ar.not(q);
                    (s, o)
                } else if k == "smul" && (self.ar.cv(y).is_some() || self.ar.cv(x).is_some()) {
                    // signed 128-bit times a positive constant
                    let (v, kk) = if let Some(b) = self.ar.cv(y) { (x, b) } else { (y, self.ar.cv(x).unwrap()) };
                    let ki = sx(kk, w);
                    if ki <= 0 {
                        return Err(Stop::Err("smul by non-positive constant".into()));
                    }
                    let hi = self.ar.konst(w, (sx(m(w - 1), w) / ki) as u128);
                    let lo = self.ar.konst(w, (sx(1u128 << (w - 1), w) / ki) as u128);
                    let o1 = self.ar.bin(Op::Slt, hi, v);
                    let o2 = self.ar.bin(Op::Slt, v, lo);
                    let o = self.ar.or1(o1, o2);
                    (s, o)
                } else {
                    return Err(Stop::Err(format!("{}.i{} symbolic", k, w)));
                }
            }
            _ => unreachable!(),
        };
        Ok(Val::Agg(Rc::new(vec![self.val(r), self.val(o)])))
    }

    fn external(&mut self, st: &mut State, n: &'static str, args: &'static [(Ty, Opd)], id: u32) -> R<Val> {
        macro_rules! arg {
            ($i:expr) => {
                self.conc(st, &args[$i].1, args[$i].0.bits())? as u64
            };
        }
        match n {
            "panic" => Err(Stop::Panic(format!("{} < {}", short(&self.md.fns[id as usize].name), self.trace(st)))),
            "malloc" => {
                let s = arg!(0);
                if s > 1 << 28 {
                    return Err(Stop::Err(format!("malloc {}", s)));
                }
                Ok(Val::C(st.mem.alloc(s, 16) as u128))
            }
            "calloc" => {
                let s = arg!(0) * arg!(1);
                if s > 1 << 28 {
                    return Err(Stop::Err(format!("calloc {}", s)));
                }
                let a = st.mem.alloc(s, 16);
                for i in 0..s {
                    st.mem.put(a + i, 0, 0);
                }
                Ok(Val::C(a as u128))
            }
            "realloc" => {
                let s = arg!(1);
                let p = arg!(0);
                if s > 1 << 28 {
                    return Err(Stop::Err(format!("realloc {}", s)));
                }
                let a = st.mem.alloc(s, 16);
                if p != 0 {
                    let old = st.mem.size_of(p);
                    st.mem.copy(a, p, old.min(s));
                    st.mem.free(p);
                }
                Ok(Val::C(a as u128))
            }
            "posix_memalign" => {
                let al = arg!(1);
                let s = arg!(2);
                let pp = arg!(0);
                let a = st.mem.alloc(s, al.max(32));
                st.mem.write_u64(pp, a);
                Ok(Val::C(0))
            }
            "free" => {
                let p = arg!(0);
                st.mem.free(p);
                Ok(Val::C(0))
            }
            "bcmp" | "memcmp" => {
                let k = arg!(2);
                let a = arg!(0);
                let b = arg!(1);
                if k == 0 {
                    return Ok(Val::C(0));
                }
                self.chk(st, a, k)?;
                self.chk(st, b, k)?;
                // fold from the last byte to the first
                let mut acc = self.ar.konst(32, 0);
                let one = self.ar.konst(32, 1);
                let mone = self.ar.konst(32, m(32));
                for i in (0..k).rev() {
                    let x = self.load(st, a + i, &Ty::Int(8))?;
                    let y = self.load(st, b + i, &Ty::Int(8))?;
                    if let (Val::C(p), Val::C(q)) = (&x, &y) {
                        if p == q {
                            continue;
                        }
                        acc = if n == "bcmp" || p > q { one } else { mone };
                        continue;
                    }
                    let xe = self.ex(&x, 8);
                    let ye = self.ex(&y, 8);
                    let eq = self.ar.eq(xe, ye);
                    let df = if n == "bcmp" {
                        one
                    } else {
                        let lt = self.ar.bin(Op::Ult, xe, ye);
                        self.ar.ite(lt, mone, one)
                    };
                    acc = self.ar.ite(eq, acc, df);
                }
                Ok(self.val(acc))
            }
            "strlen" => {
                let mut a = arg!(0);
                let s = a;
                loop {
                    self.chk(st, a, 1)?;
                    let (b, sy) = st.mem.get(a);
                    if sy != 0 {
                        return Err(Stop::Err("strlen symbolic".into()));
                    }
                    if b == 0 {
                        break;
                    }
                    a += 1;
                }
                Ok(Val::C((a - s) as u128))
            }
            "getrandom" => {
                let k = arg!(1);
                let p = arg!(0);
                for i in 0..k {
                    st.mem.put(p + i, (i * 37 + 11) as u8, 0);
                }
                Ok(Val::C(k as u128))
            }
            "syscall" => {
                let nr = arg!(0);
                if nr == 318 {
                    let k = arg!(2);
                    let p = arg!(1);
                    for i in 0..k {
                        st.mem.put(p + i, (i * 37 + 11) as u8, 0);
                    }
                    return Ok(Val::C(k as u128));
                }
                Err(Stop::Err(format!("syscall {}", nr)))
            }
            "errno" => {
                if st.tls == 0 {
                    st.tls = st.mem.alloc(16, 16);
                }
                Ok(Val::C(st.tls as u128))
            }
            "zero" => Ok(Val::C(0)),
            // harness interface
            "kse_bytes" => {
                let k = arg!(1);
                let p = arg!(0);
                self.chk(st, p, k)?;
                for i in 0..k {
                    let v = st.nvars;
                    st.nvars += 1;
                    if v >= NV * 64 {
                        return Err(Stop::Err("too many symbolic bytes".into()));
                    }
                    let e = self.ar.var(v);
                    if st.model.len() <= v {
                        st.model.resize(v + 1, 0);
                    }
                    st.mem.put(p + i, 0, e);
                }
                Ok(Val::C(0))
            }
            "kse_param" => {
                let i = arg!(0) as usize;
                Ok(Val::C(*self.params.get(i).unwrap_or(&0) as u128))
            }
            "kse_assume" => {
                let w = args[0].0.bits();
                let v = self.get(st, &args[0].1);
                let e = self.ex(&v, w);
                let z = self.ar.konst(w, 0);
                let q = self.ar.eq(e, z);
                let cnd = self.ar.not(q);
                if cnd == 0 {
                    return Err(Stop::Dead);
                }
                if cnd != 1 {
                    if self.ar.eval(cnd, &st.model) != 1 {
                        match self.ask(st, cnd)? {
                            None => return Err(Stop::Dead),
                            Some(mm) => Self::upd(&mut st.model, &mm),
                        }
                    }
                    self.add_pc(st, cnd);
                }
                Ok(Val::C(0))
            }
            "kse_check" => {
                let w = args[0].0.bits();
                let v = self.get(st, &args[0].1);
                let code = arg!(1) as u32;
                let e = self.ex(&v, w);
                let z = self.ar.konst(w, 0);
                let bad = self.ar.eq(e, z);
                self.checks += 1;
                if bad == 1 {
                    return Err(Stop::Fail(code));
                }
                if bad != 0 {
                    let mm = if self.ar.eval(bad, &st.model) == 1 { Some(vec![]) } else { self.ask(st, bad)? };
                    if let Some(mm) = mm {
                        let mut m2 = st.model.clone();
                        Self::upd(&mut m2, &mm);
                        let at = self.trace(st);
                        self.viols.push(Violation { kind: "check".into(), code, bytes: m2[..st.nvars].to_vec(), at });
                        if self.viols.len() >= self.max_viol {
                            return Err(Stop::Dead);
                        }
                        let good = self.ar.not(bad);
                        match self.ask(st, good)? {
                            None => return Err(Stop::Dead),
                            Some(g) => {
                                if self.ar.eval(good, &st.model) != 1 {
                                    Self::upd(&mut st.model, &g);
                                }
                                self.add_pc(st, good);
                            }
                        }
                    }
                }
                Ok(Val::C(0))
            }
            "kse_cover" => {
                let code = arg!(0) as u32;
                if !st.covers.contains(&code) {
                    st.covers.push(code);
                }
                Ok(Val::C(0))
            }
            "kse_observe" => {
                let v = self.get(st, &args[0].1);
                st.obs.push(v);
                Ok(Val::C(0))
            }
            "kse_conc" => {
                let k = arg!(0);
                Ok(Val::C(k as u128))
            }
            _ => Err(Stop::Err(format!("external {}", n))),
        }
    }
}

fn pick(fr: &Frame, inc: &[(u32, Opd)], from: u32) -> R<Val> {
    for (b, o) in inc {
        if *b == from {
            return Ok(match o {
                Opd::R(r) => fr.regs[*r as usize].clone(),
                Opd::C(v) => v.clone(),
            });
        }
    }
    Err(Stop::Err("phi".into()))
}

fn classify(n: &str, has_body: bool) -> Option<&'static str> {
    if has_body {
        for p in [
            "9panicking9panic_fmt",
            "9panicking18panic_nounwind_fmt",
            "9panicking5panic",
            "rust_begin_unwind",
            "20rust_panic_with_hook",
            "18handle_alloc_error",
            "3std7process5abort",
            "14unwrap_failed",
            "13expect_failed",
        ] {
            if n.ends_with(p) {
                return Some("panic");
            }
        }
        return None;
    }
    Some(match n {
        "malloc" | "__rust_alloc" => "malloc",
        "calloc" => "calloc",
        "realloc" => "realloc",
        "posix_memalign" => "posix_memalign",
        "free" => "free",
        "bcmp" => "bcmp",
        "memcmp" => "memcmp",
        "strlen" => "strlen",
        "getrandom" => "getrandom",
        "syscall" => "syscall",
        "__errno_location" => "errno",
        "abort" => "panic",
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => "zero",
        "kse_bytes" => "kse_bytes",
        "kse_param" => "kse_param",
        "kse_assume" => "kse_assume",
        "kse_check" => "kse_check",
        "kse_cover" => "kse_cover",
        "kse_observe" => "kse_observe",
        "kse_conc" => "kse_conc",
        _ => Box::leak(format!("?{}", n).into_boxed_str()),
    })
}

pub fn short(n: &str) -> String {
    // pull the identifiers out of a v0 mangled name
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut k = 0usize;
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if k > 0 && i + k <= b.len() && st > 0 && n.is_char_boundary(i + k) && n[i..i + k].chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                out.push(n[i..i + k].to_string());
                i += k;
            }
        } else {
            i += 1;
        }
    }
    let l = out.len();
    if l > 4 {
        out = out[l - 4..].to_vec();
    }
    out.join("::")
}

pub fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096 / 1_000_000
}
