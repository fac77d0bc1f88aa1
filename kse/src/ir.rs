//! Reader for the textual LLVM IR that rustc emits (whole program, after fat LTO).
//! Function bodies are decoded lazily, on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F(u16),
    Ptr,
    Arr(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Func(Box<Ty>),
    Other,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F(w) => (*w as u64) / 8,
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => up(((*w as u64) + 7) / 8, self.align()),
            Ty::F(w) => (*w as u64) / 8,
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *p {
                    o
                } else {
                    up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Zext,
    Sext,
    Trunc,
    Bitcast,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPCvt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Op(Opd),
    Intrinsic(Rc<str>),
    Asm,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, d: u32, a: Opd, b: Opd },
    FNeg { ty: Ty, d: u32, a: Opd },
    Icmp { p: Pred, ty: Ty, d: u32, a: Opd, b: Opd },
    Fcmp { p: String, ty: Ty, d: u32, a: Opd, b: Opd },
    Cast { op: CastOp, from: Ty, to: Ty, d: u32, a: Opd },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u16, u64)> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u16, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Select { d: u32, c: Opd, cty: Ty, ty: Ty, a: Opd, b: Opd },
    Call { d: Option<u32>, callee: Callee, args: Vec<(Ty, Opd)>, rty: Ty, normal: Option<u32> },
    Ret(Option<Opd>),
    Unreachable,
    Extract { d: u32, a: Opd, idx: Vec<usize> },
    Insert { d: u32, a: Opd, ty: Ty, v: Opd, idx: Vec<usize> },
    Alloca { d: u32, size: u64, align: u64 },
    Rmw { d: u32, op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: Ty, p: Opd, c: Opd, n: Opd },
    Copy { d: u32, a: Opd },
    ExtElem { d: u32, a: Opd, i: Opd },
    InsElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Vec<usize> },
    Nop,
    Bad(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
    pub name: String,
}
pub struct Func {
    pub name: Rc<str>,
    pub nregs: u32,
    pub nparams: usize,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: Rc<str>,
    pub body: Option<(usize, usize)>, // byte range of "define ... }" text
    pub code: Option<Rc<Func>>,
    pub rty: Ty,
}

pub struct Global {
    pub addr: u64,
    pub size: u64,
}

pub struct Module {
    pub text: Rc<str>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: HashMap<String, Global>,
    pub named: HashMap<String, Ty>,
    pub image: Vec<u8>, // initial global memory starting at GBASE
}

pub const FBASE: u64 = 0x10_0000;
pub const GBASE: u64 = 0x1000_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),         // identifier or keyword
    Loc(std::borrow::Cow<'a, str>), // %name
    Glb(std::borrow::Cow<'a, str>), // @name
    Num(&'a str),        // integer / float text
    Str(&'a str),        // raw contents between quotes
    CStr(&'a str),
    Meta,                // !... or #N
    P(char),
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> Lex<'a> {
    fn new(src: &'a str) -> Self {
        Lex { s: src.as_bytes(), src, i: 0 }
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            if self.i + 1 < self.s.len() && self.s[self.i] == b'/' && self.s[self.i + 1] == b'*' {
                self.i += 2;
                while !(self.s[self.i] == b'*' && self.s[self.i + 1] == b'/') {
                    self.i += 1;
                }
                self.i += 2;
                continue;
            }
            break;
        }
    }
    fn peek(&mut self) -> Tok<'a> {
        let sv = self.i;
        let t = self.next();
        self.i = sv;
        t
    }
    fn name(&mut self) -> std::borrow::Cow<'a, str> {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = &self.src[st..self.i];
            self.i += 1;
            std::borrow::Cow::Borrowed(r)
        } else {
            let st = self.i;
            while self.i < self.s.len() && idch(self.s[self.i]) {
                self.i += 1;
            }
            std::borrow::Cow::Borrowed(&self.src[st..self.i])
        }
    }
    fn next(&mut self) -> Tok<'a> {
        self.ws();
        if self.i >= self.s.len() {
            return Tok::Eof;
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Loc(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Glb(self.name())
            }
            b'!' | b'#' => {
                self.i += 1;
                while self.i < self.s.len() && idch(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Meta
            }
            b'"' => {
                let n = self.name();
                match n {
                    std::borrow::Cow::Borrowed(b) => Tok::Str(b),
                    _ => unreachable!(),
                }
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                match self.name() {
                    std::borrow::Cow::Borrowed(b) => Tok::CStr(b),
                    _ => unreachable!(),
                }
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (idch(self.s[self.i]) || (self.s[self.i] == b'+' && self.s[self.i - 1] == b'e')) {
                    self.i += 1;
                }
                Tok::Num(&self.src[st..self.i])
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = self.i;
                while self.i < self.s.len() && idch(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Id(&self.src[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            let a = self.i.saturating_sub(120);
            let b = (self.i + 60).min(self.src.len());
            panic!("expected {:?} got {:?} near {:?}", c, t, &self.src[a..b]);
        }
    }
    fn eat_id(&mut self, id: &str) -> bool {
        if self.peek() == Tok::Id(id) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_group(&mut self) {
        // at '('
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in group"),
                _ => (),
            }
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn parse_int(t: &str, w: u16) -> u128 {
    let m = crate::expr::m(w);
    if let Some(h) = t.strip_prefix("u0x").or(t.strip_prefix("s0x")) {
        return u128::from_str_radix(h, 16).unwrap() & m;
    }
    if let Some(n) = t.strip_prefix('-') {
        (0u128).wrapping_sub(n.parse::<u128>().unwrap_or_else(|_| panic!("int {}", t))) & m
    } else {
        t.parse::<u128>().unwrap_or_else(|_| panic!("int {}", t)) & m
    }
}
fn parse_float(t: &str, w: u16) -> u128 {
    let d: f64 = if let Some(h) = t.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        match t {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "qnan" | "+nan" | "nan" => f64::NAN,
            "-qnan" | "-nan" => -f64::NAN,
            _ => t.parse().unwrap_or_else(|_| panic!("float {}", t)),
        }
    };
    if w == 64 {
        d.to_bits() as u128
    } else {
        (d as f32).to_bits() as u128
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: Rc<str> = std::fs::read_to_string(path).expect("read ll").into();
        let mut md = Module {
            text: text.clone(),
            fns: vec![],
            fn_by_name: HashMap::new(),
            globals: HashMap::new(),
            named: HashMap::new(),
            image: vec![],
        };
        // pass 1: split top level
        let src: &str = &text;
        let mut globals: Vec<(String, usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let mut pos = 0;
        let b = src.as_bytes();
        while pos < b.len() {
            let eol = src[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &src[pos..eol];
            let mut next = eol + 1;
            if line.starts_with("define ") {
                let end = src[pos..].find("\n}\n").map(|x| pos + x + 2).expect("end of function");
                let nm = fn_name(line);
                let id = md.add_fn(nm);
                md.fns[id as usize].body = Some((pos, end));
                next = end + 1;
            } else if line.starts_with("declare ") {
                let nm = fn_name(line);
                md.add_fn(nm);
            } else if line.starts_with('@') {
                let mut lx = Lex::new(line);
                if let Tok::Glb(n) = lx.next() {
                    let n = n.into_owned();
                    if line.contains(" alias ") && is_alias(&line[lx.i..]) {
                        let t = line.rfind('@').unwrap();
                        let mut l2 = Lex::new(&line[t + 1..]);
                        let tn = l2.name().into_owned();
                        aliases.push((n, tn));
                    } else {
                        globals.push((n, pos + lx.i, eol));
                    }
                }
            } else if line.starts_with('%') {
                let mut lx = Lex::new(line);
                if let Tok::Loc(n) = lx.next() {
                    let n = n.into_owned();
                    lx.expect('=');
                    lx.eat_id("type");
                    let t = md.ty(&mut lx);
                    md.named.insert(n, t);
                }
            }
            pos = next;
        }
        for (a, t) in aliases {
            if let Some(&id) = md.fn_by_name.get(&t) {
                md.fn_by_name.insert(a, id);
            } else {
                panic!("alias to non function {}", t);
            }
        }
        // pass 2: global layout
        let mut off = 0u64;
        let mut inits = vec![];
        for (n, s, e) in globals {
            let line = &src[s..e];
            let mut lx = Lex::new(line);
            lx.expect('=');
            // skip linkage words up to global|constant
            let mut external = false;
            loop {
                match lx.next() {
                    Tok::Id("global") | Tok::Id("constant") => break,
                    Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                    Tok::P('(') => {
                        lx.i -= 1;
                        lx.skip_group()
                    }
                    Tok::Eof => panic!("global? {}", line),
                    _ => (),
                }
            }
            let ty = md.ty(&mut lx);
            let sz = ty.size();
            // explicit alignment
            let al = line
                .rfind(", align ")
                .and_then(|x| line[x + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse::<u64>().ok()))
                .unwrap_or(ty.align())
                .max(1);
            off = up(off, al);
            md.globals.insert(n.clone(), Global { addr: GBASE + off, size: sz });
            if !external {
                inits.push((off, ty, s + lx.i, e));
            }
            off += sz.max(1);
        }
        md.image = vec![0; up(off, 65536) as usize];
        let mut img = std::mem::take(&mut md.image);
        for (o, ty, s, e) in inits {
            let mut lx = Lex::new(&src[s..e]);
            md.init(&mut lx, &ty, &mut img, o as usize);
        }
        md.image = img;
        md
    }
    fn add_fn(&mut self, nm: String) -> u32 {
        let id = self.fns.len() as u32;
        self.fns.push(FnDecl { name: nm.as_str().into(), body: None, code: None, rty: Ty::Void });
        self.fn_by_name.insert(nm, id);
        id
    }
    fn init(&self, lx: &mut Lex, ty: &Ty, img: &mut [u8], o: usize) {
        match lx.peek() {
            Tok::CStr(s) => {
                lx.next();
                let b = unescape(s);
                img[o..o + b.len()].copy_from_slice(&b);
            }
            Tok::Id("zeroinitializer") | Tok::Id("undef") | Tok::Id("poison") => {
                lx.next();
            }
            _ => match ty {
                Ty::Struct(fs, packed) => {
                    if *packed {
                        lx.expect('<');
                    }
                    lx.expect('{');
                    for i in 0..fs.len() {
                        if i > 0 {
                            lx.expect(',');
                        }
                        let t = self.ty(lx);
                        self.init(lx, &t, img, o + ty.field_off(i) as usize);
                    }
                    lx.expect('}');
                    if *packed {
                        lx.expect('>');
                    }
                }
                Ty::Arr(..) | Ty::Vec(..) => {
                    let (open, close) = if matches!(ty, Ty::Arr(..)) { ('[', ']') } else { ('<', '>') };
                    lx.expect(open);
                    for i in 0..ty.nelem() {
                        if i > 0 {
                            lx.expect(',');
                        }
                        let t = self.ty(lx);
                        self.init(lx, &t, img, o + ty.field_off(i) as usize);
                    }
                    lx.expect(close);
                }
                _ => {
                    let v = self.konst(lx, ty);
                    if let Val::C(k) = v {
                        let n = ty.size() as usize;
                        img[o..o + n].copy_from_slice(&k.to_le_bytes()[..n]);
                    } else {
                        panic!("init")
                    }
                }
            },
        }
    }

    fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => {
                if lx.peek() == Tok::Id("addrspace") {
                    lx.next();
                    lx.skip_group();
                }
                Ty::Ptr
            }
            Tok::Id("double") => Ty::F(64),
            Tok::Id("float") => Ty::F(32),
            Tok::Id("half") => Ty::F(16),
            Tok::Id("label") | Tok::Id("metadata") | Tok::Id("token") | Tok::Id("x86_fp80") | Tok::Id("fp128") | Tok::Id("opaque") => Ty::Other,
            Tok::Id(s) if s.starts_with('i') && s[1..].chars().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().unwrap()),
            Tok::P('[') => {
                let n = match lx.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    x => panic!("array len {:?}", x),
                };
                lx.eat_id("x");
                let t = self.ty(lx);
                lx.expect(']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('<') => {
                if lx.eat('{') {
                    let f = self.fields(lx);
                    lx.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let n = match lx.next() {
                        Tok::Num(n) => n.parse().unwrap(),
                        x => panic!("vec len {:?}", x),
                    };
                    lx.eat_id("x");
                    let t = self.ty(lx);
                    lx.expect('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::P('{') => {
                let f = self.fields(lx);
                Ty::Struct(f, false)
            }
            Tok::Loc(n) => self.named.get(&*n).cloned().unwrap_or(Ty::Other),
            x => {
                let a = lx.i.saturating_sub(150);
                panic!("type {:?} near {:?}", x, &lx.src[a..(lx.i + 50).min(lx.src.len())])
            }
        };
        // function type
        if lx.peek() == Tok::P('(') && !matches!(t, Ty::Other) && self.looks_like_fn_type(lx) {
            lx.skip_group();
            return Ty::Func(Box::new(t));
        }
        t
    }
    fn looks_like_fn_type(&self, lx: &mut Lex) -> bool {
        // "T (types...) @callee(" : the group after the type is a parameter type list
        let sv = lx.i;
        lx.skip_group();
        let r = matches!(lx.peek(), Tok::Glb(_) | Tok::Loc(_) | Tok::Id("asm"));
        lx.i = sv;
        r
    }
    fn fields(&self, lx: &mut Lex) -> Vec<Ty> {
        let mut f = vec![];
        if lx.eat('}') {
            return f;
        }
        loop {
            f.push(self.ty(lx));
            if lx.eat('}') {
                return f;
            }
            lx.expect(',');
        }
    }
    pub fn fn_addr(id: u32) -> u64 {
        FBASE + id as u64 * 16
    }
    fn zero(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => Val::C(0),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                Val::Agg(Rc::new((0..ty.nelem()).map(|i| self.zero(ty.elem(i))).collect()))
            }
            _ => Val::C(0),
        }
    }
    fn gaddr(&self, n: &str) -> u64 {
        if let Some(g) = self.globals.get(n) {
            return g.addr;
        }
        if let Some(&f) = self.fn_by_name.get(n) {
            return Self::fn_addr(f);
        }
        panic!("unknown global @{}", n)
    }
    /// a constant of type `ty`
    fn konst(&self, lx: &mut Lex, ty: &Ty) -> Val {
        match lx.next() {
            Tok::Num(t) => match ty {
                Ty::F(w) => Val::C(parse_float(t, *w)),
                _ => Val::C(parse_int(t, ty.bits())),
            },
            Tok::Id("true") => Val::C(1),
            Tok::Id("false") | Tok::Id("null") | Tok::Id("none") => Val::C(0),
            Tok::Id("zeroinitializer") | Tok::Id("undef") | Tok::Id("poison") => self.zero(ty),
            Tok::Glb(n) => Val::C(self.gaddr(&n) as u128),
            Tok::Id(t) if matches!(ty, Ty::F(_)) && (t == "inf" || t == "nan" || t == "qnan") => Val::C(parse_float(t, ty.bits())),
            Tok::Id(t) if matches!(ty, Ty::F(_)) && t.starts_with("f0x") => Val::C(u128::from_str_radix(&t[3..], 16).unwrap()),
            Tok::Id("splat") => {
                lx.expect('(');
                let t = self.ty(lx);
                let v = self.konst(lx, &t);
                lx.expect(')');
                Val::Agg(Rc::new(vec![v; ty.nelem()]))
            }
            Tok::Id(c @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr")) => {
                let _ = c;
                lx.expect('(');
                let t = self.ty(lx);
                let v = self.konst(lx, &t);
                lx.eat_id("to");
                let t2 = self.ty(lx);
                lx.expect(')');
                match v {
                    Val::C(k) => Val::C(k & crate::expr::m(t2.bits())),
                    v => v,
                }
            }
            Tok::Id(o @ ("add" | "sub" | "xor" | "and" | "or" | "mul")) => {
                while matches!(lx.peek(), Tok::Id(_)) {
                    lx.next();
                }
                lx.expect('(');
                let t = self.ty(lx);
                let a = self.konst(lx, &t);
                lx.expect(',');
                let t2 = self.ty(lx);
                let b = self.konst(lx, &t2);
                lx.expect(')');
                if let (Val::C(a), Val::C(b)) = (a, b) {
                    let r = match o {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "mul" => a.wrapping_mul(b),
                        _ => a | b,
                    };
                    Val::C(r & crate::expr::m(t.bits()))
                } else {
                    panic!("const expr")
                }
            }
            Tok::Id("getelementptr") => {
                loop {
                    match lx.peek() {
                        Tok::P('(') => break,
                        Tok::Id("inrange") => {
                            lx.next();
                            lx.skip_group();
                        }
                        _ => {
                            lx.next();
                        }
                    }
                }
                lx.expect('(');
                let t = self.ty(lx);
                lx.expect(',');
                let pt = self.ty(lx);
                let base = match self.konst(lx, &pt) {
                    Val::C(k) => k as u64,
                    _ => panic!(),
                };
                let mut off = 0u64;
                let mut cur = t;
                let mut first = true;
                while lx.eat(',') {
                    lx.eat_id("inrange");
                    let it = self.ty(lx);
                    let k = match self.konst(lx, &it) {
                        Val::C(k) => crate::expr::sx(k, it.bits()) as i64,
                        _ => panic!(),
                    };
                    if first {
                        off = off.wrapping_add((k as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        off = off.wrapping_add(match &cur {
                            Ty::Struct(..) => cur.field_off(k as usize),
                            _ => (cur.elem(0).size() as i64).wrapping_mul(k) as u64,
                        });
                        cur = cur.elem(k.max(0) as usize % cur.nelem().max(1)).clone();
                    }
                }
                lx.expect(')');
                Val::C(base.wrapping_add(off) as u128)
            }
            Tok::P('{') => {
                let mut v = vec![];
                if !lx.eat('}') {
                    loop {
                        let t = self.ty(lx);
                        v.push(self.konst(lx, &t));
                        if lx.eat('}') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                Val::Agg(Rc::new(v))
            }
            Tok::P('[') | Tok::P('<') => {
                let mut v = vec![];
                lx.eat('{');
                loop {
                    if lx.eat(']') || lx.eat('}') {
                        lx.eat('>');
                        break;
                    }
                    if lx.eat('>') {
                        break;
                    }
                    let t = self.ty(lx);
                    v.push(self.konst(lx, &t));
                    lx.eat(',');
                }
                Val::Agg(Rc::new(v))
            }
            Tok::CStr(s) => Val::Agg(Rc::new(unescape(s).into_iter().map(|b| Val::C(b as u128)).collect())),
            x => {
                let a = lx.i.saturating_sub(150);
                panic!("constant {:?} : {:?} near {:?}", x, ty, &lx.src[a..(lx.i + 50).min(lx.src.len())])
            }
        }
    }

    pub fn code(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(c) = &self.fns[id as usize].code {
            return Some(c.clone());
        }
        let (s, e) = self.fns[id as usize].body?;
        let text = self.text.clone();
        let f = Rc::new(self.decode(&text[s..e], self.fns[id as usize].name.clone()));
        self.fns[id as usize].code = Some(f.clone());
        Some(f)
    }

    fn decode(&self, src: &str, name: Rc<str>) -> Func {
        let hdr_end = src.find("{\n").unwrap();
        let hdr = &src[..hdr_end];
        let mut regs: HashMap<String, u32> = HashMap::new();
        // params
        let at = hdr.find('@').unwrap();
        let mut lx = Lex::new(hdr);
        lx.i = at + 1;
        lx.name();
        lx.expect('(');
        let mut nparams = 0;
        if !lx.eat(')') {
            loop {
                if lx.eat('.') {
                    panic!("varargs");
                }
                let _t = self.ty(&mut lx);
                // attributes until %name
                loop {
                    match lx.next() {
                        Tok::Loc(n) => {
                            regs.insert(n.into_owned(), nparams);
                            break;
                        }
                        Tok::P('(') => {
                            lx.i -= 1;
                            lx.skip_group();
                        }
                        Tok::Eof => panic!("param"),
                        _ => (),
                    }
                }
                nparams += 1;
                if lx.eat(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        // blocks: lines; first pass collects labels and result registers
        let body = &src[hdr_end + 2..src.len() - 1];
        let mut blocks: Vec<(String, Vec<&str>)> = vec![];
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nreg = nparams;
        let mut lines = body.lines().peekable();
        while let Some(l) = lines.next() {
            let t = l.trim_end();
            if t.is_empty() || t.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut lx = Lex::new(t);
                let nm = if t.starts_with('"') { lx.name().into_owned() } else { t.split(':').next().unwrap().to_string() };
                labels.insert(nm.clone(), blocks.len() as u32);
                blocks.push((nm, vec![]));
                continue;
            }
            if blocks.is_empty() {
                // unlabeled entry block: gets the next implicit number
                let nm = nparams.to_string();
                labels.insert(nm.clone(), 0);
                blocks.push((nm, vec![]));
            }
            let tt = t.trim_start();
            if tt.starts_with('%') {
                let mut lx = Lex::new(tt);
                if let Tok::Loc(n) = lx.next() {
                    regs.insert(n.into_owned(), nreg);
                    nreg += 1;
                }
            }
            if tt.starts_with("#dbg") {
                continue;
            }
            // join continuation lines (switch, invoke, landingpad)
            let start = l.as_ptr() as usize - body.as_ptr() as usize;
            let mut end = start + l.len();
            if tt.starts_with("switch ") && !tt.contains(" ]") && tt.ends_with('[') {
                while let Some(n) = lines.next() {
                    end = n.as_ptr() as usize - body.as_ptr() as usize + n.len();
                    if n.trim_start().starts_with(']') {
                        break;
                    }
                }
            } else {
                while let Some(n) = lines.peek() {
                    if n.starts_with("          ") {
                        end = n.as_ptr() as usize - body.as_ptr() as usize + n.len();
                        lines.next();
                    } else {
                        break;
                    }
                }
            }
            blocks.last_mut().unwrap().1.push(&body[start..end]);
        }
        let cx = Cx { md: self, regs: &regs, labels: &labels };
        let mut out = vec![];
        for (nm, ls) in blocks {
            let mut b = Block { phis: vec![], insts: vec![], name: nm };
            for l in ls {
                cx.inst(l, &mut b);
            }
            out.push(b);
        }
        Func { name, nregs: nreg, nparams: nparams as usize, blocks: out }
    }
}

fn is_alias(rest: &str) -> bool {
    let mut lx = Lex::new(rest);
    for _ in 0..8 {
        match lx.next() {
            Tok::Id("alias") => return true,
            Tok::Id("global") | Tok::Id("constant") | Tok::Eof => return false,
            _ => (),
        }
    }
    false
}

fn fn_name(line: &str) -> String {
    // the function name is the first @ token at paren depth 0
    let mut lx = Lex::new(line);
    loop {
        match lx.next() {
            Tok::Glb(n) => return n.into_owned(),
            Tok::P('(') => {
                lx.i -= 1;
                lx.skip_group();
            }
            Tok::Eof => panic!("function name in {}", line),
            _ => (),
        }
    }
}

struct Cx<'m> {
    md: &'m Module,
    regs: &'m HashMap<String, u32>,
    labels: &'m HashMap<String, u32>,
}

impl<'m> Cx<'m> {
    fn opd(&self, lx: &mut Lex, ty: &Ty) -> Opd {
        if let Tok::Loc(n) = lx.peek() {
            lx.next();
            return Opd::R(*self.regs.get(&*n).unwrap_or_else(|| panic!("reg %{}", n)));
        }
        Opd::C(self.md.konst(lx, ty))
    }
    fn tyopd(&self, lx: &mut Lex) -> (Ty, Opd) {
        let t = self.md.ty(lx);
        let o = self.opd(lx, &t);
        (t, o)
    }
    fn label(&self, lx: &mut Lex) -> u32 {
        lx.eat_id("label");
        match lx.next() {
            Tok::Loc(n) => self.labels[&*n],
            x => panic!("label {:?}", x),
        }
    }
    fn inst(&self, l: &str, b: &mut Block) {
        let mut lx = Lex::new(l);
        let lx = &mut lx;
        let mut d: Option<u32> = None;
        if let Tok::Loc(n) = lx.peek() {
            lx.next();
            d = Some(self.regs[&*n]);
            lx.expect('=');
        }
        let op = match lx.next() {
            Tok::Id(x) => x,
            x => panic!("inst {:?} in {}", x, l),
        };
        let dd = d.unwrap_or(u32::MAX);
        let flags = |lx: &mut Lex| loop {
            match lx.peek() {
                Tok::Id(
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp"
                    | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "inbounds" | "nusw" | "weak",
                ) => {
                    lx.next();
                }
                Tok::Id("inrange") => {
                    lx.next();
                    lx.skip_group();
                }
                _ => break,
            }
        };
        let binop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "urem" => Some(BinOp::URem),
            "sdiv" => Some(BinOp::SDiv),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(o) = binop {
            flags(lx);
            let (ty, a) = self.tyopd(lx);
            lx.expect(',');
            let bb = self.opd(lx, &ty);
            b.insts.push(Inst::Bin { op: o, ty, d: dd, a, b: bb });
            return;
        }
        let i = match op {
            "fneg" => {
                flags(lx);
                let (ty, a) = self.tyopd(lx);
                Inst::FNeg { ty, d: dd, a }
            }
            "icmp" => {
                flags(lx);
                let p = match lx.next() {
                    Tok::Id(p) => match p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("pred {}", p),
                    },
                    _ => panic!(),
                };
                let (ty, a) = self.tyopd(lx);
                lx.expect(',');
                let bb = self.opd(lx, &ty);
                Inst::Icmp { p, ty, d: dd, a, b: bb }
            }
            "fcmp" => {
                flags(lx);
                let p = match lx.next() {
                    Tok::Id(p) => p.to_string(),
                    _ => panic!(),
                };
                let (ty, a) = self.tyopd(lx);
                lx.expect(',');
                let bb = self.opd(lx, &ty);
                Inst::Fcmp { p, ty, d: dd, a, b: bb }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "uitofp" | "sitofp" | "fptoui" | "fptosi"
            | "fpext" | "fptrunc" | "addrspacecast" => {
                flags(lx);
                let (from, a) = self.tyopd(lx);
                lx.eat_id("to");
                let to = self.md.ty(lx);
                let o = match op {
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "trunc" => CastOp::Trunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                        if to.bits() < from.bits() {
                            CastOp::Trunc
                        } else {
                            CastOp::Zext
                        }
                    }
                    "bitcast" => CastOp::Bitcast,
                    "uitofp" => CastOp::UIToFP,
                    "sitofp" => CastOp::SIToFP,
                    "fptoui" => CastOp::FPToUI,
                    "fptosi" => CastOp::FPToSI,
                    _ => CastOp::FPCvt,
                };
                Inst::Cast { op: o, from, to, d: dd, a }
            }
            "load" => {
                flags(lx);
                let ty = self.md.ty(lx);
                lx.expect(',');
                let (_, p) = self.tyopd(lx);
                Inst::Load { d: dd, ty, p }
            }
            "store" => {
                flags(lx);
                let (ty, v) = self.tyopd(lx);
                lx.expect(',');
                let (_, p) = self.tyopd(lx);
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                flags(lx);
                let t = self.md.ty(lx);
                lx.expect(',');
                let (_, base) = self.tyopd(lx);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while lx.peek() == Tok::P(',') {
                    let sv = lx.i;
                    lx.next();
                    if matches!(lx.peek(), Tok::Meta) {
                        lx.i = sv;
                        break;
                    }
                    let (it, o) = self.tyopd(lx);
                    if first {
                        first = false;
                        match o {
                            Opd::C(Val::C(k)) => {
                                off = off.wrapping_add((crate::expr::sx(k, it.bits()) as i64 as u64).wrapping_mul(cur.size()))
                            }
                            o => idx.push((o, it.bits(), cur.size())),
                        }
                    } else {
                        match (&cur, o) {
                            (Ty::Struct(..), Opd::C(Val::C(k))) => {
                                off = off.wrapping_add(cur.field_off(k as usize));
                                let n = cur.elem(k as usize).clone();
                                cur = n;
                            }
                            (_, Opd::C(Val::C(k))) => {
                                off = off.wrapping_add((crate::expr::sx(k, it.bits()) as i64 as u64).wrapping_mul(cur.elem(0).size()));
                                let n = cur.elem(0).clone();
                                cur = n;
                            }
                            (_, o) => {
                                let s = cur.elem(0).size();
                                idx.push((o, it.bits(), s));
                                let n = cur.elem(0).clone();
                                cur = n;
                            }
                        }
                    }
                }
                Inst::Gep { d: dd, base, off, idx }
            }
            "br" => {
                if lx.peek() == Tok::Id("label") {
                    Inst::Br(self.label(lx))
                } else {
                    let (_, c) = self.tyopd(lx);
                    lx.expect(',');
                    let t = self.label(lx);
                    lx.expect(',');
                    let f = self.label(lx);
                    Inst::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (ty, v) = self.tyopd(lx);
                lx.expect(',');
                let def = self.label(lx);
                lx.expect('[');
                let mut cases = vec![];
                while !lx.eat(']') {
                    let t = self.md.ty(lx);
                    let k = match self.md.konst(lx, &t) {
                        Val::C(k) => k,
                        _ => panic!(),
                    };
                    lx.expect(',');
                    let l = self.label(lx);
                    cases.push((k, l));
                }
                Inst::Switch { w: ty.bits(), v, def, cases }
            }
            "phi" => {
                flags(lx);
                let ty = self.md.ty(lx);
                let mut inc = vec![];
                loop {
                    if !lx.eat('[') {
                        break;
                    }
                    let v = self.opd(lx, &ty);
                    lx.expect(',');
                    let l = self.label(lx);
                    lx.expect(']');
                    inc.push((l, v));
                    if !lx.eat(',') {
                        break;
                    }
                }
                b.phis.push((dd, inc));
                return;
            }
            "select" => {
                flags(lx);
                let (cty, c) = self.tyopd(lx);
                lx.expect(',');
                let (ty, a) = self.tyopd(lx);
                lx.expect(',');
                let (_, e) = self.tyopd(lx);
                Inst::Select { d: dd, c, cty, ty, a, b: e }
            }
            "tail" | "musttail" | "notail" => {
                lx.next();
                self.call(lx, d, false)
            }
            "call" => self.call(lx, d, false),
            "invoke" => self.call(lx, d, true),
            "ret" => {
                if lx.peek() == Tok::Id("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tyopd(lx);
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "extractvalue" => {
                let (_, a) = self.tyopd(lx);
                let mut idx = vec![];
                while lx.eat(',') {
                    match lx.next() {
                        Tok::Num(n) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Extract { d: dd, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tyopd(lx);
                lx.expect(',');
                let (_, v) = self.tyopd(lx);
                let mut idx = vec![];
                while lx.eat(',') {
                    match lx.next() {
                        Tok::Num(n) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Insert { d: dd, a, ty, v, idx }
            }
            "alloca" => {
                lx.eat_id("inalloca");
                let ty = self.md.ty(lx);
                let mut al = ty.align().max(16);
                while lx.eat(',') {
                    if lx.eat_id("align") {
                        if let Tok::Num(n) = lx.next() {
                            al = al.max(n.parse().unwrap());
                        }
                    } else {
                        lx.next();
                        lx.next();
                    }
                }
                Inst::Alloca { d: dd, size: ty.size(), align: al }
            }
            "atomicrmw" => {
                flags(lx);
                let o = match lx.next() {
                    Tok::Id(o) => o.to_string(),
                    _ => panic!(),
                };
                let (_, p) = self.tyopd(lx);
                lx.expect(',');
                let (ty, v) = self.tyopd(lx);
                Inst::Rmw { d: dd, op: o, ty, p, v }
            }
            "cmpxchg" => {
                flags(lx);
                let (_, p) = self.tyopd(lx);
                lx.expect(',');
                let (ty, c) = self.tyopd(lx);
                lx.expect(',');
                let (_, n) = self.tyopd(lx);
                Inst::CmpXchg { d: dd, ty, p, c, n }
            }
            "fence" => Inst::Nop,
            "freeze" => {
                let (_, a) = self.tyopd(lx);
                Inst::Copy { d: dd, a }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(lx);
                lx.expect(',');
                let (_, i) = self.tyopd(lx);
                Inst::ExtElem { d: dd, a, i }
            }
            "insertelement" => {
                let (_, a) = self.tyopd(lx);
                lx.expect(',');
                let (_, v) = self.tyopd(lx);
                lx.expect(',');
                let (_, i) = self.tyopd(lx);
                Inst::InsElem { d: dd, a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.tyopd(lx);
                lx.expect(',');
                let (_, b2) = self.tyopd(lx);
                lx.expect(',');
                let mt = self.md.ty(lx);
                let mk = match self.md.konst(lx, &mt) {
                    Val::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(k) => *k as usize,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!(),
                };
                Inst::Shuffle { d: dd, a, b: b2, mask: mk }
            }
            "landingpad" | "resume" | "cleanupret" => Inst::Bad(op.to_string()),
            _ => Inst::Bad(l.trim().to_string()),
        };
        b.insts.push(i);
    }
    fn call(&self, lx: &mut Lex, d: Option<u32>, invoke: bool) -> Inst {
        // [cc] [ret attrs] ty callee(args)
        loop {
            match lx.peek() {
                Tok::Id(
                    "void" | "ptr" | "double" | "float" | "half" | "metadata" | "token",
                ) => break,
                Tok::Id(s) if s.starts_with('i') && s.len() > 1 && s[1..].chars().all(|c| c.is_ascii_digit()) => break,
                Tok::P('{') | Tok::P('[') | Tok::P('<') | Tok::Loc(_) => break,
                Tok::P('(') => lx.skip_group(),
                _ => {
                    lx.next();
                }
            }
        }
        let mut rty = self.md.ty(lx);
        if let Ty::Func(r) = rty {
            rty = *r;
        }
        let callee = match lx.next() {
            Tok::Glb(n) => {
                if n.starts_with("llvm.") {
                    Callee::Intrinsic((&*n).into())
                } else {
                    Callee::Fn(*self.md.fn_by_name.get(&*n).unwrap_or_else(|| panic!("callee @{}", n)))
                }
            }
            Tok::Loc(n) => Callee::Op(Opd::R(self.regs[&*n])),
            Tok::Id("asm") => {
                // asm flags "..." , "..."
                while lx.peek() != Tok::P('(') {
                    lx.next();
                }
                Callee::Asm
            }
            Tok::Id("inttoptr") | Tok::Id("null") => return Inst::Bad("call to constant".into()),
            x => panic!("callee {:?}", x),
        };
        lx.expect('(');
        let mut args = vec![];
        if !lx.eat(')') {
            loop {
                let t = self.md.ty(lx);
                if t == Ty::Other {
                    // metadata etc: skip to , or )
                    let mut dep = 0;
                    loop {
                        match lx.peek() {
                            Tok::P('(') | Tok::P('{') => {
                                dep += 1;
                                lx.next();
                            }
                            Tok::P('}') => {
                                dep -= 1;
                                lx.next();
                            }
                            Tok::P(')') if dep > 0 => {
                                dep -= 1;
                                lx.next();
                            }
                            Tok::P(')') | Tok::P(',') if dep == 0 => break,
                            _ => {
                                lx.next();
                            }
                        }
                    }
                    args.push((t, Opd::C(Val::C(0))));
                } else {
                    // skip attributes
                    loop {
                        match lx.peek() {
                            Tok::Id("align") => {
                                lx.next();
                                lx.next();
                            }
                            Tok::Id(
                                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "splat" | "getelementptr"
                                | "inttoptr" | "ptrtoint" | "bitcast" | "ptrtoaddr" | "inf" | "nan" | "qnan",
                            ) => break,
                            Tok::Id(_) | Tok::Str(_) | Tok::Meta => {
                                lx.next();
                                if lx.peek() == Tok::P('=') {
                                    lx.next();
                                    lx.next();
                                }
                                if lx.peek() == Tok::P('(') {
                                    lx.skip_group();
                                }
                            }
                            _ => break,
                        }
                    }
                    let o = self.opd(lx, &t);
                    args.push((t, o));
                }
                if lx.eat(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        let mut normal = None;
        if invoke {
            // ... to label %a unwind label %b
            loop {
                match lx.next() {
                    Tok::Id("to") => break,
                    Tok::Eof => panic!("invoke"),
                    _ => (),
                }
            }
            normal = Some(self.label(lx));
        }
        Inst::Call { d, callee, args, rty, normal }
    }
}
