//! Byte-granular memory with copy-on-write pages.  A byte is concrete or an 8-bit expression.
use crate::ir::GBASE;
use std::collections::HashMap;
use std::rc::Rc;

pub const PS: usize = 512;
pub const HBASE: u64 = 0x2_0000_0000;
pub const SBASE: u64 = 0x7_0000_0000;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PS],
    pub sym: Option<Box<[u32; PS]>>, // 0 = concrete (expression id 0 is never stored)
}

#[derive(Clone)]
pub struct Mem {
    pub image: Rc<Vec<u8>>,
    over: HashMap<u32, Rc<Page>>,
    heap: Vec<Rc<Page>>,
    stack: Vec<Rc<Page>>,
    pub heap_top: u64,
    pub stack_top: u64,
    free: Vec<Vec<u64>>,
}

fn zero_page() -> Rc<Page> {
    Rc::new(Page { data: [0; PS], sym: None })
}

impl Mem {
    pub fn new(image: Rc<Vec<u8>>) -> Self {
        Mem { image, over: HashMap::new(), heap: vec![], stack: vec![], heap_top: HBASE, stack_top: SBASE, free: vec![Vec::new(); 17] }
    }
    pub fn valid(&self, a: u64, n: u64) -> bool {
        if a >= SBASE {
            a + n <= self.stack_top
        } else if a >= HBASE {
            a + n <= self.heap_top
        } else if a >= GBASE {
            a + n <= GBASE + self.image.len() as u64
        } else {
            false
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let cls = ((size + 15) / 16) as usize;
        if align <= 16 && cls < 17 {
            if let Some(a) = self.free[cls].pop() {
                self.write_u64(a - 16, size);
                return a;
            }
        }
        let size16 = ((size + 15) / 16) * 16;
        let al = align.max(16);
        let a = (self.heap_top + 16 + al - 1) / al * al;
        self.heap_top = a + size16.max(16);
        while (self.heap.len() * PS) as u64 <= self.heap_top - HBASE {
            self.heap.push(zero_page());
        }
        self.write_u64(a - 16, size);
        a
    }
    pub fn size_of(&self, a: u64) -> u64 {
        let mut b = [0u8; 8];
        for i in 0..8 {
            b[i] = self.get(a - 16 + i as u64).0;
        }
        u64::from_le_bytes(b)
    }
    pub fn free(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        let size = self.size_of(a);
        let cls = ((size + 15) / 16) as usize;
        if cls < 17 && a % 16 == 0 {
            self.free[cls].push(a);
        }
    }
    pub fn push_stack(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.stack_top + al - 1) / al * al;
        self.stack_top = a + size;
        while (self.stack.len() * PS) as u64 <= self.stack_top - SBASE {
            self.stack.push(zero_page());
        }
        a
    }
    #[inline]
    fn page(&self, a: u64) -> (Option<&Page>, usize) {
        if a >= SBASE {
            let o = (a - SBASE) as usize;
            (Some(&self.stack[o / PS]), o % PS)
        } else if a >= HBASE {
            let o = (a - HBASE) as usize;
            (Some(&self.heap[o / PS]), o % PS)
        } else {
            let o = (a - GBASE) as usize;
            if self.over.is_empty() {
                return (None, o);
            }
            match self.over.get(&((o / PS) as u32)) {
                Some(p) => (Some(p), o % PS),
                None => (None, o),
            }
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> (&mut Page, usize) {
        if a >= SBASE {
            let o = (a - SBASE) as usize;
            (Rc::make_mut(&mut self.stack[o / PS]), o % PS)
        } else if a >= HBASE {
            let o = (a - HBASE) as usize;
            (Rc::make_mut(&mut self.heap[o / PS]), o % PS)
        } else {
            let o = (a - GBASE) as usize;
            let pn = o / PS;
            let img = &self.image;
            let p = self.over.entry(pn as u32).or_insert_with(|| {
                let mut pg = Page { data: [0; PS], sym: None };
                pg.data.copy_from_slice(&img[pn * PS..pn * PS + PS]);
                Rc::new(pg)
            });
            (Rc::make_mut(p), o % PS)
        }
    }
    #[inline]
    pub fn get(&self, a: u64) -> (u8, u32) {
        match self.page(a) {
            (Some(p), o) => (p.data[o], p.sym.as_ref().map(|s| s[o]).unwrap_or(0)),
            (None, o) => (self.image[o], 0),
        }
    }
    /// Concrete read of n <= 16 bytes; None if any byte is symbolic.
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Option<u128> {
        let mut b = [0u8; 16];
        match self.page(a) {
            (None, o) => {
                // globals without overlay on this page
                if self.over.is_empty() || o / PS == (o + n - 1) / PS {
                    b[..n].copy_from_slice(&self.image[o..o + n]);
                    return Some(u128::from_le_bytes(b));
                }
            }
            (Some(p), o) if o + n <= PS => {
                if let Some(s) = &p.sym {
                    if s[o..o + n].iter().any(|x| *x != 0) {
                        return None;
                    }
                }
                b[..n].copy_from_slice(&p.data[o..o + n]);
                return Some(u128::from_le_bytes(b));
            }
            _ => (),
        }
        for i in 0..n {
            let (x, s) = self.get(a + i as u64);
            if s != 0 {
                return None;
            }
            b[i] = x;
        }
        Some(u128::from_le_bytes(b))
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, n: usize, v: u128) {
        let b = v.to_le_bytes();
        if (a as usize) % PS + n <= PS {
            let (p, o) = self.page_mut(a);
            p.data[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.sym {
                s[o..o + n].fill(0);
            }
        } else {
            for i in 0..n {
                self.put(a + i as u64, b[i], 0);
            }
        }
    }
    pub fn write_u64(&mut self, a: u64, v: u64) {
        self.write_c(a, 8, v as u128)
    }
    #[inline]
    pub fn put(&mut self, a: u64, b: u8, s: u32) {
        let (p, o) = self.page_mut(a);
        p.data[o] = b;
        if s != 0 {
            p.sym.get_or_insert_with(|| Box::new([0; PS]))[o] = s;
        } else if let Some(y) = &mut p.sym {
            y[o] = 0;
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 || dst == src {
            return;
        }
        // gather
        let mut data = Vec::with_capacity(n as usize);
        let mut sym: Option<Vec<u32>> = None;
        let mut i = 0u64;
        while i < n {
            let (pg, o) = self.page(src + i);
            match pg {
                Some(p) => {
                    let k = (PS - o).min((n - i) as usize);
                    if let Some(s) = &p.sym {
                        let v = sym.get_or_insert_with(|| vec![0; data.len()]);
                        v.resize(data.len(), 0);
                        v.extend_from_slice(&s[o..o + k]);
                    }
                    data.extend_from_slice(&p.data[o..o + k]);
                    i += k as u64;
                }
                None => {
                    let k = (PS - o % PS).min((n - i) as usize);
                    data.extend_from_slice(&self.image[o..o + k]);
                    i += k as u64;
                }
            }
        }
        if let Some(v) = &mut sym {
            v.resize(data.len(), 0);
            if v.iter().all(|x| *x == 0) {
                sym = None;
            }
        }
        let mut i = 0usize;
        while i < n as usize {
            let (p, o) = self.page_mut(dst + i as u64);
            let k = (PS - o).min(n as usize - i);
            p.data[o..o + k].copy_from_slice(&data[i..i + k]);
            match &sym {
                Some(v) => {
                    let s = p.sym.get_or_insert_with(|| Box::new([0; PS]));
                    s[o..o + k].copy_from_slice(&v[i..i + k]);
                }
                None => {
                    if let Some(s) = &mut p.sym {
                        s[o..o + k].fill(0);
                    }
                }
            }
            i += k;
        }
    }
}
