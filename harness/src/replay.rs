//! Native execution of one harness instance on one concrete input.
//! usage: replay ENTRY PARAMS HEXBYTES
#[path = "lib.rs"]
mod h;
use std::cell::RefCell;
use std::panic;

#[derive(Default)]
struct Ctx {
    input: Vec<u8>,
    pos: usize,
    params: Vec<u64>,
    failed: Vec<u32>,
    covers: Vec<u32>,
    obs: Vec<u64>,
}
thread_local!(static CTX: RefCell<Ctx> = Default::default());
struct Assumed;

#[no_mangle]
pub extern "C" fn kse_bytes(p: *mut u8, n: usize) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for i in 0..n {
            let b = c.input.get(c.pos).copied().unwrap_or(0);
            c.pos += 1;
            unsafe { *p.add(i) = b }
        }
    })
}
#[no_mangle]
pub extern "C" fn kse_param(i: u32) -> u64 {
    CTX.with(|c| c.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C-unwind" fn kse_assume(c: u32) {
    if c == 0 {
        panic::resume_unwind(Box::new(Assumed));
    }
}
#[no_mangle]
pub extern "C" fn kse_check(ok: u32, code: u32) {
    if ok == 0 {
        CTX.with(|c| c.borrow_mut().failed.push(code))
    }
}
#[no_mangle]
pub extern "C" fn kse_cover(code: u32) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if !c.covers.contains(&code) {
            c.covers.push(code)
        }
    })
}
#[no_mangle]
pub extern "C" fn kse_observe(v: u64) {
    if std::env::var_os("KSE_SHOW").is_some() {
        eprintln!("observe {}", v);
    }
    CTX.with(|c| c.borrow_mut().obs.push(v))
}
#[no_mangle]
pub extern "C" fn kse_conc(v: u64) -> u64 {
    v
}

fn run(entry: &str, params: Vec<u64>, input: Vec<u8>) -> String {
    CTX.with(|c| *c.borrow_mut() = Ctx { input, params, ..Default::default() });
    let f = h::ENTRIES.iter().find(|e| e.0 == entry).expect("unknown entry").1;
    let r = panic::catch_unwind(f);
    CTX.with(|c| {
        let c = c.borrow();
        let status = match &r {
            Ok(()) => "ok",
            Err(e) if e.is::<Assumed>() => "assumed",
            Err(_) => "panic",
        };
        let l = |v: &Vec<u32>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let o = c.obs.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",");
        format!("{{\"status\":\"{}\",\"failed\":[{}],\"covers\":[{}],\"obs\":[{}],\"used\":{}}}", status, l(&c.failed), l(&c.covers), o, c.pos)
    })
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // batch mode: lines "ENTRY PARAMS HEX" on stdin
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let one = |l: &str| {
            let p: Vec<&str> = l.split(' ').collect();
            let params = p[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            println!("{}", run(p[0], params, unhex(p.get(2).copied().unwrap_or(""))));
        };
        if a.len() > 1 {
            one(&a[1..].join(" "));
        } else {
            panic::set_hook(Box::new(|_| ()));
            for l in std::io::stdin().lines() {
                one(&l.unwrap());
            }
        }
    });
    t.unwrap().join().unwrap();
}
