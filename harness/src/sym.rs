//! Interface between the harnesses and the symbolic executor (or the native replay driver).
extern "C" {
    fn kse_bytes(p: *mut u8, n: usize);
    fn kse_param(i: u32) -> u64;
    fn kse_assume(c: u32);
    fn kse_check(c: u32, code: u32);
    fn kse_cover(code: u32);
    fn kse_observe(v: u64);
    fn kse_conc(v: u64) -> u64;
}
/// A fresh unconstrained input byte.
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    unsafe { kse_bytes(b.as_mut_ptr(), 1) };
    b[0]
}
pub fn fill(b: &mut [u8]) {
    if b.is_empty() {
        return;
    }
    unsafe { kse_bytes(b.as_mut_ptr(), b.len()) };
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn u16() -> u16 {
    u16::from_le_bytes(arr())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(arr())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(arr())
}
pub fn u128() -> u128 {
    u128::from_le_bytes(arr())
}
pub fn f64() -> f64 {
    f64::from_bits(u64())
}
pub fn param(i: u32) -> usize {
    unsafe { kse_param(i) as usize }
}
pub fn assume(c: bool) {
    unsafe { kse_assume(c as u32) }
}
pub fn check(c: bool, code: u32) {
    unsafe { kse_check(c as u32, code) }
}
pub fn cover(code: u32) {
    unsafe { kse_cover(code) }
}
pub fn observe(v: u64) {
    unsafe { kse_observe(v) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { kse_conc(v) }
}
/// An input restricted to `0..n`, case-split so that the program sees each value in turn.
pub fn choice(n: usize) -> usize {
    let b = byte();
    assume((b as usize) < n);
    conc(b as u64) as usize
}
/// As `choice`, but taken from parameter `i` when both that and `i` are non-zero (value + 1).
pub fn choice_p(i: u32, n: usize) -> usize {
    let p = if i == 0 { 0 } else { param(i) };
    if p > 0 {
        p - 1
    } else if n == 1 {
        0
    } else {
        choice(n)
    }
}
pub fn flag() -> bool {
    choice(2) == 1
}
/// An undecided boolean input (no case split here).
pub fn any_bool() -> bool {
    let b = byte();
    assume(b < 2);
    b == 1
}
/// A string of `n` input bytes, every one ASCII.
pub fn ascii(n: usize) -> String {
    let mut v = vec![0u8; n];
    fill(&mut v);
    let mut ok = true;
    for b in &v {
        ok &= *b < 0x80;
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
/// One two-byte UTF-8 scalar.
pub fn wide2() -> String {
    let b: [u8; 2] = arr();
    assume((b[0] >= 0xc2) & (b[0] <= 0xdf) & (b[1] >= 0x80) & (b[1] <= 0xbf));
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// One three-byte UTF-8 scalar.
pub fn wide3() -> String {
    let b: [u8; 3] = arr();
    let tail = (b[1] >= 0x80) & (b[1] <= 0xbf) & (b[2] >= 0x80) & (b[2] <= 0xbf);
    // no overlong forms, no surrogates
    let head = ((b[0] > 0xe0) & (b[0] <= 0xef) & (b[0] != 0xed)) | ((b[0] == 0xe0) & (b[1] >= 0xa0)) | ((b[0] == 0xed) & (b[1] <= 0x9f));
    assume(head & tail);
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// One four-byte UTF-8 scalar.
pub fn wide4() -> String {
    let b: [u8; 4] = arr();
    let tail = (b[1] >= 0x80) & (b[1] <= 0xbf) & (b[2] >= 0x80) & (b[2] <= 0xbf) & (b[3] >= 0x80) & (b[3] <= 0xbf);
    let head = ((b[0] > 0xf0) & (b[0] < 0xf4)) | ((b[0] == 0xf0) & (b[1] >= 0x90)) | ((b[0] == 0xf4) & (b[1] <= 0x8f));
    assume(head & tail);
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
pub fn observe_text(s: &str) {
    let mut h = s.len() as u64;
    for b in s.bytes() {
        h = h.wrapping_mul(31).wrapping_add(b as u64);
    }
    observe(h);
}
