//! Harness API: implemented by the symbolic engine, and natively by the replay binary.
extern "C" {
    fn vp_sym(p: *mut u8, n: usize);
    fn vp_case(n: usize) -> usize;
    fn vp_param(i: usize) -> usize;
    fn vp_assume(c: bool);
    fn vp_check(c: bool, code: u32);
    fn vp_check_eq(a: *const u8, b: *const u8, n: usize, code: u32);
    fn vp_cover(c: bool, code: u32);
    fn vp_print(v: u64);
    fn vp_stop() -> !;
}
/// fill with unconstrained (symbolic) bytes
#[inline(always)]
pub fn sym(b: &mut [u8]) {
    unsafe { vp_sym(b.as_mut_ptr(), b.len()) }
}
#[inline(always)]
pub fn sym32(b: &mut [u32]) {
    unsafe { vp_sym(b.as_mut_ptr() as *mut u8, b.len() * 4) }
}
pub fn sym_u64() -> u64 {
    let mut b = [0u8; 8];
    sym(&mut b);
    u64::from_le_bytes(b)
}
pub fn sym_u8() -> u8 {
    let mut b = [0u8; 1];
    sym(&mut b);
    b[0]
}
/// case split: the property is decided separately for every value 0..n
#[inline(always)]
pub fn case(n: usize) -> usize {
    unsafe { vp_case(n) }
}
#[inline(always)]
pub fn param(i: usize) -> usize {
    unsafe { vp_param(i) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, code: u32) {
    unsafe { vp_check(c, code) }
}
#[inline(always)]
pub fn check_eq(a: &[u32], b: &[u32], code: u32) {
    assert!(a.len() == b.len());
    unsafe { vp_check_eq(a.as_ptr() as *const u8, b.as_ptr() as *const u8, a.len() * 4, code) }
}
#[inline(always)]
pub fn check_eq8(a: &[u8], b: &[u8], code: u32) {
    assert!(a.len() == b.len());
    unsafe { vp_check_eq(a.as_ptr(), b.as_ptr(), a.len(), code) }
}
/// reachability witness: must be satisfiable in at least one case
#[inline(always)]
pub fn cover(c: bool, code: u32) {
    unsafe { vp_cover(c, code) }
}
pub fn print(v: u64) {
    unsafe { vp_print(v) }
}
pub fn stop() -> ! {
    unsafe { vp_stop() }
}
