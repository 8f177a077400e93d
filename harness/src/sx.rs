//! Interface between a harness and whatever runs it: the symbolic executor (externs resolved by symx) or the
//! native replayer (feature "native").
#![allow(dead_code)]
extern "C-unwind" {
    fn symx_bytes(p: *mut u8, n: usize);
    fn symx_choose(n: u32) -> u32;
    fn symx_assume(c: bool);
    fn symx_assert(c: bool, p: *const u8, n: usize);
    fn symx_fail(p: *const u8, n: usize) -> !;
    fn symx_obs(tag: u32, v: u64);
    fn symx_obs_bytes(tag: u32, p: *const u8, n: usize);
    fn symx_reach(p: *const u8, n: usize);
    fn symx_expect(p: *const u8, n: usize);
    fn symx_param(i: u32) -> u64;
    fn symx_concretize(v: u64) -> u64;
    fn symx_prune(p: *const u8, n: usize);
}
/// fill with fresh symbolic bytes
pub fn fill(b: &mut [u8]) {
    if !b.is_empty() {
        unsafe { symx_bytes(b.as_mut_ptr(), b.len()) }
    }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn u8() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
pub fn u16() -> u16 {
    let mut b = [0u8; 2];
    fill(&mut b);
    u16::from_le_bytes(b)
}
pub fn u32() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_le_bytes(b)
}
/// symbolic value < n (n <= 256), as a symbolic byte
pub fn below(n: u16) -> u8 {
    let b = u8();
    assume((b as u16) < n);
    b
}
/// symbolic boolean
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// nondeterministic choice 0..n; the executor explores every alternative
pub fn choose(n: u32) -> u32 {
    unsafe { symx_choose(n) }
}
pub fn coin() -> bool {
    choose(2) == 1
}
pub fn assume(c: bool) {
    unsafe { symx_assume(c) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { symx_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &'static str) -> ! {
    unsafe { symx_fail(msg.as_ptr(), msg.len()) }
}
pub fn obs(tag: u32, v: u64) {
    unsafe { symx_obs(tag, v) }
}
pub fn obs_bytes(tag: u32, v: &[u8]) {
    unsafe { symx_obs_bytes(tag, v.as_ptr(), v.len()) }
}
/// marks a situation as exercised
pub fn reach(msg: &'static str) {
    unsafe { symx_reach(msg.as_ptr(), msg.len()) }
}
/// declares situations that must be exercised by some feasible path of this job (vacuity check)
pub fn expect(l: &[&'static str]) {
    for m in l {
        unsafe { symx_expect(m.as_ptr(), m.len()) }
    }
}
pub fn param(i: u32) -> u64 {
    unsafe { symx_param(i) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { symx_concretize(v) }
}
pub fn prune(b: &[u8]) {
    unsafe { symx_prune(b.as_ptr(), b.len()) }
}

#[macro_export]
macro_rules! entries {
    ($($sym:ident => $f:expr),* $(,)?) => {
        $(#[no_mangle] pub extern "C-unwind" fn $sym() { ($f)() })*
        #[cfg(feature = "native")]
        fn main() {
            $crate::native::run(&[$((stringify!($sym), ({ $f }) as fn())),*]);
        }
        #[cfg(not(feature = "native"))]
        fn main() {
            let k = std::env::args().count();
            $(if k == stringify!($sym).len() + 1000 { $sym(); })*
        }
    };
}
