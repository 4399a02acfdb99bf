//! Symbolic primitives. The engine intercepts the `rsym_*` symbols; the bodies
//! below are the native replay semantics (inputs are read from a byte vector).
use std::cell::RefCell;
use std::collections::HashMap;

pub struct Replay {
    pub input: Vec<u8>,
    pub pos: usize,
    pub params: HashMap<String, u64>,
}
thread_local! {
    pub static REPLAY: RefCell<Option<Replay>> = const { RefCell::new(None) };
}

macro_rules! opaque {
    ($($x:expr),*) => { unsafe { $( core::arch::asm!("/* {0} */", in(reg) $x, options(nostack)); )* } };
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_any(p: *mut u8, n: usize) {
    opaque!(p, n);
    REPLAY.with(|r| {
        let mut r = r.borrow_mut();
        let r = r.as_mut().unwrap();
        for i in 0..n {
            let v = r.input.get(r.pos).copied().unwrap_or(0);
            r.pos += 1;
            unsafe { *p.add(i) = v };
        }
    });
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_assume(c: u64) {
    opaque!(c);
    if c == 0 {
        println!("ASSUME-FAILED");
        std::process::exit(77);
    }
}
/// assumes v < n; the value returned is v, which the engine then knows to be in range
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_bound(v: u64, n: u64) -> u64 {
    opaque!(v);
    if v >= n {
        println!("ASSUME-FAILED");
        std::process::exit(77);
    }
    hide(v)
}
/// v, in a way that the compiler does not see that the result is the argument
#[inline(always)]
fn hide(mut v: u64) -> u64 {
    unsafe { core::arch::asm!("/* {0} */", inout(reg) v, options(nostack)) };
    v
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_fail(p: *const u8, n: usize) -> ! {
    opaque!(p, n);
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    println!("ASSERTION-FAILED {}", String::from_utf8_lossy(s));
    std::process::exit(78);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_param(p: *const u8, n: usize, d: u64) -> u64 {
    opaque!(p, n, d);
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    let k = String::from_utf8_lossy(s).to_string();
    let r = REPLAY.with(|r| r.borrow().as_ref().and_then(|r| r.params.get(&k).copied()).unwrap_or(d));
    opaque!(r);
    r
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_observe(p: *const u8, n: usize, v: u64) {
    opaque!(p, n, v);
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    println!("OBS {} {}", String::from_utf8_lossy(s), v);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_reach(id: u32) {
    opaque!(id);
    println!("REACH {}", id);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_concretize(v: u64) -> u64 {
    // the result must not be seen as equal to the argument by the optimiser
    let r: u64;
    unsafe { core::arch::asm!("mov {0}, {1}", out(reg) r, in(reg) v, options(nostack)) };
    r
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn rsym_merge(f: extern "C" fn(*mut u8), d: *mut u8) {
    opaque!(d);
    f(d)
}

pub fn any_bytes(b: &mut [u8]) {
    rsym_any(b.as_mut_ptr(), b.len());
}
pub fn any_array<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    any_bytes(&mut b);
    b
}
pub fn any_u8() -> u8 {
    any_array::<1>()[0]
}
pub fn any_u16() -> u16 {
    u16::from_le_bytes(any_array())
}
pub fn any_u32() -> u32 {
    u32::from_le_bytes(any_array())
}
pub fn any_u64() -> u64 {
    u64::from_le_bytes(any_array())
}
pub fn any_bool() -> bool {
    any_u8() & 1 == 1
}
pub fn any_vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    any_bytes(&mut v);
    v
}
/// n bytes: arbitrary, or (params "k" and "at") a window of k arbitrary bytes in fixed non-zero ASCII bytes
pub fn any_window(n: usize) -> Vec<u8> {
    let k = param("k", n as u64) as usize;
    if k >= n {
        return any_vec(n);
    }
    let at = param("at", 0) as usize;
    let mut v: Vec<u8> = (0..n).map(|i| 0x30 + (i * 7 % 40) as u8).collect();
    v[at..at + k].copy_from_slice(&any_vec(k));
    v
}
/// symbolic value below n, concretised (one path per value)
pub fn any_below(n: u64) -> u64 {
    let v = if n <= 256 { any_u8() as u64 } else { any_u16() as u64 };
    assume(v < n);
    rsym_concretize(v)
}
/// symbolic value below n (not concretised)
pub fn any_lt(n: u64) -> u64 {
    let v = if n <= 1 << 8 { any_u8() as u64 } else if n <= 1 << 16 { any_u16() as u64 } else if n <= 1 << 32 { any_u32() as u64 } else { any_u64() };
    rsym_bound(v, n)
}
pub fn assume(c: bool) {
    rsym_assume(c as u64)
}
pub fn fail(m: &str) -> ! {
    rsym_fail(m.as_ptr(), m.len())
}
pub fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}
pub fn param(n: &str, d: u64) -> u64 {
    rsym_param(n.as_ptr(), n.len(), d)
}
pub fn observe(n: &str, v: u64) {
    rsym_observe(n.as_ptr(), n.len(), v)
}
pub fn observe_bytes(n: &str, b: &[u8]) {
    observe(n, b.len() as u64);
    for x in b {
        observe(n, *x as u64);
    }
}
pub fn reach(id: u32) {
    rsym_reach(id)
}
pub fn concretize(v: u64) -> u64 {
    rsym_concretize(v)
}
/// run a closure; the engine joins its paths into one state with if-then-else values
pub fn merged<T: Copy + Default, F: FnMut() -> T>(mut f: F) -> T {
    struct D<'a, T, F: FnMut() -> T>(&'a mut F, T);
    extern "C" fn tramp<T: Copy, F: FnMut() -> T>(d: *mut u8) {
        let d = unsafe { &mut *(d as *mut D<T, F>) };
        d.1 = (d.0)();
    }
    let mut d = D(&mut f, T::default());
    rsym_merge(tramp::<T, F>, &mut d as *mut _ as *mut u8);
    unsafe { core::ptr::read_volatile(&d.1) }
}
/// equality of byte strings without branching per byte
/// how often to repeat what depends on the random iteration order of hash maps: once symbolically, n times in a native run
pub fn native_runs(n: u64) -> u64 {
    if param("native", 0) == 1 { n } else { 1 }
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
