//! C01 / C02: Adler-32 and CRC-32.
use crate::vsym::*;
use keramics_checksums::*;

crate::harness!(h_adler_def, h_adler_long, h_mod_lemma, h_crc_step, h_crc_poly, h_crc_def, h_adler_split, h_adler_split_long, h_crc_split, h_restart);

const M: u32 = 65521;

/// v mod 65521 in the shift-and-add form; h_mod_lemma shows it equals `%`
#[inline(always)]
fn fold(mut v: u32) -> u32 {
    let h: u32 = v >> 16;
    v &= 0xffff;
    v += (h << 4) - h;
    if v > 65521 {
        let h: u32 = v >> 16;
        v &= 0xffff;
        v += (h << 4) - h;
    }
    if v >= 65521 {
        v -= 65521;
    }
    v
}
fn modulo(v: u32) -> u32 {
    if param("fold", 0) == 1 { fold(v) } else { v % M }
}
/// Adler-32 by its definition: plain sums, reduced at the end (at most 5552 bytes, so they fit)
fn adler_sum(init: u32, d: &[u8]) -> u32 {
    let n = d.len() as u32;
    let a0 = init & 0xffff;
    let mut a = a0;
    let mut b = (init >> 16).wrapping_add(a0.wrapping_mul(n));
    for (i, x) in d.iter().enumerate() {
        a = a.wrapping_add(*x as u32);
        b = b.wrapping_add((n.wrapping_sub(i as u32)).wrapping_mul(*x as u32));
    }
    modulo(b) << 16 | modulo(a)
}
fn adler_ref(init: u32, d: &[u8]) -> u32 {
    let mut i = init;
    for b in d.chunks(5552) {
        i = adler_sum(i, b);
    }
    i
}
/// for every 32-bit v = 65536 h + l = 65521 h + (15 h + l): the folded form r is v mod 65521,
/// because r < 65521 and 15 h + l = 65521 k + r
#[no_mangle]
pub extern "C" fn h_mod_lemma() {
    let v = any_u32();
    let r = fold(v);
    let a = (v & 0xffff) + 15 * (v >> 16);
    let mut k = 0;
    if a > M {
        let b = (a & 0xffff) + 15 * (a >> 16);
        k = (a >> 16) + (b >= M) as u32;
    } else if a == M {
        k = 1;
    }
    check(r < M, "reduced value out of range");
    check(k < 32 && a == k * M + r, "shift-and-add reduction differs from the modulus");
    reach(1);
}
fn any_adler() -> u32 {
    let i = any_u32();
    assume((i & 0xffff) < M);
    assume((i >> 16) < M);
    i
}
fn adler(init: u32, d: &[u8]) -> u32 {
    let mut c = Adler32Context::new(init);
    c.update(d);
    c.finalize()
}

/// every initial value, every content of n bytes
#[no_mangle]
pub extern "C" fn h_adler_def() {
    let n = param("n", 8) as usize;
    let i = if param("init", 1) == 1 { any_adler() } else { 1 };
    let v = any_vec(n);
    let r = adler(i, &v);
    observe("sum", r as u64);
    check(r == adler_ref(i, &v), "adler32 differs from its definition");
    reach(1);
}
/// long inputs: filler bytes with symbolic bytes around a chosen position
#[no_mangle]
pub extern "C" fn h_adler_long() {
    let n = param("n", 5552) as usize;
    let at = param("at", 0) as usize;
    let k = (param("k", 2) as usize).min(n - at);
    let i = if param("init", 0) == 1 { any_adler() } else { param("i0", 1) as u32 };
    let mut v = vec![param("fill", 255) as u8; n];
    any_bytes(&mut v[at..at + k]);
    let r = adler(i, &v);
    observe("sum", r as u64);
    check(r == adler_ref(i, &v), "adler32 of a long input differs from its definition");
    reach(1);
}

fn crc(rev: bool, poly: u32, init: u32, d: &[u8]) -> u32 {
    if rev {
        let mut c = ReversedCrc32Context::new(poly, init);
        c.update(d);
        c.finalize()
    } else {
        let mut c = Crc32Context::new(poly, init);
        c.update(d);
        c.finalize()
    }
}
/// bit-serial division, without branches
fn crc_ref(rev: bool, poly: u32, init: u32, d: &[u8]) -> u32 {
    let mut x = !init;
    for b in d {
        if rev {
            x ^= *b as u32;
            for _ in 0..8 {
                x = (x >> 1) ^ (poly & 0u32.wrapping_sub(x & 1));
            }
        } else {
            x ^= (*b as u32) << 24;
            for _ in 0..8 {
                x = (x << 1) ^ (poly & 0u32.wrapping_sub(x >> 31));
            }
        }
    }
    !x
}
/// every register value and every byte: one step of the definition
#[no_mangle]
pub extern "C" fn h_crc_step() {
    let poly = param("poly", 0xedb88320) as u32;
    let rev = param("rev", 1) == 1;
    let i = any_u32();
    let v = any_vec(1);
    let r = crc(rev, poly, i, &v);
    observe("crc", r as u64);
    check(r == crc_ref(rev, poly, i, &v), "crc32 step differs from bit-serial division");
    reach(1);
}
/// every polynomial, for fixed data
#[no_mangle]
pub extern "C" fn h_crc_poly() {
    let rev = param("rev", 1) == 1;
    let poly = any_u32();
    let v = [param("b", 0xa5) as u8];
    let r = crc(rev, poly, 0, &v);
    observe("crc", r as u64);
    check(r == crc_ref(rev, poly, 0, &v), "crc32 for this polynomial differs from bit-serial division");
    reach(1);
}
/// standard initial value, n arbitrary bytes
#[no_mangle]
pub extern "C" fn h_crc_def() {
    let n = param("n", 2) as usize;
    let rev = param("rev", 1) == 1;
    let poly = param("poly", 0xedb88320) as u32;
    let v = any_vec(n);
    let r = crc(rev, poly, 0, &v);
    observe("crc", r as u64);
    check(r == crc_ref(rev, poly, 0, &v), "crc32 differs from bit-serial division");
    reach(1);
}

/// pieces [0..i), [i..j), [j..n) for every i <= j <= n
#[no_mangle]
pub extern "C" fn h_adler_split() {
    let n = param("n", 6) as usize;
    let any = param("init", 0) == 1;
    let init = if any { any_adler() } else { 1 };
    let v = any_vec(n);
    let i = any_below(n as u64 + 1) as usize;
    let j = any_below(n as u64 + 1) as usize;
    assume(i <= j);
    let mut c = Adler32Context::new(init);
    c.update(&v[..i]);
    c.update(&v[i..j]);
    c.update(&v[j..]);
    let r = c.finalize();
    observe("sum", r as u64);
    if any {
        // the definition, continued over the pieces (C01: `whole` is the definition too)
        let w = adler_ref(adler_ref(adler_ref(init, &v[..i]), &v[i..j]), &v[j..]);
        check(r == w, "adler32 of pieces does not continue from the sum so far");
    } else {
        check(r == adler(init, &v), "adler32 depends on how the data is split");
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_adler_split_long() {
    let n = param("n", 5560) as usize;
    let at = param("at", 5550) as usize;
    let init = param("i0", 1) as u32;
    let mut v = vec![255u8; n];
    let s = param("s", 5552) as usize;
    any_bytes(&mut v[at..at + 1]);
    let mut c = Adler32Context::new(init);
    c.update(&v[..s]);
    c.update(&v[s..]);
    let r = c.finalize();
    let whole = adler(init, &v);
    observe("sum", r as u64);
    check(r == whole, "adler32 of a long input depends on how the data is split");
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_crc_split() {
    let n = param("n", 6) as usize;
    let rev = param("rev", 1) == 1;
    let poly = param("poly", 0xedb88320) as u32;
    let init = any_u32();
    let v = any_vec(n);
    let i = any_below(n as u64 + 1) as usize;
    let j = any_below(n as u64 + 1) as usize;
    assume(i <= j);
    let whole = crc(rev, poly, init, &v);
    let r = if rev {
        let mut c = ReversedCrc32Context::new(poly, init);
        c.update(&v[..i]);
        c.update(&v[i..j]);
        c.update(&v[j..]);
        c.finalize()
    } else {
        let mut c = Crc32Context::new(poly, init);
        c.update(&v[..i]);
        c.update(&v[i..j]);
        c.update(&v[j..]);
        c.finalize()
    };
    observe("crc", r as u64);
    check(r == whole, "crc32 depends on how the data is split");
    reach(1);
}
/// a finalized context (after any history of up to two pieces) equals a new one
#[no_mangle]
pub extern "C" fn h_restart() {
    let kind = param("kind", 0);
    let n = param("n", 3) as usize;
    let first = any_vec(n);
    let second = any_vec(n);
    let k = any_below(n as u64 + 1) as usize;
    macro_rules! go {
        ($new:expr) => {{
            let mut c = $new;
            c.update(&first[..k]);
            c.update(&first[k..]);
            c.finalize();
            c.update(&second);
            let r = c.finalize();
            let e = c.finalize();
            let mut f = $new;
            f.update(&second);
            let w = f.finalize();
            let mut g = $new;
            let x = g.finalize();
            observe("sum", r as u64);
            check(r == w, "checksum after finalize differs from that of a new context");
            check(e == x, "finalize does not restore the initial state");
        }};
    }
    match kind {
        0 => {
            let init = any_adler();
            go!(Adler32Context::new(init))
        }
        1 => {
            let init = any_u32();
            go!(Crc32Context::new(0x04c11db7, init))
        }
        _ => {
            let init = any_u32();
            go!(ReversedCrc32Context::new(0xedb88320, init))
        }
    }
    reach(1);
}
