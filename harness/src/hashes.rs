//! C03 / C04: message digests.
#[path = "hash_consts.rs"]
mod consts;
use crate::vsym::*;
use consts::*;
use keramics_hashes::*;

crate::harness!(h_digest_def, h_digest_far, h_digest_byte, h_digest_split, h_digest_split3, h_digest_restart);

#[inline(always)]
fn word32(b: &[u8], i: usize, be: bool) -> u32 {
    let x = [b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]];
    if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) }
}
fn word64(b: &[u8], i: usize) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[8 * i..8 * i + 8]);
    u64::from_be_bytes(x)
}
/// bytes the context is told to have hashed in addition to the message
static EXTRA: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// message || 0x80 || zeros || bit length
fn pad(m: &[u8], block: usize, len_bytes: usize, be: bool) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % block != block - len_bytes {
        v.push(0);
    }
    let n = m.len() as u64 + EXTRA.load(std::sync::atomic::Ordering::Relaxed);
    let bits = n.wrapping_mul(8);
    if be {
        if len_bytes == 16 {
            v.extend_from_slice(&(n >> 61).to_be_bytes());
        }
        v.extend_from_slice(&bits.to_be_bytes());
    } else {
        v.extend_from_slice(&bits.to_le_bytes());
    }
    v
}
/// RFC 1321
fn md5_ref(m: &[u8]) -> Vec<u8> {
    let s: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut h: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    for x in pad(m, 64, 8, false).chunks(64) {
        let [mut a, mut b, mut c, mut d] = h;
        for i in 0..64usize {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((b & d) | (c & !d), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(word32(x, g, false)).wrapping_add(MD5_K[i]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(t.rotate_left(s[i / 16][i % 4]));
        }
        h = [h[0].wrapping_add(a), h[1].wrapping_add(b), h[2].wrapping_add(c), h[3].wrapping_add(d)];
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}
/// FIPS 180-4 section 6.1
fn sha1_ref(m: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for x in pad(m, 64, 8, true).chunks(64) {
        let mut w = [0u32; 80];
        for t in 0..16 {
            w[t] = word32(x, t, true);
        }
        for t in 16..80 {
            w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for t in 0..80 {
            let (f, k) = match t / 20 {
                0 => ((b & c) ^ (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let tmp = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = tmp;
        }
        let v = [a, b, c, d, e];
        for i in 0..5 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
macro_rules! sha2 {
    ($name:ident, $t:ty, $rounds:expr, $block:expr, $len:expr, $k:expr, $word:expr, $s0:expr, $s1:expr, $e0:expr, $e1:expr) => {
        /// FIPS 180-4 section 6.2 / 6.4
        fn $name(m: &[u8], init: &[$t; 8]) -> Vec<u8> {
            let mut h = *init;
            for x in pad(m, $block, $len, true).chunks($block) {
                let mut w = [0 as $t; $rounds];
                for t in 0..16 {
                    w[t] = $word(x, t);
                }
                for t in 16..$rounds {
                    let (p, q) = (w[t - 2], w[t - 15]);
                    let a = q.rotate_right($e0.0) ^ q.rotate_right($e0.1) ^ (q >> $e0.2);
                    let b = p.rotate_right($e1.0) ^ p.rotate_right($e1.1) ^ (p >> $e1.2);
                    w[t] = b.wrapping_add(w[t - 7]).wrapping_add(a).wrapping_add(w[t - 16]);
                }
                let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut hh] = h;
                for t in 0..$rounds {
                    let s1 = e.rotate_right($s1.0) ^ e.rotate_right($s1.1) ^ e.rotate_right($s1.2);
                    let ch = (e & f) ^ (!e & g);
                    let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add($k[t]).wrapping_add(w[t]);
                    let s0 = a.rotate_right($s0.0) ^ a.rotate_right($s0.1) ^ a.rotate_right($s0.2);
                    let maj = (a & b) ^ (a & c) ^ (b & c);
                    hh = g;
                    g = f;
                    f = e;
                    e = d.wrapping_add(t1);
                    d = c;
                    c = b;
                    b = a;
                    a = t1.wrapping_add(s0).wrapping_add(maj);
                }
                let v = [a, b, c, d, e, f, g, hh];
                for i in 0..8 {
                    h[i] = h[i].wrapping_add(v[i]);
                }
            }
            h.iter().flat_map(|x| x.to_be_bytes()).collect()
        }
    };
}
sha2!(sha256_like, u32, 64, 64, 8, K256, |x: &[u8], t: usize| word32(x, t, true), (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10));
sha2!(sha512_like, u64, 80, 128, 16, K512, word64, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6));

fn reference(alg: u64, m: &[u8]) -> Vec<u8> {
    match alg {
        0 => md5_ref(m),
        1 => sha1_ref(m),
        2 => {
            let mut v = sha256_like(m, &H224);
            v.truncate(28);
            v
        }
        3 => sha256_like(m, &H256),
        _ => sha512_like(m, &H512),
    }
}
macro_rules! with {
    ($alg:expr, $c:ident, $body:block) => {
        match $alg {
            0 => { let mut $c = Md5Context::new(); $body }
            1 => { let mut $c = Sha1Context::new(); $body }
            2 => { let mut $c = Sha224Context::new(); $body }
            3 => { let mut $c = Sha256Context::new(); $body }
            _ => { let mut $c = Sha512Context::new(); $body }
        }
    };
}
fn whole(alg: u64, m: &[u8]) -> Vec<u8> {
    with!(alg, c, {
        c.update(m);
        c.finalize()
    })
}
/// every message of n bytes
#[no_mangle]
pub extern "C" fn h_digest_def() {
    let alg = param("alg", 0);
    let m = any_vec(param("n", 3) as usize);
    let r = whole(alg, &m);
    let w = reference(alg, &m);
    observe_bytes("digest", &r);
    check(same(&r, &w), "digest differs from the standard");
    reach(1);
}
/// message of n bytes with one arbitrary byte: decided for every value of that byte even if the
/// implementation computes the round functions in another form than the reference
#[no_mangle]
pub extern "C" fn h_digest_byte() {
    let alg = param("alg", 0);
    let n = param("n", 3) as usize;
    let mut m: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(11)).collect();
    let x = concretize(any_u8() as u64) as u8;
    m[param("at", 0) as usize] = x;
    let r = whole(alg, &m);
    let w = reference(alg, &m);
    observe_bytes("digest", &r);
    check(same(&r, &w), "digest differs from the standard");
    reach(1);
}
/// two pieces, every split position (lo..=hi)
#[no_mangle]
pub extern "C" fn h_digest_split() {
    let alg = param("alg", 0);
    let n = param("n", 70) as usize;
    let lo = param("lo", 0);
    let hi = param("hi", n as u64).min(n as u64);
    let m = any_vec(n);
    let i = (lo + any_below(hi - lo + 1)) as usize;
    let w = whole(alg, &m);
    let r = with!(alg, c, {
        c.update(&m[..i]);
        c.update(&m[i..]);
        c.finalize()
    });
    observe("i", i as u64);
    observe_bytes("digest", &r);
    check(same(&r, &w), "digest depends on how the message is split");
    reach(1);
}
/// four pieces at fixed places, with empty ones
#[no_mangle]
pub extern "C" fn h_digest_split3() {
    let alg = param("alg", 0);
    let n = param("n", 130) as usize;
    let m = any_vec(n);
    let b = if alg == 4 { 128 } else { 64 };
    let cuts = [0, 1, b / 2, b - 1, b, b + 1, 2 * b - 1, 2 * b, n];
    let i = any_below(9) as usize;
    let j = any_below(9) as usize;
    let (i, j) = (cuts[i].min(n), cuts[j].min(n));
    assume(i <= j);
    let w = whole(alg, &m);
    let r = with!(alg, c, {
        c.update(&m[..i]);
        c.update(&[]);
        c.update(&m[i..j]);
        c.update(&m[j..]);
        c.update(&[]);
        c.finalize()
    });
    observe_bytes("digest", &r);
    check(same(&r, &w), "digest depends on how the message is split");
    reach(1);
}
/// a message hashed after another one (of n bytes, in two pieces) was finalized
#[no_mangle]
pub extern "C" fn h_digest_restart() {
    let alg = param("alg", 0);
    let n = param("n", 65) as usize;
    let k = param("k", 5) as usize;
    let a = any_vec(n);
    let b = any_vec(k);
    let w = whole(alg, &b);
    let e0 = whole(alg, &[]);
    let (r, e) = with!(alg, c, {
        c.update(&a[..n / 2]);
        c.update(&a[n / 2..]);
        c.finalize();
        c.update(&b);
        let r = c.finalize();
        (r, c.finalize())
    });
    observe_bytes("digest", &r);
    check(same(&r, &w), "digest after finalize differs from that of a new context");
    check(same(&e, &e0), "empty digest after finalize differs from that of a new context");
    reach(1);
}

/// where a context keeps the number of bytes it has hashed: found by comparing two contexts
fn counter_of<C>(a: &C, an: u32, b: &C, bn: u32) -> Option<(usize, bool)> {
    let size = std::mem::size_of::<C>();
    let word = |c: &C, o: usize| unsafe { (c as *const C as *const u8).add(o).cast::<u32>().read_unaligned() };
    let mut found = None;
    let mut o = 0;
    while o + 4 <= size {
        if word(a, o) == an && word(b, o) == bn {
            if found.is_some() {
                return None;
            }
            let wide = o % 8 == 0 && o + 8 <= size && word(a, o + 4) == 0 && word(b, o + 4) == 0;
            found = Some((o, wide));
        }
        o += 4;
    }
    found
}
macro_rules! far {
    ($new:expr, $block:expr, $tail:expr, $extra:expr) => {{
        let filler = [0xa5u8; 2 * $block + 1];
        let (mut a, mut b) = ($new, $new);
        a.update(&filler[..$block + 1]);
        b.update(&filler);
        let at = counter_of(&a, $block as u32, &b, 2 * $block as u32);
        let mut c = $new;
        let mut m = vec![0x5au8; $block];
        m.extend_from_slice($tail);
        c.update(&m[..$block + 1]);
        if let Some((o, wide)) = at {
            reach(2);
            let p = unsafe { (&mut c as *mut _ as *mut u8).add(o) };
            if wide {
                unsafe { p.cast::<u64>().write_unaligned($block as u64 + $extra) };
                EXTRA.store($extra, std::sync::atomic::Ordering::Relaxed);
            } else {
                assume($extra < (1u64 << 32) - $block as u64);
                unsafe { p.cast::<u32>().write_unaligned(($block as u64 + $extra) as u32) };
                EXTRA.store($extra, std::sync::atomic::Ordering::Relaxed);
            }
        }
        c.update(&m[$block + 1..]);
        (m, c.finalize())
    }};
}
/// a message after any number of further blocks: the state with a number of hashed bytes of up to 2^60
#[no_mangle]
pub extern "C" fn h_digest_far() {
    let alg = param("alg", 0);
    let tail = any_vec(param("n", 3) as usize);
    let extra = any_lt(1 << 60);
    let (m, r) = match alg {
        0 => far!(Md5Context::new(), 64, &tail, extra),
        1 => far!(Sha1Context::new(), 64, &tail, extra),
        2 => far!(Sha224Context::new(), 64, &tail, extra),
        3 => far!(Sha256Context::new(), 64, &tail, extra),
        _ => far!(Sha512Context::new(), 128, &tail, extra),
    };
    let w = reference(alg, &m);
    EXTRA.store(0, std::sync::atomic::Ordering::Relaxed);
    observe_bytes("digest", &r);
    check(same(&r, &w), "digest differs from the standard when many bytes were hashed before");
    reach(1);
}
