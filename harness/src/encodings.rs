//! C05 .. C09: character encodings and Base64.
use crate::vsym::*;
use keramics_encodings::*;
#[path = "enc_tables.rs"]
mod tables;
use tables::*;

crate::harness!(h_decode, h_decode932, h_encode, h_encode932, h_utf8, h_utf8_seq, h_seq_decode, h_seq_decode932, h_seq_bad932, h_seq_encode, h_base64, h_base64_stream, h_base64_trip);

const NONE: u32 = 0xffff_ffff;
const ERR: u32 = 0xffff_fffe;

fn item<E>(r: Option<Result<u32, E>>) -> u32 {
    match r {
        None => NONE,
        Some(Err(_)) => ERR,
        Some(Ok(v)) => v,
    }
}
fn expect(t: &[u16; 256], b: u8) -> u32 {
    let v = t[b as usize] as u32;
    if v == 0xffff { ERR } else { v }
}
/// every single byte decodes to what the published table says, and nothing follows
#[no_mangle]
pub extern "C" fn h_decode() {
    let id = param("enc", 2);
    let b = [any_u8()];
    let e = encoding(id);
    let mut d = new_character_decoder(&e, &b);
    let v = item(d.next());
    let w = expect(&TABLES[id as usize], b[0]);
    reach(1);
    observe("v", v as u64);
    check(v == w, "decoded code point differs from the published table");
    check(item(d.next()) == NONE, "decoder yields more than one character");
    check(item(d.next()) == NONE, "decoder resumes after its end");
}
/// Windows 932: lead byte (any value) and trail byte
#[no_mangle]
pub extern "C" fn h_decode932() {
    let lo = param("lo", 0);
    let b = [(lo + any_below(16)) as u8, any_u8()];
    let e = CharacterEncoding::Windows932;
    let mut d = new_character_decoder(&e, &b);
    let v = item(d.next());
    observe("v", v as u64);
    let row = CP932_ROW[b[0] as usize];
    let single = |x: u8| if x < 0x80 { x as u32 } else if x >= 0xa1 && x < 0xe0 { 0xff61 + (x as u32 - 0xa1) } else { ERR };
    let w = if row != 255 { expect(&CP932[row as usize], b[1]) } else { single(b[0]) };
    reach(1);
    check(v == w, "decoded code point differs from the published table");
    if row != 255 {
        check(item(d.next()) == NONE, "double byte character did not consume both bytes");
    } else if w != ERR {
        let mut d2 = new_character_decoder(&e, &b[1..]);
        check(item(d.next()) == item(d2.next()), "single byte character consumed more than one byte");
    }
}
fn enc1(id: &CharacterEncoding, cp: u32) -> (u32, usize) {
    let c = [cp];
    let mut e = new_character_encoder(id, &c);
    let r = match e.next() {
        None => (NONE, 0),
        Some(Err(_)) => (ERR, 0),
        Some(Ok(v)) => {
            let mut x = 0u32;
            for b in v.iter() {
                x = x << 8 | *b as u32;
            }
            (x, v.len())
        }
    };
    check(e.next().is_none(), "encoder yields more than one character");
    r
}
/// every code point: encoded to the byte that decodes to it, or refused when there is none
#[no_mangle]
pub extern "C" fn h_encode() {
    let id = param("enc", 2);
    let cp = any_u32();
    let t = &TABLES[id as usize];
    let (v, n) = enc1(&encoding(id), cp);
    observe("v", v as u64);
    reach(1);
    if v == ERR {
        let mut found = false;
        for b in 0..256usize {
            found |= (t[b] as u32 == cp) & (t[b] != 0xffff);
        }
        check(!found, "a code point of the code page is refused");
    } else {
        check(n == 1 && v < 256, "encoded to something that is not one byte");
        check(t[(v & 0xff) as usize] as u32 == cp && cp != 0xffff, "encoded byte decodes to another character");
    }
}
#[no_mangle]
pub extern "C" fn h_encode932() {
    let page = param("page", 0x4e);
    let step = param("step", 1);
    // page * 256 + a byte, or with step = 0 anything above U+FFFF
    let cp = if step == 0 {
        let x = any_u32();
        assume(x > 0xffff);
        x
    } else {
        ((page + any_below(step)) as u32) * 256 + any_u8() as u32
    };
    let (v, n) = enc1(&CharacterEncoding::Windows932, cp);
    observe("v", v as u64);
    reach(1);
    let single = |x: u32| (x < 0x80) | ((x >= 0xff61) & (x <= 0xff9f));
    if v == ERR {
        check(!single(cp), "a single byte character is refused");
        let mut found = false;
        for r in CP932.iter() {
            for x in r.iter() {
                found |= (*x as u32 == cp) & (*x != 0xffff);
            }
        }
        check(!found, "a code point of the code page is refused");
    } else if n == 1 {
        check(v < 0x100, "encoded byte");
        let w = if v < 0x80 { v } else if v >= 0xa1 && v < 0xe0 { 0xff61 + (v - 0xa1) } else { ERR };
        check(w == cp, "encoded byte decodes to another character");
    } else {
        check(n == 2, "encoded to more than two bytes");
        let row = CP932_ROW[(v >> 8) as usize & 0xff];
        check(row != 255, "encoded to an unassigned lead byte");
        check(expect(&CP932[row as usize], v as u8) == cp, "encoded bytes decode to another character");
    }
}

/// RFC 3629: (code point or ERR, length); every error consumes one byte
fn utf8_ref(b: &[u8]) -> (u32, usize) {
    let c = |i: usize| if i < b.len() { b[i] as u32 } else { 0 };
    let cont = |i: usize| i < b.len() && c(i) & 0xc0 == 0x80;
    let b0 = c(0);
    if b0 < 0x80 {
        return (b0, 1);
    }
    if b0 >> 5 == 6 {
        let v = (b0 & 31) << 6 | (c(1) & 63);
        if cont(1) && v >= 0x80 {
            return (v, 2);
        }
    } else if b0 >> 4 == 14 {
        let v = (b0 & 15) << 12 | (c(1) & 63) << 6 | (c(2) & 63);
        if cont(1) && cont(2) && v >= 0x800 && !(v >= 0xd800 && v < 0xe000) {
            return (v, 3);
        }
    } else if b0 >> 3 == 30 {
        let v = (b0 & 7) << 18 | (c(1) & 63) << 12 | (c(2) & 63) << 6 | (c(3) & 63);
        if cont(1) && cont(2) && cont(3) && v >= 0x10000 && v < 0x110000 {
            return (v, 4);
        }
    }
    (ERR, 1)
}
/// first character of every byte string of n bytes
#[no_mangle]
pub extern "C" fn h_utf8() {
    let n = param("n", 4) as usize;
    let b = any_vec(n);
    let mut d = DecoderUtf8::new(&b);
    let v = item(d.next());
    observe("v", v as u64);
    reach(1);
    if n == 0 {
        check(v == NONE, "empty input yields a character");
        return;
    }
    let (w, _) = utf8_ref(&b);
    check(v == w, "first character differs from RFC 3629");
}
/// the complete sequence, for valid input; an invalid sequence is reported as an error and decoding ends
#[no_mangle]
pub extern "C" fn h_utf8_seq() {
    let n = param("n", 3) as usize;
    let b = any_window(n);
    let e = CharacterEncoding::Utf8;
    let mut d = new_character_decoder(&e, &b);
    let mut at = 0;
    while at < n {
        let (w, k) = utf8_ref(&b[at..]);
        let v = item(d.next());
        observe("v", v as u64);
        check(v == w, "character differs from RFC 3629");
        if w == ERR {
            // some number of bytes was skipped, but the decoder has to come to its end
            for _ in 0..n {
                if item(d.next()) == NONE {
                    return;
                }
            }
            fail("decoder does not end after an error");
        }
        at += k;
    }
    reach(1);
    check(item(d.next()) == NONE, "decoder continues after its input");
}
/// decoding a string is decoding its characters one after the other
#[no_mangle]
pub extern "C" fn h_seq_decode() {
    let id = param("enc", 2);
    let n = param("n", 2) as usize;
    let b = any_window(n);
    let e = encoding(id);
    let mut d = new_character_decoder(&e, &b);
    for i in 0..n {
        let mut s = new_character_decoder(&e, &b[i..i + 1]);
        let v = item(d.next());
        observe("v", v as u64);
        check(v == item(s.next()), "character depends on its neighbours");
    }
    reach(1);
    check(item(d.next()) == NONE, "decoder continues after its input");
}
#[no_mangle]
pub extern "C" fn h_seq_decode932() {
    let n = param("n", 4) as usize;
    let mut b = any_vec(n);
    // two characters: single byte / double byte with an arbitrary trail byte
    b[0] = concretize(b[0] as u64) as u8;
    let e = CharacterEncoding::Windows932;
    let k = if CP932_ROW[b[0] as usize] != 255 { 2 } else { 1 };
    let mut f = new_character_decoder(&e, &b[..k]);
    let mut d = new_character_decoder(&e, &b);
    let mut t = new_character_decoder(&e, &b[k..]);
    let v = item(d.next());
    let first = item(f.next());
    check(v == first, "first character depends on what follows");
    if first != ERR {
        let x = item(d.next());
        observe("x", x as u64);
        check(x == item(t.next()), "second character depends on the first");
    }
    reach(1);
}
/// a byte that starts no character of the code page is passed over alone; a lead byte alone or with its trail byte
#[no_mangle]
pub extern "C" fn h_seq_bad932() {
    let part = param("part", 0);
    let mut b = any_array::<3>();
    b[0] = concretize(b[0] as u64) as u8;
    let lead = (b[0] >= 0x81 && b[0] < 0xa0) || (b[0] >= 0xe0 && b[0] < 0xfd);
    let row = CP932_ROW[b[0] as usize] != 255;
    if part == 0 {
        assume(!row && b[0] >= 0x80 && !(b[0] >= 0xa1 && b[0] < 0xe0));
    } else {
        // mapped lead byte with a byte that is no trail byte
        assume(row);
        b[1] = [0x00, 0x3f, 0x7f, 0xfd, 0xff][(part - 1) as usize];
    }
    let e = CharacterEncoding::Windows932;
    let mut d = new_character_decoder(&e, &b);
    check(item(d.next()) == ERR, "bytes without a mapping are decoded");
    let x = item(d.next());
    observe("x", x as u64);
    let t1 = item(new_character_decoder(&e, &b[1..]).next());
    let t2 = if lead { item(new_character_decoder(&e, &b[2..]).next()) } else { t1 };
    reach(1);
    check(x == t1 || x == t2, "what follows a byte without a character is decoded differently");
}
#[no_mangle]
pub extern "C" fn h_seq_encode() {
    let id = param("enc", 2);
    let e = encoding(id);
    let c = [any_u32(), any_u32()];
    let mut d = new_character_encoder(&e, &c);
    for i in 0..2 {
        let one = [c[i]];
        let mut s = new_character_encoder(&e, &one);
        match (d.next(), s.next()) {
            (Some(Ok(x)), Some(Ok(y))) => {
                observe("len", x.len() as u64);
                check(same(&x, &y), "encoded character depends on its neighbours")
            }
            (Some(Err(_)), Some(Err(_))) => {}
            _ => fail("encoded character depends on its neighbours"),
        }
    }
    reach(1);
    check(d.next().is_none(), "encoder continues after its input");
}

fn b64(c: u8) -> u8 {
    match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'+' => 62,
        b'/' => 63,
        b'=' => 64,
        9 | 10 | 11 | 13 | 32 => 65,
        _ => 66,
    }
}
const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/// decoding what RFC 4648 encoding produces (padded or not) returns the data
#[no_mangle]
pub extern "C" fn h_base64_trip() {
    let n = param("n", 4) as usize;
    let pad = param("pad", 1) == 1;
    // a window of `k` arbitrary bytes at `at`, the other bytes fixed
    let (k, at) = (param("k", n as u64) as usize, param("at", 0) as usize);
    let mut m: Vec<u8> = (0..n).map(|i| (i * 89 + 251) as u8).collect();
    m[at..at + k].copy_from_slice(&any_vec(k));
    let mut t = vec![];
    for c in m.chunks(3) {
        let x = (c[0] as u32) << 16 | (if c.len() > 1 { c[1] as u32 } else { 0 }) << 8 | if c.len() > 2 { c[2] as u32 } else { 0 };
        for k in 0..4 {
            if k <= c.len() {
                t.push(ALPHABET[(x >> (18 - 6 * k)) as usize & 63]);
            } else if pad {
                t.push(b'=');
            }
        }
    }
    let mut out = vec![0x55u8; n + param("extra", 0) as usize];
    let mut ctx = Base64Context::new();
    let r = ctx.decode(&t, &mut out);
    reach(1);
    check(r.is_ok(), "valid Base64 is refused");
    check(ctx.data_size == n, "decoded size");
    check(same(&out[..n], &m), "decoded data differs");
    check(out[n..].iter().all(|x| *x == 0x55), "wrote beyond the decoded data");
    observe("n", ctx.data_size as u64);
}
/// every text of n characters: refused when it has characters outside the alphabet
/// before the padding, never a panic, and otherwise the concatenation of its six bit groups
#[no_mangle]
pub extern "C" fn h_base64() {
    let n = param("n", 4) as usize;
    let cap = param("cap", 16) as usize;
    let t = any_vec(n);
    let mut out = vec![0u8; cap];
    let mut ctx = Base64Context::new();
    let ok = ctx.decode(&t, &mut out).is_ok();
    observe("ok", ok as u64);
    let (mut bits, mut nb, mut w, mut bad, mut end) = (0u32, 0, vec![], false, n);
    for i in 0..n {
        let v = b64(t[i]);
        if v == 64 {
            end = i;
            break;
        }
        if v > 64 {
            bad = true;
            break;
        }
        bits = bits << 6 | v as u32;
        nb += 6;
        if nb >= 8 {
            nb -= 8;
            w.push((bits >> nb) as u8);
            bits &= (1 << nb) - 1;
        }
    }
    reach(1);
    if w.len() > cap {
        check(!ok, "decoding did not fail although the buffer is too small");
        return;
    }
    if bad {
        check(!ok, "a character outside the alphabet was accepted");
        return;
    }
    // padding: the group of four has to be filled up
    let fill = (4 - end % 4) % 4;
    let mut padok = true;
    if end < n {
        for i in 0..fill {
            if end + i >= n || t[end + i] != b'=' {
                padok = false;
                break;
            }
        }
    }
    check(ok == padok, "padding accepted or refused wrongly");
    if ok {
        check(ctx.data_size == w.len(), "decoded size");
        check(same(&out[..w.len()], &w), "decoded data differs");
    }
}
/// byte stream with white space skipped (or not)
#[no_mangle]
pub extern "C" fn h_base64_stream() {
    let n = param("n", 4) as usize;
    let skip = param("skip", 1) == 1;
    let off = param("off", 0) as usize;
    let t = any_vec(n);
    let mut s = Base64Stream::new(&t, off, skip);
    let (mut bits, mut nb) = (0u32, 0);
    let mut i = off;
    let mut ended = false;
    while i < n {
        let v = b64(t[i]);
        if v == 64 {
            break;
        }
        i += 1;
        if v == 65 && skip {
            continue;
        }
        if v > 64 {
            check(s.get_value().is_err(), "a character outside the alphabet was accepted");
            ended = true;
            break;
        }
        bits = bits << 6 | v as u32;
        nb += 6;
        if nb >= 8 {
            nb -= 8;
            let w = (bits >> nb) as u8;
            bits &= (1 << nb) - 1;
            match s.get_value() {
                Ok(Some(x)) => {
                    observe("x", x as u64);
                    check(x == w, "decoded byte differs")
                }
                _ => fail("decoder ended early"),
            }
        }
    }
    reach(1);
    if !ended {
        match s.get_value() {
            Ok(None) => {}
            _ => fail("decoder continues after the end of the data"),
        }
        check(s.found_padding == (i < n), "padding flag");
        match s.get_value() {
            Ok(None) => {}
            _ => fail("decoder continues after the end of the data"),
        }
    }
}
