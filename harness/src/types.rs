//! C15 .. C19: strings, UUIDs and integer readers.
use crate::vsym::*;
use keramics_encodings::*;
use keramics_types::constants::UCS2_CASE_MAPPINGS;
use keramics_types::*;
use std::cmp::Ordering;
use std::collections::HashMap;
#[path = "upcase.rs"]
mod upcase;
use upcase::UPCASE;

crate::harness!(
    h_bytes, h_bytes_read, h_bytes_cmp, h_bytes_text, h_bytes_extend, h_bytes_extend_utf8, h_u16_bytes, h_ucs2_text, h_ucs2_from_text, h_utf16_text, h_ucs2_cmp, h_fold, h_fold_cmp, h_fold_table, h_uuid_bytes,
    h_uuid_text, h_uuid_length, h_integers
);

fn prefix(b: &[u8]) -> usize {
    let mut n = 0;
    while n < b.len() && b[n] != 0 {
        n += 1;
    }
    n
}
/// creation from bytes, and comparison with bytes
#[no_mangle]
pub extern "C" fn h_bytes() {
    let n = param("n", 3) as usize;
    let b = any_window(n);
    let s = if param("vec", 0) == 1 { ByteString::from(&b) } else { ByteString::from(b.as_slice()) };
    let p = prefix(&b);
    reach(1);
    observe_bytes("s", &s.elements);
    check(s.elements.len() == p && same(&s.elements, &b[..p]), "the string is not the bytes before the terminator");
    check(s.len() == p && s.is_empty() == (p == 0), "length or emptiness is wrong");
    check(s == &b[..p], "the string differs from its bytes");
    check((s == &b[..]) == (p == n), "equality with bytes is wrong");
    check(s.encoding == CharacterEncoding::Utf8, "wrong encoding");
    check(ByteString::new().is_empty() && ByteString::new() == ByteString::from(&[][..]), "a new string is not empty");
}
/// reading into a string that already has content
#[no_mangle]
pub extern "C" fn h_bytes_read() {
    let (n, m) = (param("n", 3) as usize, param("m", 2) as usize);
    let (a, b) = (any_window(n), any_vec(m));
    let mut s = ByteString::new_with_encoding(&CharacterEncoding::Windows1252);
    s.read_data(&a);
    let p = prefix(&a);
    check(same(&s.elements, &a[..p]), "the string is not the bytes before the terminator");
    s.read_data(&b);
    let q = prefix(&b);
    observe_bytes("s", &s.elements);
    reach(1);
    check(s.len() == p + q && same(&s.elements[..p], &a[..p]) && same(&s.elements[p..], &b[..q]), "reading more data does not append it");
    check(s.encoding == CharacterEncoding::Windows1252, "wrong encoding");
}
fn order<T: PartialOrd>(a: &[T], b: &[T]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if b[i] < a[i] {
            return Ordering::Greater;
        }
        i += 1;
    }
    if a.len() < b.len() {
        Ordering::Less
    } else if b.len() < a.len() {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
#[no_mangle]
pub extern "C" fn h_bytes_cmp() {
    let (n, m) = (param("n", 2) as usize, param("m", 2) as usize);
    let (a, b) = (any_window(n), any_window(m));
    let (mut s, mut t) = (ByteString::new(), ByteString::new());
    s.elements = a.clone();
    t.elements = b.clone();
    let o = order(&a, &b);
    reach(1);
    observe("o", o as i64 as u64);
    check(s.cmp(&t) == o && s.partial_cmp(&t) == Some(o), "the order is not the order of the bytes");
    check((s == t) == (o == Ordering::Equal), "equality is not equality of the bytes");
    if let Ok(text) = std::str::from_utf8(&b) {
        check((s == text) == (o == Ordering::Equal), "equality with text is not equality of the bytes");
    }
}
fn push(out: &mut Vec<u8>, cp: u32) {
    if cp < 0x80 {
        out.push(cp as u8);
    } else if cp < 0x800 {
        out.push(0xc0 | (cp >> 6) as u8);
        out.push(0x80 | (cp & 63) as u8);
    } else if cp < 0x10000 {
        out.push(0xe0 | (cp >> 12) as u8);
        out.push(0x80 | (cp >> 6 & 63) as u8);
        out.push(0x80 | (cp & 63) as u8);
    } else {
        out.push(0xf0 | (cp >> 18) as u8);
        out.push(0x80 | (cp >> 12 & 63) as u8);
        out.push(0x80 | (cp >> 6 & 63) as u8);
        out.push(0x80 | (cp & 63) as u8);
    }
}
/// text with the backslash doubled, and code points that are not characters as \{hex}
fn push_escaped(out: &mut Vec<u8>, cp: u32) {
    if cp == 0x5c {
        out.extend_from_slice(b"\\\\");
    } else if cp >= 0xd800 && cp < 0xe000 {
        out.extend_from_slice(b"\\{");
        for i in (0..4).rev() {
            out.push(digit((cp >> (4 * i)) as u8 & 15));
        }
        out.push(b'}');
    } else {
        push(out, cp);
    }
}
fn digit(v: u8) -> u8 {
    if v < 10 { b'0' + v } else { b'a' + (v - 10) }
}
fn encoding(i: u64) -> CharacterEncoding {
    match i {
        0 => CharacterEncoding::Ascii,
        1 => CharacterEncoding::Iso8859_1,
        2 => CharacterEncoding::Windows1252,
        3 => CharacterEncoding::Windows932,
        4 => CharacterEncoding::Iso8859_15,
        5 => CharacterEncoding::MacCyrillic,
        _ => CharacterEncoding::Utf8,
    }
}
/// the text is what the characters of the encoding are
#[no_mangle]
pub extern "C" fn h_bytes_text() {
    let (n, enc) = (param("n", 2) as usize, encoding(param("enc", 6)));
    let mut b = any_vec(n);
    if param("lead", 256) < 256 {
        b[0] = param("lead", 0) as u8;
    }
    let mut s = ByteString::new_with_encoding(&enc);
    s.elements = b.clone();
    let text = s.to_string();
    let mut want = vec![];
    let mut d = new_character_decoder(&enc, &b);
    while let Some(r) = d.next() {
        match r {
            Ok(cp) => push_escaped(&mut want, cp),
            Err(_) => push(&mut want, 0xfffd),
        }
    }
    observe_bytes("t", text.as_bytes());
    reach(1);
    check(same(text.as_bytes(), &want), "the text is not the decoded characters");
}
/// extending a string by one of the same or another encoding
#[no_mangle]
pub extern "C" fn h_bytes_extend() {
    let (n, src, dst) = (param("n", 2) as usize, encoding(param("src", 1)), encoding(param("dst", 2)));
    let b = any_vec(n);
    let mut s = ByteString::new_with_encoding(&src);
    s.elements = b.clone();
    let mut t = ByteString::new_with_encoding(&dst);
    t.elements = vec![0x41];
    let r = t.extend(&s);
    // reference: all characters decoded, then encoded
    let mut cps = vec![];
    let mut good = true;
    let mut want = vec![0x41];
    if src == dst {
        want.extend_from_slice(&b);
    } else {
        let mut d = new_character_decoder(&src, &b);
        while let Some(r) = d.next() {
            match r {
                Ok(c) => cps.push(c),
                Err(_) => good = false,
            }
        }
        if good {
            if dst == CharacterEncoding::Utf8 {
                for c in &cps {
                    push(&mut want, *c);
                }
            } else {
                let mut e = new_character_encoder(&dst, &cps);
                while let Some(r) = e.next() {
                    match r {
                        Ok(v) => want.extend_from_slice(&v),
                        Err(_) => {
                            good = false;
                            break;
                        }
                    }
                }
            }
        }
    }
    observe("ok", r.is_ok() as u64);
    reach(1);
    check(r.is_ok() == good, "extending fails or succeeds wrongly");
    if good {
        check(same(&t.elements, &want), "the string was not extended by the characters");
    } else {
        check(t.elements.len() >= 1 && t.elements[0] == 0x41, "a failed extension changed the string");
    }
    check(t.encoding == dst && same(&s.elements, &b), "encoding or source changed");
}

/// a new string (UTF-8) extended by one of another encoding
#[no_mangle]
pub extern "C" fn h_bytes_extend_utf8() {
    let mut s = ByteString::new_with_encoding(&CharacterEncoding::Iso8859_1);
    let b = any_u8();
    s.elements.push(b);
    let mut t = ByteString::new();
    reach(1);
    let r = t.extend(&s);
    let mut want = vec![];
    push(&mut want, b as u32);
    check(r.is_ok() && same(&t.elements, &want), "the string was not extended by the characters");
}

fn units(b: &[u8], be: bool) -> Vec<u16> {
    let mut v = vec![];
    let mut i = 0;
    while i + 1 < b.len() {
        let u = if be { (b[i] as u16) << 8 | b[i + 1] as u16 } else { (b[i + 1] as u16) << 8 | b[i] as u16 };
        if u == 0 {
            break;
        }
        v.push(u);
        i += 2;
    }
    v
}
fn same16(a: &[u16], b: &[u16]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// UCS-2 and UTF-16 strings from bytes of every length
#[no_mangle]
pub extern "C" fn h_u16_bytes() {
    let (n, how) = (param("n", 4) as usize, param("how", 0));
    let b = any_window(n);
    let be = how == 0 || how == 2;
    let want = units(&b, be);
    let got: Vec<u16> = match how {
        0 => Ucs2String::from_be_bytes(&b).elements,
        1 => Ucs2String::from_le_bytes(&b).elements,
        2 => Utf16String::from_be_bytes(&b).elements,
        3 => Utf16String::from_le_bytes(&b).elements,
        4 => {
            let mut s = Ucs2String::new();
            check(s.is_empty() && s.len() == 0, "a new string is not empty");
            s.read_data_le(&b);
            check(same16(&s.elements, &want), "the string is not the code units before the terminator");
            check(s.len() == want.len() && s.is_empty() == (want.len() == 0), "length or emptiness is wrong");
            s.elements.clear();
            s.elements.push(0x41);
            s.read_data_le(&b);
            check(s.elements[0] == 0x41, "reading changed the content");
            s.elements[1..].to_vec()
        }
        _ => {
            // from a slice and a vector of code units
            let mut v = vec![];
            for i in 0..n / 2 {
                v.push((b[2 * i + 1] as u16) << 8 | b[2 * i] as u16);
            }
            let s = Ucs2String::from(&v);
            check(same16(&Ucs2String::from(v.as_slice()).elements, &s.elements), "slice and vector differ");
            s.elements
        }
    };
    for u in &got {
        observe("u", *u as u64);
    }
    reach(1);
    check(same16(&got, &want), "the string is not the code units before the terminator");
}
#[no_mangle]
pub extern "C" fn h_ucs2_text() {
    let n = param("n", 2) as usize;
    let mut s = Ucs2String::new();
    let mut want = vec![];
    for u in any_units(n) {
        s.elements.push(u);
        push_escaped(&mut want, u as u32);
    }
    let t = s.to_string();
    observe_bytes("t", t.as_bytes());
    reach(1);
    check(same(t.as_bytes(), &want), "the text is not the characters of the code units");
}
fn any_char() -> char {
    match char::from_u32(any_u32()) {
        Some(c) => c,
        None => {
            assume(false);
            'a'
        }
    }
}
/// creating a string from text, and back
#[no_mangle]
pub extern "C" fn h_ucs2_from_text() {
    let n = param("n", 2) as usize;
    let mut text = String::new();
    let mut want = vec![];
    let mut back = vec![];
    for _ in 0..n {
        let c = any_char();
        text.push(c);
        let cp = c as u32;
        if cp < 0x10000 {
            want.push(cp as u16);
            push_escaped(&mut back, cp);
        } else {
            let (h, l) = (0xd800 + (cp - 0x10000 >> 10), 0xdc00 + (cp - 0x10000 & 0x3ff));
            want.push(h as u16);
            want.push(l as u16);
            push_escaped(&mut back, h);
            push_escaped(&mut back, l);
        }
    }
    let s = if param("string", 0) == 1 { Ucs2String::from(&text) } else { Ucs2String::from(text.as_str()) };
    for u in &s.elements {
        observe("u", *u as u64);
    }
    reach(1);
    check(same16(&s.elements, &want), "the code units are not those of the text");
    check(same(s.to_string().as_bytes(), &back), "the text does not come back");
}
#[no_mangle]
pub extern "C" fn h_utf16_text() {
    let n = param("n", 3) as usize;
    let mut s = Utf16String::new();
    s.elements = any_units(n);
    let mut want = vec![];
    let mut i = 0;
    while i < n {
        let u = s.elements[i] as u32;
        i += 1;
        if u < 0xd800 || u >= 0xe000 {
            push(&mut want, u);
        } else if u < 0xdc00 && i < n && s.elements[i] >= 0xdc00 && s.elements[i] < 0xe000 {
            push(&mut want, 0x10000 + ((u - 0xd800) << 10) + (s.elements[i] as u32 - 0xdc00));
            i += 1;
        } else {
            push(&mut want, 0xfffd);
        }
    }
    let t = s.to_string();
    observe_bytes("t", t.as_bytes());
    reach(1);
    check(same(t.as_bytes(), &want), "the text is not the characters of the surrogate pairs and code units");
}
fn any_units(n: usize) -> Vec<u16> {
    any_window(2 * n).chunks(2).map(|c| (c[1] as u16) << 8 | c[0] as u16).collect()
}
#[no_mangle]
pub extern "C" fn h_ucs2_cmp() {
    let (n, m) = (param("n", 2) as usize, param("m", 2) as usize);
    let (a, b) = (any_units(n), any_units(m));
    let (s, t) = (Ucs2String { elements: a.clone() }, Ucs2String { elements: b.clone() });
    let o = order(&a, &b);
    observe("o", o as i64 as u64);
    reach(1);
    check(s.compare(&t) == o, "the comparison is not the order of the code units");
    check(t.compare(&s) == o.reverse(), "the comparison is not antisymmetric");
    check(s.cmp(&t) == o, "the order is not the order of the code units");
    check((s == t) == (o == Ordering::Equal), "equality is not equality of the code units");
}
/// case folding with arbitrary results of the mapping
#[no_mangle]
pub extern "C" fn h_fold() {
    let n = param("n", 3) as usize;
    let keys = [0x61u16, 0x62, 0xff, 0x1f80];
    let mut map: HashMap<u16, u16> = HashMap::new();
    let mut vals = [0u16; 4];
    for i in 0..4 {
        vals[i] = any_u16();
        map.insert(keys[i], vals[i]);
    }
    let mut src = Ucs2String::new();
    let mut want = vec![];
    for _ in 0..n {
        let c = any_below(6) as usize;
        let other = [0x41u16, 0xd800];
        src.elements.push(if c < 4 { keys[c] } else { other[c - 4] });
        want.push(if c < 4 { vals[c] } else { other[c - 4] });
    }
    let before = src.elements.clone();
    let s = Ucs2String::new_with_case_folding(&src, &map);
    for u in &s.elements {
        observe("u", *u as u64);
    }
    reach(1);
    check(same16(&s.elements, &want), "a code unit was not mapped by itself");
    check(same16(&src.elements, &before), "the source changed");
}
/// comparison ignoring case: the folded strings compared, with arbitrary results of the mapping
#[no_mangle]
pub extern "C" fn h_fold_cmp() {
    let (n, m) = (param("n", 2) as usize, param("m", 2) as usize);
    let keys = [0x61u16, 0x62, 0x63];
    let mut map: HashMap<u16, u16> = HashMap::new();
    let mut vals = [0u16; 3];
    for i in 0..3 {
        vals[i] = any_u16();
        map.insert(keys[i], vals[i]);
    }
    let mut mk = |n: usize| {
        let (mut s, mut w) = (Ucs2String::new(), vec![]);
        for _ in 0..n {
            let c = any_below(4) as usize;
            s.elements.push(if c < 3 { keys[c] } else { 0x42 });
            w.push(if c < 3 { vals[c] } else { 0x42 });
        }
        (s, w)
    };
    let ((a, wa), (b, wb)) = (mk(n), mk(m));
    let (fa, fb) = (Ucs2String::new_with_case_folding(&a, &map), Ucs2String::new_with_case_folding(&b, &map));
    let o = order(&wa, &wb);
    reach(1);
    observe("o", o as i64 as u64);
    check(fa.compare(&fb) == o && fb.compare(&fa) == o.reverse(), "the comparison ignoring case is not that of the mapped code units");
}
/// the case mapping: every code unit of the published table, and nothing else
#[no_mangle]
pub extern "C" fn h_fold_table() {
    check(UCS2_CASE_MAPPINGS.len() == UPCASE.len(), "wrong number of mappings");
    let i = any_lt(UPCASE.len() as u64) as usize;
    let (k, v) = UPCASE[i];
    let (a, b) = UCS2_CASE_MAPPINGS[i];
    observe("k", a as u64);
    observe("v", b as u64);
    reach(1);
    check(a == k && b == v, "the mapping differs from the published one");
}

fn filler16() -> [u8; 16] {
    let mut b = [0u8; 16];
    for i in 0..16 {
        b[i] = 0x17u8.wrapping_mul(i as u8 + 1);
    }
    b
}
/// text of fields in order, big-endian bytes
fn uuid_reference(b: &[u8; 16], le: bool) -> Vec<u8> {
    let mut o = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    if le {
        o = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15];
    }
    let mut t = vec![];
    for i in 0..16 {
        if i == 4 || i == 6 || i == 8 || i == 10 {
            t.push(b'-');
        }
        t.push(digit(b[o[i]] >> 4));
        t.push(digit(b[o[i]] & 15));
    }
    t
}
/// k arbitrary bytes from `at` on: text, and back
#[no_mangle]
pub extern "C" fn h_uuid_bytes() {
    let (at, k, le, fill) = (param("at", 0) as usize, param("k", 4) as usize, param("le", 0) == 1, param("fill", 256));
    let mut b = filler16();
    if fill < 256 {
        b = [fill as u8; 16];
    }
    for i in at..at + k {
        b[i] = any_u8();
    }
    let u = if le { Uuid::from_le_bytes(&b) } else { Uuid::from_be_bytes(&b) };
    let t = u.to_string();
    observe_bytes("t", t.as_bytes());
    reach(1);
    check(same(t.as_bytes(), &uuid_reference(&b, le)), "the text is not that of the bytes");
    let d = format!("{}", u);
    check(same(d.as_bytes(), t.as_bytes()), "display and text differ");
    let (mut zeros, mut ones) = (0u8, 0xffu8);
    for x in b {
        zeros |= x;
        ones &= x;
    }
    check(u.is_nil() == (zeros == 0), "nil is not recognised");
    check(u.is_max() == (ones == 0xff), "max is not recognised");
    let mut back = Uuid::new();
    check(back.is_nil(), "a new UUID is not nil");
    if back.from_string(&t).is_err() {
        fail("the text of a UUID is rejected");
    }
    check(back.part1 == u.part1 && back.part2 == u.part2 && back.part3 == u.part3 && back.part4 == u.part4 && back.part5 == u.part5, "the text does not give back the UUID");
    check(back == u, "equality is wrong");
}
fn hex(b: u8) -> u32 {
    match b {
        b'0'..=b'9' => (b - b'0') as u32,
        b'a'..=b'f' => (b - b'a') as u32 + 10,
        b'A'..=b'F' => (b - b'A') as u32 + 10,
        _ => 256,
    }
}
/// text of which k characters from `at` on are arbitrary
#[no_mangle]
pub extern "C" fn h_uuid_text() {
    let (at, k, braces) = (param("at", 0) as usize, param("k", 2) as usize, param("braces", 0) == 1);
    let mut t: Vec<u8> = b"b61f53ca-A786-4528-90e2-55ba791a1c4C".to_vec();
    for i in at..at + k {
        t[i] = any_u8();
    }
    let inner = t.clone();
    if braces {
        t.insert(0, b'{');
        t.push(b'}');
    }
    let text = match std::str::from_utf8(&t) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            ""
        }
    };
    let mut u = Uuid::new();
    let r = u.from_string(text);
    let mut good = true;
    let mut v = [0u64; 5];
    let mut p = 0;
    for i in 0..36 {
        if i == 8 || i == 13 || i == 18 || i == 23 {
            good &= inner[i] == b'-';
            p += 1;
        } else {
            let h = hex(inner[i]);
            good &= h < 256;
            v[p] = v[p] << 4 | (h & 15) as u64;
        }
    }
    observe("ok", r.is_ok() as u64);
    reach(1);
    if good {
        check(r.is_ok(), "well-formed text is rejected");
        check(u.part1 as u64 == v[0] && u.part2 as u64 == v[1] && u.part3 as u64 == v[2] && u.part4 as u64 == v[3] && u.part5 == v[4], "the UUID is not that of the text");
    } else {
        check(r.is_err(), "malformed text is accepted");
    }
}
/// text of n arbitrary characters followed by a part of a well-formed text
#[no_mangle]
pub extern "C" fn h_uuid_length() {
    let (n, k) = (param("n", 35) as usize, param("k", 2) as usize);
    let base = b"b61f53ca-a786-4528-90e2-55ba791a1c4c0123-";
    let mut t: Vec<u8> = base[..n].to_vec();
    for i in 0..n.min(k) {
        t[i] = any_u8();
    }
    if n > k && param("end", 0) == 1 {
        t[n - 1] = any_u8();
    }
    let braces = n == 38 && t[0] == b'{' && t[37] == b'}';
    let text = match std::str::from_utf8(&t) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            ""
        }
    };
    let mut u = Uuid::new();
    let r = u.from_string(text);
    observe("ok", r.is_ok() as u64);
    reach(1);
    check(r.is_err() || braces, "text of a wrong length is accepted");
}
#[no_mangle]
pub extern "C" fn h_integers() {
    let n = param("n", 11) as usize;
    let b = any_vec(n);
    let off = any_below(n as u64 - 7) as usize;
    let mut be = 0u64;
    let mut le = 0u64;
    let (mut be2, mut be4, mut le2, mut le4) = (0u64, 0u64, 0u64, 0u64);
    for i in 0..8 {
        be = be << 8 | b[off + i] as u64;
        le |= (b[off + i] as u64) << (8 * i);
        if i == 1 {
            be2 = be;
            le2 = le;
        }
        if i == 3 {
            be4 = be;
            le4 = le;
        }
    }
    reach(1);
    observe("v", bytes_to_u64_be!(b, off));
    check(bytes_to_u16_be!(b, off) as u64 == be2, "u16 be");
    check(bytes_to_u16_le!(b, off) as u64 == le2, "u16 le");
    check(bytes_to_u32_be!(b, off) as u64 == be4, "u32 be");
    check(bytes_to_u32_le!(b, off) as u64 == le4, "u32 le");
    check(bytes_to_u64_be!(b, off) == be, "u64 be");
    check(bytes_to_u64_le!(b, off) == le, "u64 le");
    let sx = |v: u64, bits: u32| ((v << (64 - bits)) as i64) >> (64 - bits);
    check(bytes_to_i16_be!(b, off) as i64 == sx(be2, 16), "i16 be");
    check(bytes_to_i16_le!(b, off) as i64 == sx(le2, 16), "i16 le");
    check(bytes_to_i32_be!(b, off) as i64 == sx(be4, 32), "i32 be");
    check(bytes_to_i32_le!(b, off) as i64 == sx(le4, 32), "i32 le");
    check(bytes_to_i64_be!(b, off) == be as i64, "i64 be");
    check(bytes_to_i64_le!(b, off) == le as i64, "i64 le");
    // at the very end of the buffer
    check(bytes_to_u16_be!(b, n - 2) == (b[n - 2] as u16) << 8 | b[n - 1] as u16, "u16 be at the end");
    check(bytes_to_u16_le!(b, n - 2) == (b[n - 1] as u16) << 8 | b[n - 2] as u16, "u16 le at the end");
}
