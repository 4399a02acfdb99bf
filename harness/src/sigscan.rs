//! C21, C22: signature scanning.
use crate::vsym::*;
use keramics_sigscan::*;

crate::harness!(h_scan, h_scan_formats, h_scan_any, h_scan_robust);

const S: u64 = 0;
const E: u64 = 1;
const U: u64 = 2;

/// (binding, offset, pattern)
type Sig = (u64, usize, &'static [u8]);

const SETS: [&[Sig]; 16] = [
    // 0: unbound, one a prefix of others
    &[(U, 0, b"abx"), (U, 0, b"aby"), (U, 0, b"ab")],
    // 1: unbound, shared bytes at different positions
    &[(U, 0, b"ab"), (U, 0, b"ba"), (U, 0, b"aab")],
    // 2: unbound, four of different sizes
    &[(U, 0, b"abab"), (U, 0, b"abac"), (U, 0, b"ca"), (U, 0, b"bcc")],
    // 3: unbound, one of a single byte
    &[(U, 0, b"a"), (U, 0, b"bc")],
    // 4: unbound, single repeated byte
    &[(U, 0, b"aaa")],
    // 5: from the start, the same pattern at different offsets
    &[(S, 1, b"ab"), (S, 3, b"ab"), (S, 5, b"cd")],
    // 6: from the start, uncommon bytes, nothing at offset 0
    &[(S, 2, b"\xf1\xf2"), (S, 4, b"\xf3\xf4"), (S, 6, b"\xf5")],
    // 7: from the start, common prefixes and overlapping ranges
    &[(S, 0, b"QF\x01"), (S, 0, b"QF\x02"), (S, 0, b"QF\x03"), (S, 1, b"FX"), (S, 2, b"\x02Y")],
    // 8: from the start, one a prefix of another
    &[(S, 0, b"ab"), (S, 0, b"abc"), (S, 2, b"d"), (S, 3, b"ab")],
    // 9: from the end
    &[(E, 2, b"ab"), (E, 6, b"cde"), (E, 4, b"ab")],
    // 10: from the end, one
    &[(E, 3, b"abc")],
    // 11: from the end, different distances
    &[(E, 5, b"ko"), (E, 2, b"co"), (E, 1, b"k"), (E, 6, b"k")],
    // 12: all bindings
    &[(S, 0, b"ab"), (S, 3, b"cd"), (E, 2, b"ab"), (E, 5, b"cd"), (U, 0, b"ab"), (U, 0, b"dc")],
    // 13: all bindings, one each
    &[(S, 2, b"ab"), (E, 3, b"bc"), (U, 0, b"ca")],
    // 14: from the start, two with uncommon bytes that differ at no common offset
    &[(S, 3, b"\xf1"), (S, 5, b"\xf1")],
    // 15: from the start, five of which three share bytes at the same offset
    &[(S, 0, b"abcd"), (S, 0, b"abce"), (S, 2, b"cf"), (S, 2, b"ce"), (S, 1, b"bgg")],
];

/// the signatures of the file format scanner
const FORMATS: [Sig; 23] = [
    (S, 560, b"Apple_partition_map\0\0\0\0\0\0\0\0\0\0\0\0\0"),
    (S, 1080, b"\x53\xef"),
    (S, 0, b"EVF\x09\x0d\x0a\xff\x00"),
    (S, 54, b"FAT12   "),
    (S, 54, b"FAT16   "),
    (S, 82, b"FAT32   "),
    (S, 512, b"EFI PART"),
    (S, 1024, b"EFI PART"),
    (S, 2048, b"EFI PART"),
    (S, 4096, b"EFI PART"),
    (S, 510, b"\x55\xaa"),
    (S, 1022, b"\x55\xaa"),
    (S, 2046, b"\x55\xaa"),
    (S, 4094, b"\x55\xaa"),
    (S, 3, b"NTFS    "),
    (S, 0, b"QFI\xfb\x00\x00\x00\x01"),
    (S, 0, b"QFI\xfb\x00\x00\x00\x02"),
    (S, 0, b"QFI\xfb\x00\x00\x00\x03"),
    (S, 0, b"sprs"),
    (E, 512, b"koly"),
    (E, 512, b"conectix"),
    (S, 0, b"vhdxfile"),
    (E, 1, b"\xfe"),
];

fn scanner(set: &[Sig]) -> Scanner {
    match try_scanner(set) {
        Some(s) => s,
        None => fail("the signatures are rejected"),
    }
}
fn try_scanner(set: &[Sig]) -> Option<Scanner> {
    let mut s = Scanner::new();
    for (i, x) in set.iter().enumerate() {
        let kind = match x.0 {
            S => PatternType::BoundToStart,
            E => PatternType::BoundToEnd,
            _ => PatternType::Unbound,
        };
        s.add_signature(Signature::new(["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"][i % 10], kind, x.1, x.2));
    }
    if s.build().is_err() {
        return None;
    }
    Some(s)
}
fn kind(s: &Signature) -> u64 {
    match s.pattern_type {
        PatternType::BoundToStart => S,
        PatternType::BoundToEnd => E,
        _ => U,
    }
}
/// whether a pattern occurs in data[at ..]
fn occurs(data: &[u8], at: usize, pattern: &[u8]) -> bool {
    at + pattern.len() <= data.len() && same(&data[at..at + pattern.len()], pattern)
}
/// the offset a signature is bound to in data of a size
fn bound_to(x: &Sig, size: usize) -> Option<usize> {
    match x.0 {
        S => Some(x.1),
        _ => size.checked_sub(x.1),
    }
}
/// scans data in consecutive buffers that end at the given offsets, and judges the results
fn scan_and_check(set: &[Sig], data: &[u8], ends: &[usize]) -> bool {
    scan_with(&scanner(set), set, data, ends)
}
fn scan_with(s: &Scanner, set: &[Sig], data: &[u8], ends: &[usize]) -> bool {
    let size = data.len();
    let mut c = ScanContext::new(s, size as u64);
    let mut start = 0;
    for end in ends {
        c.scan_buffer(&data[start..*end]);
        start = *end;
    }
    // everything reported is there
    for (offset, r) in c.results.iter() {
        let at = *offset as usize;
        check(occurs(data, at, &r.pattern), "a signature is reported where its pattern does not occur");
        let mut listed = false;
        for x in set {
            if x.0 == kind(r) && x.2.len() == r.pattern.len() && same(x.2, &r.pattern) {
                listed |= x.0 == U || (r.pattern_offset == x.1 && bound_to(x, size) == Some(at));
            }
        }
        check(listed, "a signature is reported at an offset it is not bound to");
    }
    // in every buffer, something of every binding is reported if there is anything to report
    let mut start = 0;
    for end in ends {
        let part = &data[..*end];
        for b in [S, E] {
            let (mut present, mut reported) = (false, false);
            for x in set {
                if x.0 != b {
                    continue;
                }
                if let Some(at) = bound_to(x, size) {
                    if at >= start && occurs(part, at, x.2) {
                        present = true;
                        reported |= c.results.contains_key(&(at as u64));
                    }
                }
            }
            check(!present || reported, "no signature with this binding is reported although there is one");
        }
        // from the left, skipping what is reported
        let mut at = if set.iter().any(|x| x.0 == U) { start } else { *end };
        while at < *end {
            let mut present = false;
            for x in set {
                present |= x.0 == U && occurs(part, at, x.2);
            }
            let mut step = 1;
            if present {
                match c.results.get(&(at as u64)) {
                    Some(r) => step = r.pattern.len(),
                    None => fail("an unbound signature is not reported"),
                }
            }
            at += step;
        }
        start = *end;
    }
    !c.results.is_empty()
}
/// small sets, arbitrary data, every split into up to three buffers
#[no_mangle]
pub extern "C" fn h_scan() {
    let set = SETS[param("set", 0) as usize];
    let (n, parts) = (param("n", 5) as usize, param("parts", 1));
    let data = any_vec(n);
    let mut ends = vec![];
    let mut last = 0;
    for i in 1..parts {
        let fixed = param(["", "s1", "s2"][i as usize], 99);
        last = if fixed < 99 { fixed as usize } else { last + any_below((n - last) as u64 + 1) as usize };
        ends.push(last);
    }
    ends.push(n);
    let mut any = false;
    for _ in 0..native_runs(64) {
        any = scan_and_check(set, &data, &ends);
    }
    reach(1);
    if any {
        reach(2);
    }
    observe("any", any as u64);
}
/// signatures with arbitrary patterns at arbitrary offsets, one binding
#[no_mangle]
pub extern "C" fn h_scan_any() {
    let (b, m, n) = (param("kind", U), param("m", 2) as usize, param("n", 3) as usize);
    let mut set: Vec<Sig> = vec![];
    for i in 0..m {
        let len = param(["l0", "l1", "l2"][i], 1) as usize;
        let off = if b == U { 0 } else { any_below(param("reach", 3)) as usize };
        let p: &'static [u8] = any_vec(len).leak();
        set.push((b, off, p));
    }
    // no two signatures that say the same
    for i in 0..m {
        for j in 0..i {
            assume(set[i].1 != set[j].1 || set[i].2.len() != set[j].2.len() || !same(set[i].2, set[j].2));
        }
    }
    let data = any_vec(n);
    let mut any = false;
    for _ in 0..native_runs(64) {
        match try_scanner(&set) {
            Some(s) => any = scan_with(&s, &set, &data, &[n]),
            None => {
                // only sets in which some signature has no byte that tells it from another may be rejected
                check(m > 2, "two different signatures are rejected");
            }
        }
    }
    reach(1);
    if any {
        reach(2);
    }
    observe("any", any as u64);
}
/// the signatures of the file formats, data with a few arbitrary bytes, whole or the header and footer
#[no_mangle]
pub extern "C" fn h_scan_formats() {
    let (n, k, at, split) = (param("n", 4200) as usize, param("k", 2) as usize, param("at", 0) as usize, param("split", 0) as usize);
    let mut data = vec![0u8; n];
    // patterns already there
    for (i, x) in FORMATS.iter().enumerate() {
        if (param("have", 0) >> i) & 1 == 1 {
            let o = bound_to(x, n).unwrap();
            data[o..o + x.2.len()].copy_from_slice(x.2);
        }
    }
    for i in 0..k {
        if at + i < n {
            data[at + i] = any_u8();
        }
    }
    let mut any = false;
    for _ in 0..native_runs(16) {
        any = if split == 0 { scan_and_check(&FORMATS, &data, &[n]) } else { scan_and_check(&FORMATS, &data, &[split, n]) };
    }
    reach(1);
    if any {
        reach(2);
    }
    observe("any", any as u64);
}
/// no panic when the buffers do not agree with the declared size
#[no_mangle]
pub extern "C" fn h_scan_robust() {
    let set = SETS[param("set", 0) as usize];
    let n = param("n", 4) as usize;
    let data = any_vec(n);
    let s = scanner(set);
    let mut c = ScanContext::new(&s, param("size", 2));
    c.data_offset = param("start", 0);
    c.scan_buffer(&data);
    c.scan_buffer(&data);
    reach(1);
    observe("offset", c.data_offset);
    for (_, r) in c.results.iter() {
        let mut there = false;
        for i in 0..n {
            there |= occurs(&data, i, &r.pattern);
        }
        check(there, "a signature is reported that does not occur in the buffer");
    }
}
