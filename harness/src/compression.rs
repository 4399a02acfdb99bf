//! C23..: the decompressors, against decoders written from the format descriptions.
use crate::vsym::*;
use keramics_compression::*;

crate::harness!(h_adc, h_lznt1, h_lzvn, h_deflate, h_deflate_match, h_deflate_stored, h_deflate_dynamic, h_deflate_runs, h_zlib, h_bzip2, h_bzip2_tables, h_bzip2_large);

/// what a decoder written from the format description says about the data
type Ref = Result<Vec<u8>, ()>;

/// copies `n` bytes that start `d` bytes back (they may overlap what is written)
fn back(o: &mut Vec<u8>, d: usize, n: usize, cap: usize) -> Result<(), ()> {
    if d == 0 || d > o.len() || n > cap - o.len() {
        return Err(());
    }
    for _ in 0..n {
        o.push(o[o.len() - d]);
    }
    Ok(())
}
fn lit(o: &mut Vec<u8>, c: &[u8], i: &mut usize, n: usize, cap: usize) -> Result<(), ()> {
    if n > c.len() - *i || n > cap - o.len() {
        return Err(());
    }
    o.extend_from_slice(&c[*i..*i + n]);
    *i += n;
    Ok(())
}
fn compare(ok: bool, size: usize, out: &[u8], r: &Ref) {
    match r {
        Ok(v) => {
            reach(1);
            check(ok, "a well-formed stream is refused");
            observe_bytes("out", v);
            check(size == v.len(), "reported size is not that of the data");
            check(same(&out[..v.len()], v), "decompressed data differs from what the stream describes");
            for x in &out[v.len()..] {
                check(*x == 0xaa, "bytes behind the decompressed data were written");
            }
        }
        Err(()) => {
            reach(2);
            check(!ok, "a malformed stream is accepted");
        }
    }
}
/// well-formed streams only: a malformed one may be refused or decoded as far as it goes
fn compare_valid(ok: bool, size: usize, out: &[u8], r: &Ref) {
    if r.is_ok() {
        compare(ok, size, out, r)
    } else {
        reach(2);
        check(!ok || size <= out.len(), "reported size exceeds the buffer");
    }
}
/// n arbitrary bytes; byte i is fixed to the i-th base-256 digit of "bytes" when bit i of "fixed" is set
fn input() -> Vec<u8> {
    let n = param("n", 4) as usize;
    let mut c = any_vec(n);
    let fixed = param("fixed", 0);
    let v = param("bytes", 0);
    for i in 0..n.min(8) {
        if fixed >> i & 1 == 1 {
            c[i] = (v >> (8 * i)) as u8;
        }
    }
    c
}
fn filler(i: usize) -> u8 {
    (i * 37 + i / 256 * 11 + 1) as u8
}
fn adc_ref(c: &[u8], mut o: Vec<u8>, cap: usize) -> Ref {
    let mut i = 0;
    while i < c.len() && o.len() < cap {
        let b = c[i];
        if b >= 0x80 {
            i += 1;
            lit(&mut o, c, &mut i, (b - 0x80) as usize + 1, cap)?;
        } else if b >= 0x40 {
            if c.len() - i < 3 {
                return Err(());
            }
            let d = c[i + 1] as usize * 256 + c[i + 2] as usize + 1;
            i += 3;
            back(&mut o, d, (b - 0x40) as usize + 4, cap)?;
        } else {
            if c.len() - i < 2 {
                return Err(());
            }
            let d = (b & 3) as usize * 256 + c[i + 1] as usize + 1;
            i += 2;
            back(&mut o, d, (b >> 2) as usize + 3, cap)?;
        }
    }
    Ok(o)
}
#[no_mangle]
pub extern "C" fn h_adc() {
    // a fixed beginning of "pre" bytes of literals, then arbitrary bytes
    let pre = param("pre", 0) as usize;
    let cap = pre + param("cap", 8) as usize;
    let mut c = vec![];
    let mut i = 0;
    while i < pre {
        let n = (pre - i).min(128);
        c.push(0x7f + n as u8);
        c.extend((i..i + n).map(filler));
        i += n;
    }
    let k = c.len();
    c.extend(input());
    let mut o = vec![0xaa; cap];
    let mut x = AdcContext::new();
    let ok = x.decompress(&c, &mut o).is_ok();
    let r = adc_ref(&c[k..], (0..pre).map(filler).collect(), cap);
    compare(ok, x.uncompressed_data_size, &o, &r);
}
fn lznt1_chunk(c: &[u8], o: &mut Vec<u8>, cap: usize) -> Result<(), ()> {
    let start = o.len();
    let mut i = 0;
    while i < c.len() {
        let flags = c[i];
        i += 1;
        if i == c.len() {
            return Err(());
        }
        for b in 0..8 {
            if i == c.len() {
                break;
            }
            if flags >> b & 1 == 0 {
                lit(o, c, &mut i, 1, cap)?;
                continue;
            }
            if c.len() - i < 2 {
                return Err(());
            }
            let t = c[i] as usize + 256 * c[i + 1] as usize;
            i += 2;
            // the number of bits for the distance: enough for the position in the chunk, at least 4
            let p = o.len() - start;
            let mut bits = 4;
            while p > 1 << bits {
                bits += 1;
            }
            let d = (t >> (16 - bits)) + 1;
            if bits > 12 || d > p {
                return Err(());
            }
            back(o, d, (t & ((1 << (16 - bits)) - 1)) + 3, cap)?;
        }
    }
    Ok(())
}
fn lznt1_ref(c: &[u8], mut o: Vec<u8>, cap: usize) -> Ref {
    let mut i = 0;
    while i < c.len() && o.len() < cap {
        if c.len() - i < 2 {
            return Err(());
        }
        let h = c[i] as usize + 256 * c[i + 1] as usize;
        if h == 0 {
            break;
        }
        i += 2;
        let n = (h & 0xfff) + 1;
        if n > c.len() - i {
            return Err(());
        }
        if h & 0x8000 == 0 {
            lit(&mut o, c, &mut i, n, cap)?;
        } else {
            lznt1_chunk(&c[i..i + n], &mut o, cap)?;
            i += n;
        }
    }
    Ok(o)
}
#[no_mangle]
pub extern "C" fn h_lznt1() {
    let pre = param("pre", 0) as usize;
    let cap = pre + param("run", 0) as usize + param("cap", 8) as usize;
    let mut c = vec![];
    let k;
    let mut q: Vec<u8> = vec![];
    if param("chunk", 0) == 0 {
        // a fixed uncompressed chunk, then arbitrary bytes
        if pre > 0 {
            c.extend([(pre - 1) as u8, 0x30 | ((pre - 1) >> 8) as u8]);
            c.extend((0..pre).map(filler));
            q = (0..pre).map(filler).collect();
        }
        k = c.len();
        c.extend(input());
    } else {
        // one compressed chunk: "pre" literals, then arbitrary bytes
        let mut b = vec![];
        for i in 0..pre {
            if i % 8 == 0 {
                b.push(0);
            }
            b.push(filler(i));
        }
        let mut v = input();
        let run = param("run", 0) as usize;
        if run > 0 {
            // a match of "run" bytes at distance 1 behind the literals (less than 8)
            b[0] = v.remove(0) << (pre + 1) | 1 << pre;
            b.extend([(run - 3) as u8, (run - 3 >> 8) as u8]);
        } else if pre % 8 != 0 {
            // the group of the last literal has more members: the first arbitrary byte has the flags for them
            let g = b.len() - 1 - pre % 8;
            b[g] = v.remove(0) << (pre % 8);
        }
        b.extend(v);
        let n = b.len() - 1;
        c.extend([n as u8, 0xb0 | (n >> 8) as u8]);
        c.extend(b);
        k = 0;
    }
    let mut o = vec![0xaa; cap];
    let mut x = Lznt1Context::new();
    let ok = x.decompress(&c, &mut o).is_ok();
    let r = lznt1_ref(&c[k..], q, cap);
    compare_valid(ok, x.uncompressed_data_size, &o, &r);
}
fn lzvn_ref(c: &[u8], mut o: Vec<u8>, cap: usize) -> Ref {
    let mut i = 0;
    let mut d = 0;
    while i < c.len() && o.len() < cap {
        let b = c[i] as usize;
        let at = |k: usize| c.get(i + k).map(|x| *x as usize).ok_or(());
        let (l, m);
        match b {
            0x06 => break,
            0x0e | 0x16 => {
                i += 1;
                continue;
            }
            0xe0 => {
                (l, m) = (at(1)? + 16, 0);
                i += 2;
            }
            0xe1..=0xef => {
                (l, m) = (b & 15, 0);
                i += 1;
            }
            0xf0 => {
                (l, m) = (0, at(1)? + 16);
                i += 2;
            }
            0xf1..=0xff => {
                (l, m) = (0, b & 15);
                i += 1;
            }
            0x70..=0x7f | 0xd0..=0xdf => return Err(()),
            0xa0..=0xbf => {
                d = at(2)? << 6 | at(1)? >> 2;
                (l, m) = (b >> 3 & 3, ((b & 7) << 2 | at(1)? & 3) + 3);
                i += 3;
            }
            _ => {
                (l, m) = (b >> 6, (b >> 3 & 7) + 3);
                if b & 7 == 7 {
                    d = at(2)? << 8 | at(1)?;
                    i += 3;
                } else if b & 7 == 6 {
                    // the previous distance; without literals these codes have other meanings
                    if b < 0x40 {
                        return Err(());
                    }
                    i += 1;
                } else {
                    d = (b & 7) << 8 | at(1)?;
                    i += 2;
                }
            }
        }
        lit(&mut o, c, &mut i, l, cap)?;
        if m > 0 {
            back(&mut o, d, m, cap)?;
        }
    }
    Ok(o)
}
#[no_mangle]
pub extern "C" fn h_lzvn() {
    let pre = param("pre", 0) as usize;
    let cap = pre + param("cap", 8) as usize;
    let mut c = vec![];
    let mut i = 0;
    while i < pre {
        let n = (pre - i).min(271);
        if n < 16 {
            c.push(0xe0 + n as u8);
        } else {
            c.extend([0xe0, (n - 16) as u8]);
        }
        c.extend((i..i + n).map(filler));
        i += n;
    }
    let k = c.len();
    c.extend(input());
    let mut o = vec![0xaa; cap];
    let mut x = LzvnContext::new();
    let ok = x.decompress(&c, &mut o).is_ok();
    let r = lzvn_ref(&c[k..], (0..pre).map(filler).collect(), cap);
    compare(ok, x.uncompressed_data_size, &o, &r);
}

/// reads bits, the least significant one of a byte first
struct Bits<'a> {
    c: &'a [u8],
    pos: usize,
}
impl Bits<'_> {
    fn bit(&mut self) -> Result<usize, ()> {
        let b = *self.c.get(self.pos / 8).ok_or(())? as usize >> (self.pos % 8) & 1;
        self.pos += 1;
        Ok(b)
    }
    fn take(&mut self, n: usize) -> Result<usize, ()> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
    /// decodes a symbol of the canonical prefix code with these lengths: codes of a length follow each other in symbol order
    fn symbol(&mut self, by_len: &[Vec<usize>]) -> Result<usize, ()> {
        let (mut code, mut first) = (0, 0);
        for l in by_len {
            code = code * 2 + self.bit()?;
            first *= 2;
            // (code - first) is the index in the symbols of this length
            if code < first + l.len() {
                return Ok(pick(l, code - first));
            }
            first += l.len();
        }
        Err(())
    }
}
/// table[i]: one value of the table, for a symbolic index
fn pick(t: &[usize], i: usize) -> usize {
    t[i]
}
fn by_len(lens: &[usize], max: usize) -> Vec<Vec<usize>> {
    (1..=max).map(|l| (0..lens.len()).filter(|s| lens[*s] == l).collect()).collect()
}
/// 1: over-subscribed, 0: complete or empty or incomplete
fn oversubscribed(lens: &[usize]) -> bool {
    lens.iter().filter(|l| **l > 0).map(|l| 1usize << (15 - l)).sum::<usize>() > 1 << 15
}
/// the decompressed data and the position behind it
fn inflate_ref(c: &[u8], pos: usize, mut o: Vec<u8>, cap: usize) -> Result<(Vec<u8>, usize), ()> {
    let mut b = Bits { c, pos };
    loop {
        let last = b.bit()?;
        let (lit_code, dist_code);
        match b.take(2)? {
            0 => {
                b.pos = (b.pos + 7) / 8 * 8;
                let n = b.take(16)?;
                let m = b.take(16)?;
                if n != m ^ 0xffff {
                    return Err(());
                }
                let mut i = b.pos / 8;
                let n = concretize(n as u64) as usize;
                lit(&mut o, c, &mut i, n, cap)?;
                b.pos = i * 8;
                if last == 1 {
                    return Ok((o, i));
                }
                continue;
            }
            1 => {
                let lens: Vec<usize> = (0..288).map(|s| if s < 144 { 8 } else if s < 256 { 9 } else if s < 280 { 7 } else { 8 }).collect();
                lit_code = by_len(&lens, 15);
                dist_code = by_len(&[5; 30], 15);
            }
            2 => {
                let nl = b.take(5)? + 257;
                let nd = b.take(5)? + 1;
                let nc = b.take(4)? + 4;
                let (nl, nd, nc) = (concretize(nl as u64) as usize, concretize(nd as u64) as usize, concretize(nc as u64) as usize);
                if nl > 286 || nd > 30 {
                    return Err(());
                }
                let mut cl = [0; 19];
                for i in 0..nc {
                    let v = b.take(3)?;
                    cl[[16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15][i]] = concretize(v as u64) as usize;
                }
                if oversubscribed(&cl) {
                    return Err(());
                }
                let code = by_len(&cl, 7);
                let mut lens = vec![];
                while lens.len() < nl + nd {
                    let s = b.symbol(&code)?;
                    let s = concretize(s as u64) as usize;
                    if s < 16 {
                        lens.push(s);
                        continue;
                    }
                    let (v, n) = match s {
                        16 => (*lens.last().ok_or(())?, b.take(2)? + 3),
                        17 => (0, b.take(3)? + 3),
                        _ => (0, b.take(7)? + 11),
                    };
                    for _ in 0..concretize(n as u64) {
                        lens.push(v);
                    }
                }
                if lens.len() > nl + nd || lens[256] == 0 || oversubscribed(&lens[..nl]) || oversubscribed(&lens[nl..]) {
                    return Err(());
                }
                lit_code = by_len(&lens[..nl], 15);
                dist_code = by_len(&lens[nl..], 15);
            }
            _ => return Err(()),
        }
        loop {
            let s = b.symbol(&lit_code)?;
            if s < 256 {
                if o.len() == cap {
                    return Err(());
                }
                o.push(s as u8);
                continue;
            }
            if s == 256 {
                break;
            }
            let s = concretize(s as u64) as usize;
            // lengths: groups of four codes with a growing number of additional bits
            let n = match s {
                257..=264 => s - 254,
                265..=284 => {
                    let e = (s - 261) / 4;
                    3 + ((4 + (s - 261) % 4) << e) + b.take(e)?
                }
                285 => 258,
                _ => return Err(()),
            };
            let d = b.symbol(&dist_code)?;
            let d = concretize(d as u64) as usize;
            let d = if d < 4 {
                d + 1
            } else {
                let e = (d - 2) / 2;
                1 + ((2 + d % 2) << e) + b.take(e)?
            };
            back(&mut o, d, n, cap)?;
        }
        if last == 1 {
            return Ok((o, (b.pos + 7) / 8));
        }
    }
}
/// writes bits, the least significant one of a byte first
#[derive(Default)]
struct Put(Vec<u8>);
impl Put {
    fn bits(&mut self, v: usize, n: usize) {
        for i in 0..n {
            self.0.push((v >> i & 1) as u8);
        }
    }
    /// a prefix code: the most significant bit first
    fn code(&mut self, v: usize, n: usize) {
        for i in (0..n).rev() {
            self.0.push((v >> i & 1) as u8);
        }
    }
    fn fixed(&mut self, s: usize) {
        match s {
            0..=143 => self.code(0x30 + s, 8),
            144..=255 => self.code(0x190 + s - 144, 9),
            256..=279 => self.code(s - 256, 7),
            _ => self.code(0xc0 + s - 280, 8),
        }
    }
    fn any(&mut self, n: usize) {
        let v = any_vec((n + 7) / 8);
        for i in 0..n {
            self.0.push(v[i / 8] >> (i % 8) & 1);
        }
    }
    fn bytes(self) -> Vec<u8> {
        self.0.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | b << i)).collect()
    }
}
/// stored blocks with "pre" bytes
fn stored(pre: usize) -> Vec<u8> {
    let mut c = vec![];
    let mut i = 0;
    while i < pre {
        let n = (pre - i).min(65535);
        c.extend([0, n as u8, (n >> 8) as u8, !n as u8, (!n >> 8) as u8]);
        c.extend((i..i + n).map(filler));
        i += n;
    }
    c
}
fn run_deflate(pre: usize, cap: usize, v: Vec<u8>) {
    let mut c = stored(pre);
    let k = c.len();
    c.extend(v);
    let mut o = vec![0xaa; cap];
    let mut x = DeflateContext::new();
    let ok = x.decompress(&c, &mut o).is_ok();
    let r = inflate_ref(&c, k * 8, (0..pre).map(filler).collect(), cap);
    compare_valid(ok, x.uncompressed_data_size, &o, &r.map(|r| r.0));
}
/// "n" arbitrary bytes, the first bits (param "skip") are those of "head"; "pre" bytes of output come from stored blocks in front
#[no_mangle]
pub extern "C" fn h_deflate() {
    let pre = param("pre", 0) as usize;
    let mut v = input();
    let skip = param("skip", 0);
    let head = param("head", 0);
    for i in 0..v.len().min(8) {
        let m = ((1u64 << skip) - 1) >> (8 * i);
        v[i] = v[i] & !(m as u8) | (head >> (8 * i)) as u8 & m as u8;
    }
    run_deflate(pre, pre + param("cap", 8) as usize, v);
}
/// a stored block with arbitrary padding, sizes of interest, a complement with none or one wrong bit, arbitrary bytes behind
#[no_mangle]
pub extern "C" fn h_deflate_stored() {
    let pre = param("pre", 0) as usize;
    let mut v = vec![(any_u8() & 0xf8) | param("last", 1) as u8];
    let l = any_below(12) as usize;
    let l: u16 = if l < 9 { l as u16 } else { [255, 256, 65535][l - 9] };
    let w = any_below(17);
    let m = !l ^ if w < 16 { 1 << w } else { 0 };
    v.extend(l.to_le_bytes());
    v.extend(m.to_le_bytes());
    v.extend(input());
    // the block behind a block that is not the last one: the last one, with fixed codes
    if param("last", 1) == 0 && 5 + (l as usize) < v.len() {
        v[5 + l as usize] = v[5 + l as usize] & 0xf8 | 3;
    }
    run_deflate(pre, pre + param("cap", 8) as usize, v);
}
/// a fixed-code block with one match, the symbol for its length is "sym"; arbitrary additional bits, distance symbol and its additional bits
#[no_mangle]
pub extern "C" fn h_deflate_match() {
    let pre = param("pre", 0) as usize;
    let sym = param("sym", 257) as usize;
    let mut p = Put::default();
    p.bits(3, 3);
    p.fixed(sym);
    p.any(if (265..285).contains(&sym) { (sym - 261) / 4 } else { 0 });
    let d = param("dist", 30) as usize;
    if d == 40 {
        // the limits of every distance code
        let d = any_below(30) as usize;
        p.code(d, 5);
        let e = if d < 4 { 0 } else { (d - 2) / 2 };
        p.bits([0, (1 << e) - 1, (1 << e) / 2, (1 << e) / 3][any_below(4) as usize], e);
    } else if d < 30 {
        p.code(d, 5);
        p.any(if d < 4 { 0 } else { (d - 2) / 2 });
    } else {
        let d = any_below(32) as usize;
        p.code(d, 5);
        p.any(if d < 4 || d > 29 { 0 } else { (d - 2) / 2 });
    }
    p.fixed(256);
    run_deflate(pre, pre + param("cap", 300) as usize, p.bytes());
}
/// a block with its own codes: the code lengths are those of set "set" (arbitrary ones: see below), the body is arbitrary
#[no_mangle]
pub extern "C" fn h_deflate_dynamic() {
    let pre = param("pre", 0) as usize;
    let mut p = Put::default();
    p.bits(5, 3);
    // (symbol, code length); the last symbol may have an arbitrary length
    let (lits, dists): (&[(usize, usize)], &[usize]) = match param("set", 0) {
        0 => (&[(97, 2), (98, 2), (256, 2), (257, 2)], &[1, 1]),
        1 => (&[(0, 1), (255, 3), (256, 4), (258, 4), (285, 3)], &[2, 2, 2, 3, 3]),
        2 => (&[(65, 3), (66, 3), (67, 3), (68, 3), (69, 3), (256, 2), (265, 3)], &[1]),
        // no distance codes: literals only
        3 => (&[(97, 1), (98, 2), (256, 2)], &[0]),
        4 => (&[(10, 1), (11, 2), (12, 3), (13, 4), (14, 5), (15, 6), (16, 7), (17, 8), (18, 9), (19, 10), (20, 11), (21, 12), (22, 13), (256, 15), (257, 15), (258, 14)], &[0, 0, 1, 0, 2, 3, 3]),
        _ => (&[(255, 1), (256, 1)], &[0, 1]),
    };
    let nl = lits.last().unwrap().0.max(256) + 1;
    let mut lens = vec![0; nl + dists.len()];
    for (s, l) in lits {
        lens[*s] = *l;
    }
    lens[nl..].copy_from_slice(dists);
    let vary = param("vary", 0) as usize;
    for i in 0..vary {
        // arbitrary lengths for the last symbols
        let at = if i < dists.len() { lens.len() - 1 - i } else { lits[lits.len() - 1 + dists.len() - i].0 };
        lens[at] = any_below(4) as usize;
    }
    p.bits(nl - 257, 5);
    p.bits(dists.len() - 1, 5);
    p.bits(15, 4);
    if param("runs", 0) == 0 {
        // the code lengths code: four bits for 0 .. 15
        for s in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] {
            p.bits(if s < 16 { 4 } else { 0 }, 3);
        }
        for l in lens {
            p.code(l, 4);
        }
    } else {
        // four bits for 0 .. 12, five for 13 .. 18; runs where they fit
        for s in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] {
            p.bits(if s < 13 { 4 } else { 5 }, 3);
        }
        fn sym(p: &mut Put, s: usize) {
            if s < 13 { p.code(s, 4) } else { p.code(26 + s - 13, 5) }
        }
        let mut i = 0;
        while i < lens.len() {
            let n = lens[i..].iter().take_while(|x| **x == lens[i]).count();
            if lens[i] == 0 && n >= 11 {
                let n = n.min(138);
                sym(&mut p, 18);
                p.bits(n - 11, 7);
                i += n;
            } else if lens[i] == 0 && n >= 3 {
                sym(&mut p, 17);
                p.bits(n - 3, 3);
                i += n;
            } else if i > 0 && lens[i] == lens[i - 1] && n >= 3 {
                let n = n.min(6);
                sym(&mut p, 16);
                p.bits(n - 3, 2);
                i += n;
            } else {
                sym(&mut p, lens[i]);
                i += 1;
            }
        }
    }
    p.any(param("n", 1) as usize * 8);
    run_deflate(pre, pre + param("cap", 8) as usize, p.bytes());
}
/// the header of a block with its own codes: arbitrary repetitions in the code lengths
#[no_mangle]
pub extern "C" fn h_deflate_runs() {
    let mut p = Put::default();
    p.bits(5, 3);
    p.bits(param("nl", 257) as usize - 257, 5);
    p.bits(1, 5); // two distance codes
    p.bits(14, 4);
    // code lengths code: 1: "01", 16: "10", 18: "11", 0: "000", 17: "001"
    for s in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1] {
        p.bits(match s { 1 | 16 | 18 => 2, 0 | 17 => 3, _ => 0 }, 3);
    }
    // symbols 0 .. 137 have no code, those in front of the end of block symbol and it: arbitrary
    p.code(3, 2);
    p.bits(127, 7);
    p.code(3, 2);
    p.bits(107, 7);
    p.any(param("n", 2) as usize * 8);
    run_deflate(0, 4, p.bytes());
}
/// zlib: arbitrary header and checksum bytes
#[no_mangle]
pub extern "C" fn h_zlib() {
    let k = param("k", 2) as usize;
    let cap = k + param("room", 0) as usize;
    let mut c: Vec<u8> = vec![0x78, 0x9c];
    if param("header", 0) == 1 {
        c = any_vec(2);
    }
    let dict = c[1] & 0x20 != 0;
    if param("header", 0) == 2 {
        // with the checksum of a preset dictionary
        c = vec![0x78, 0xbb];
        c.extend(any_vec(4));
    }
    let valid = c[0] & 15 == 8 && c[0] >> 4 < 8 && (c[0] as u32 * 256 + c[1] as u32) % 31 == 0;
    // the first two bytes are arbitrary (an arbitrary sum of more of them is out of reach of the solver)
    let data: Vec<u8> = any_vec(k.min(2)).into_iter().chain((2..k).map(filler)).collect();
    if param("type", 0) == 0 {
        c.extend([1, k as u8, 0, !k as u8, 0xff]);
        c.extend(&data);
    } else {
        let mut p = Put::default();
        p.bits(3, 3);
        for (i, b) in data.iter().enumerate() {
            if i < 2 {
                // nine bits
                assume(*b >= 144);
                p.code(0x190 + *b as usize - 144, 9);
            } else {
                p.fixed(*b as usize);
            }
        }
        p.fixed(256);
        c.extend(p.bytes());
    }
    let n = param("sum", 4) as usize;
    let (mut s1, mut s2) = (1u32, 0u32);
    for v in &data {
        s1 += *v as u32;
        s2 += s1;
    }
    // the sums stay below 65521 for the sizes here
    let want = (s2 << 16 | s1).to_be_bytes();
    let sum = if param("header", 0) == 1 { want } else { any_array::<4>() };
    c.extend(&sum[..n]);
    c.extend(vec![0xaa; param("more", 0) as usize]);
    let mut o = vec![0xaa; cap];
    let mut x = ZlibContext::new();
    let ok = x.decompress(&c, &mut o).is_ok();
    let good = same(&sum, &want) & valid;
    if param("header", 0) == 1 && dict {
        // the four bytes behind the header belong to a dictionary
        reach(3);
        return;
    }
    if ok {
        reach(1);
        check(n < 4 || good, "a zlib stream with a wrong header or checksum is accepted");
        check(x.uncompressed_data_size == k && same(&o[..k], &data), "decompressed data differs from what the stream describes");
        check(o[k..].iter().all(|x| *x == 0xaa), "bytes behind the decompressed data were written");
    } else {
        reach(2);
        check(!good, "a well-formed zlib stream is refused");
    }
}

/// writes bits, the most significant one of a byte first
#[derive(Default, Clone)]
struct PutB(Vec<u8>);
impl PutB {
    fn bits(&mut self, v: usize, n: usize) {
        for i in (0..n).rev() {
            self.0.push((v >> i & 1) as u8);
        }
    }
    fn any(&mut self, n: usize) {
        let v = any_vec((n + 7) / 8);
        for i in 0..n {
            self.0.push(v[i / 8] >> (i % 8) & 1);
        }
    }
    fn bytes(self) -> Vec<u8> {
        self.0.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | b << (7 - i))).collect()
    }
}
/// the checksum of bzip2: CRC-32 with the most significant bit first
fn crc_msb(d: &[u8]) -> u32 {
    let mut r = !0u32;
    for b in d {
        r ^= (*b as u32) << 24;
        for _ in 0..8 {
            r = r << 1 ^ (0u32.wrapping_sub(r >> 31) & 0x04c11db7);
        }
    }
    !r
}
struct Block {
    symbols: Vec<u8>,
    trees: Vec<Vec<usize>>,
    selectors: Vec<usize>,
    origin: usize,
    /// arbitrary bits, cut behind the end of block symbol when they have one
    body: Vec<u8>,
}
impl Block {
    /// decodes the body; the arbitrary bits behind the end of block symbol are dropped
    fn decode(&mut self, max: usize) -> Ref {
        let n = self.symbols.len() + 2;
        let (mut pos, mut count) = (0, 0);
        let mut mtf = self.symbols.clone();
        let mut data: Vec<u8> = vec![];
        let (mut run, mut weight) = (0usize, 1usize);
        loop {
            let lens = &self.trees[*self.selectors.get(count / 50).ok_or(())?];
            count += 1;
            let codes = by_len(lens, 20);
            let (mut code, mut first) = (0, 0);
            let mut sym = None;
            for l in codes {
                let bit = *self.body.get(pos).ok_or(())? as usize;
                pos += 1;
                code = code * 2 + bit;
                first *= 2;
                if code < first + l.len() {
                    sym = Some(pick(&l, code - first));
                    break;
                }
                first += l.len();
            }
            let sym = concretize(sym.ok_or(())? as u64) as usize;
            if sym < 2 {
                run += weight << sym;
                weight *= 2;
                if run > max {
                    return Err(());
                }
                continue;
            }
            if run > max - data.len() {
                return Err(());
            }
            data.extend(vec![mtf[0]; run]);
            (run, weight) = (0, 1);
            if sym == n - 1 {
                break;
            }
            let b = mtf.remove(sym - 1);
            mtf.insert(0, b);
            if data.len() == max {
                return Err(());
            }
            data.push(b);
        }
        self.body.truncate(pos);
        // inverse of the Burrows-Wheeler transform: stable sort, then follow the indexes
        if self.origin >= data.len() {
            return Err(());
        }
        let mut next = vec![];
        for b in 0..256 {
            if !self.symbols.contains(&(b as u8)) {
                continue;
            }
            next.extend((0..data.len()).filter(|i| data[*i] == b as u8));
        }
        let mut o = vec![];
        let mut at = next[self.origin];
        let (mut last, mut same) = (None, 0);
        for _ in 0..data.len() {
            let b = data[at];
            at = next[at];
            if same == 4 {
                o.extend(vec![last.unwrap(); b as usize]);
                (last, same) = (None, 0);
                continue;
            }
            same = if last == Some(b) { same + 1 } else { 1 };
            last = Some(b);
            o.push(b);
        }
        Ok(o)
    }
    fn write(&self, p: &mut PutB, crc: usize) {
        p.bits(0x314159265359, 48);
        p.bits(crc, 32);
        p.bits(0, 1);
        p.bits(self.origin, 24);
        let used = |i: usize| (0..16).fold(0, |a, j| a << 1 | self.symbols.contains(&((i * 16 + j) as u8)) as usize);
        p.bits((0..16).fold(0, |a, i| a << 1 | (used(i) != 0) as usize), 16);
        for i in 0..16 {
            if used(i) != 0 {
                p.bits(used(i), 16);
            }
        }
        p.bits(self.trees.len(), 3);
        p.bits(self.selectors.len(), 15);
        let mut mtf: Vec<usize> = (0..self.trees.len()).collect();
        for s in &self.selectors {
            let i = mtf.iter().position(|x| x == s).unwrap();
            mtf.remove(i);
            mtf.insert(0, *s);
            for _ in 0..i {
                p.bits(1, 1);
            }
            p.bits(0, 1);
        }
        for t in &self.trees {
            let mut l = t[0];
            p.bits(l, 5);
            for x in t {
                while l < *x {
                    p.bits(2, 2);
                    l += 1;
                }
                while l > *x {
                    p.bits(3, 2);
                    l -= 1;
                }
                p.bits(0, 1);
            }
        }
        p.0.extend(&self.body);
    }
}
fn trees(set: u64) -> (Vec<u8>, Vec<Vec<usize>>) {
    match set {
        0 => (vec![97, 98], vec![vec![2, 2, 2, 2], vec![1, 2, 3, 3]]),
        1 => (vec![0, 1, 255], vec![vec![1, 3, 3, 3, 3], vec![3, 3, 2, 2, 2]]),
        2 => (vec![4], vec![vec![1, 2, 2], vec![2, 1, 2]]),
        3 => (vec![0, 16, 32, 48, 64], vec![vec![3, 3, 3, 3, 2, 3, 3], vec![2, 3, 3, 3, 3, 3, 3], vec![1, 2, 3, 4, 5, 6, 6]]),
        _ => (vec![0], vec![vec![1, 2, 2], vec![1, 2, 2]]),
    }
}
fn bzip2_stream(blocks: &[(Block, u32)], level: u8, sum: u32) -> Vec<u8> {
    let mut p = PutB(vec![]);
    p.bits(0x425a68, 24);
    p.bits(0x30 + level as usize, 8);
    for (b, crc) in blocks {
        b.write(&mut p, *crc as usize);
    }
    p.bits(0x177245385090, 48);
    p.bits(sum as usize, 32);
    p.bytes()
}
/// blocks with fixed code tables; arbitrary body (n bits), origin and (param "crc") checksums
#[no_mangle]
pub extern "C" fn h_bzip2() {
    let cap = param("cap", 16) as usize;
    let k = param("blocks", 1);
    let mut blocks = vec![];
    let mut out = vec![];
    let mut ok = true;
    let mut sum = 0u32;
    for i in 0..k {
        let (symbols, trees) = trees(param("set", 0));
        let mut body = PutB::default();
        body.bits(param("head", 0) as usize, param("skip", 0) as usize);
        body.any(param("n", 8) as usize);
        let first = param("first", 0) as usize;
        let selectors = vec![first, 1 - first, first];
        let mut b = Block { symbols, trees, selectors, origin: any_below(param("origins", 4)) as usize, body: body.0 };
        match b.decode(100000) {
            Ok(v) => {
                let mut crc = crc_msb(&v);
                if param("crc", 0) == 1 && i == 0 {
                    let c = any_u32();
                    ok &= c == crc;
                    crc = c;
                }
                sum = sum.rotate_left(1) ^ crc;
                out.extend(v);
                blocks.push((b, crc));
            }
            Err(()) => {
                ok = false;
                sum = any_u32();
                blocks.push((b, sum));
                break;
            }
        }
    }
    if param("crc", 0) == 2 {
        let c = any_u32();
        ok &= c == sum;
        sum = c;
    }
    let c = bzip2_stream(&blocks, 9, sum);
    let mut o = vec![0xaa; cap];
    let mut x = Bzip2Context::new();
    let r = x.decompress(&c, &mut o).is_ok();
    ok &= out.len() <= cap;
    if param("crc", 0) != 0 {
        check(!r || ok, "a bzip2 stream with a wrong checksum is accepted");
    }
    compare_valid(r, x.uncompressed_data_size, &o, &if ok { Ok(out) } else { Err(()) });
}
/// arbitrary bits at the place of the selectors and code tables: they are refused or used, without a crash
#[no_mangle]
pub extern "C" fn h_bzip2_tables() {
    let (symbols, trees) = trees(2);
    let b = Block { symbols, trees, selectors: vec![0, 1], origin: 0, body: vec![] };
    let mut p = PutB(vec![]);
    p.bits(0x425a6831, 32);
    b.write(&mut p, 0);
    // 48 + 32 + 25 + 32 bits, number of trees and selectors
    p.0.truncate(32 + 137 + param("keep", 18) as usize);
    p.any(param("n", 16) as usize);
    p.bits(0, param("zeros", 64) as usize);
    let c = p.bytes();
    let mut o = vec![0xaa; 8];
    let mut x = Bzip2Context::new();
    let r = x.decompress(&c, &mut o).is_ok();
    if r { reach(1) } else { reach(2) }
}
/// a block that is larger than that of the lowest level
#[no_mangle]
pub extern "C" fn h_bzip2_large() {
    let (symbols, trees) = trees(4);
    let mut body = PutB::default();
    // a run of 2^17 + 2^16 - 1 zero bytes, which have repeat counts
    for _ in 0..16 {
        body.bits(0, 1);
    }
    body.bits(2, 2);
    body.bits(3, 2);
    let mut b = Block { symbols, trees, selectors: vec![0], origin: any_below(2) as usize, body: body.0 };
    let out = b.decode(900000).unwrap_or_default();
    check(out.len() > 78000, "the block is too small");
    let sum = crc_msb(&out);
    let c = bzip2_stream(&[(b, sum)], 9, sum);
    let mut o = vec![0xaa; out.len()];
    let mut x = Bzip2Context::new();
    let r = x.decompress(&c, &mut o).is_ok();
    check(r, "a well-formed stream with a block larger than 100000 bytes is refused");
    check(x.uncompressed_data_size == out.len() && o == out, "decompressed data differs");
    reach(1);
}
