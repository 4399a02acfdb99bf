//! C12 .. C14: data streams and formatters.
use crate::vsym::*;
use keramics_core::formatters::*;
use keramics_core::*;
use std::io::SeekFrom;

crate::harness!(h_stream_seek, h_stream_ops, h_exact, h_exact_fake, h_exact_large, h_stream_large, h_hexdump, h_hexdump_group, h_hexstring, h_array, h_error_trace, h_error_stream);

/// the declared contents of a stream: data, zeros up to the size
fn at(data: &[u8], pos: u64) -> u8 {
    if pos < data.len() as u64 { data[pos as usize] } else { 0 }
}
fn seek_from(kind: u64, off: u64) -> SeekFrom {
    match kind {
        0 => SeekFrom::Start(off),
        1 => SeekFrom::Current(off as i64),
        _ => SeekFrom::End(off as i64),
    }
}
/// position after a seek, if there is one
fn target(kind: u64, off: u64, pos: u64, size: u64) -> Option<u64> {
    match kind {
        0 => Some(off),
        1 => pos.checked_add_signed(off as i64),
        _ => size.checked_add_signed(off as i64),
    }
}
/// a seek must give the target; one that leads outside the file offsets must fail and change nothing
fn seek_and_check(s: &mut FakeDataStream, kind: u64, off: u64, pos: &mut u64) {
    let size = s.size;
    let t = target(kind, off, *pos, size);
    match (s.seek(seek_from(kind, off)), t) {
        (Ok(p), Some(t)) => {
            check(p == t, "seek returns a wrong position");
            *pos = t;
        }
        (Ok(_), None) => fail("seek before the start or beyond the last offset succeeds"),
        (Err(_), Some(t)) => check(t > i64::MAX as u64, "seek to a valid position fails"),
        (Err(_), None) => reach(2),
    }
}
fn read_and_check(s: &mut FakeDataStream, data: &[u8], len: usize, pos: &mut u64) {
    let size = s.size;
    let mut buf = vec![0xa5u8; len];
    let n = match s.read(&mut buf) {
        Ok(n) => n,
        Err(_) => fail("read fails"),
    };
    let remaining = if *pos < size { size - *pos } else { 0 };
    let want = if (len as u64) < remaining { len } else { remaining as usize };
    check(n == want, "read returns a wrong number of bytes");
    for i in 0..want {
        check(buf[i] == at(data, *pos + i as u64), "read returns wrong bytes");
    }
    for i in want..len {
        check(buf[i] == 0xa5, "read changed bytes after those it returned");
    }
    *pos += want as u64;
}
/// seeks with every 64-bit offset
#[no_mangle]
pub extern "C" fn h_stream_seek() {
    let (n, size, k) = (param("n", 3) as usize, param("size", 5), param("k", 2));
    let data = any_vec(n);
    let mut s = FakeDataStream::new(&data, size);
    let mut pos = 0;
    for _ in 0..k {
        seek_and_check(&mut s, any_below(3), any_u64(), &mut pos);
        // where the stream is afterwards
        let now = match s.seek(SeekFrom::Current(0)) {
            Ok(p) => p,
            Err(_) => {
                check(pos > i64::MAX as u64, "seek to the current position fails");
                pos
            }
        };
        check(now == pos, "the stream is not where the last seek left it");
    }
    reach(1);
    observe("pos", pos);
    if pos < n as u64 || (pos < size && size - pos < 4) {
        pos = concretize(pos);
    }
    read_and_check(&mut s, &data, 2, &mut pos);
    match s.get_size() {
        Ok(v) => check(v == size, "size changes"),
        Err(_) => fail("size is not available"),
    }
}
/// sequences of reads and seeks around the end of the data and of the stream
#[no_mangle]
pub extern "C" fn h_stream_ops() {
    let (n, size, k, lim) = (param("n", 3) as usize, param("size", 5), param("k", 3), param("len", 4));
    let data = any_vec(n);
    let mut s = FakeDataStream::new(&data, size);
    let mut pos = 0;
    for _ in 0..k {
        let op = any_below(4);
        if op == 3 {
            let len = any_below(lim + 1) as usize;
            read_and_check(&mut s, &data, len, &mut pos);
        } else {
            let m = size + 2;
            let off = if op == 0 { any_below(m) } else { any_below(2 * m).wrapping_sub(m) };
            seek_and_check(&mut s, op, off, &mut pos);
        }
    }
    read_and_check(&mut s, &data, size as usize + 1, &mut pos);
    reach(1);
    observe("pos", pos);
}

/// a stream that delivers its data in pieces
struct Pieces {
    data: Vec<u8>,
    pos: u64,
    reads: u64,
    short: bool,
    fails: bool,
}
impl DataStream for Pieces {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        Ok(self.data.len() as u64)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        self.reads += 1;
        let size = self.data.len() as u64;
        let remaining = if self.pos < size { size - self.pos } else { 0 };
        let mut n = if (buf.len() as u64) < remaining { buf.len() } else { remaining as usize };
        if n > 0 && any_bool() {
            let m = 1 + any_below(n as u64) as usize;
            self.short |= m < n;
            n = m;
        }
        if any_below(4) == 3 {
            self.fails = true;
            return Err(ErrorTrace::new("read failed".to_string()));
        }
        for i in 0..n {
            buf[i] = self.data[self.pos as usize + i];
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let t = match pos {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
            SeekFrom::End(o) => (self.data.len() as u64).checked_add_signed(o),
        };
        match t {
            Some(t) => {
                self.pos = t;
                Ok(t)
            }
            None => Err(ErrorTrace::new("seek failed".to_string())),
        }
    }
}
fn at_position(s: &DataStreamReference, buf: &mut [u8], pos: SeekFrom) -> Result<u64, ErrorTrace> {
    let off: u64 = data_stream_read_exact_at_position!(s, buf, pos);
    Ok(off)
}
fn some_at_position(s: &DataStreamReference, buf: &mut [u8], pos: SeekFrom) -> Result<usize, ErrorTrace> {
    let n: usize = data_stream_read_at_position!(s, buf, pos);
    Ok(n)
}
fn size_of(s: &DataStreamReference) -> Result<u64, ErrorTrace> {
    let n: u64 = data_stream_get_size!(s);
    Ok(n)
}
/// exact reads from a stream that delivers pieces of arbitrary sizes and may fail
#[no_mangle]
pub extern "C" fn h_exact() {
    let (n, lim, how) = (param("n", 4) as usize, param("len", 4), param("how", 0));
    let data = any_vec(n);
    let len = any_below(lim + 1) as usize;
    let kind = any_below(3);
    let m = n as u64 + 1;
    let start = any_below(m);
    let off = if kind == 0 { any_below(m) } else { any_below(2 * m + 1).wrapping_sub(m) };
    let mut s = Pieces { data: data.clone(), pos: start, reads: 0, short: false, fails: false };
    let mut buf = vec![0x5au8; len];
    let t = if how == 0 { Some(start) } else { target(kind, off, start, n as u64) };
    let (ok, got_off) = if how == 0 {
        (s.read_exact(&mut buf).is_ok(), start)
    } else {
        match s.read_exact_at_position(&mut buf, seek_from(kind, off)) {
            Ok(o) => (true, o),
            Err(_) => (false, 0),
        }
    };
    observe("ok", ok as u64);
    reach(1);
    match t {
        None => check(!ok, "an exact read at an invalid position succeeds"),
        Some(t) => {
            let whole = t + len as u64 <= n as u64 || len == 0;
            if ok {
                reach(2);
                check(whole, "an exact read beyond the end succeeds");
                check(got_off == t, "an exact read returns a wrong position");
                for i in 0..len {
                    check(buf[i] == data[t as usize + i], "an exact read returns wrong bytes");
                }
            } else {
                check(!whole || s.short || s.fails, "an exact read fails although the stream delivers everything");
            }
        }
    }
}
/// exact reads into larger buffers from a stream that delivers any part of what was asked for
struct Part(Vec<u8>, u64, usize);
impl DataStream for Part {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        Ok(self.0.len() as u64)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        buf[..self.2].copy_from_slice(&self.0[self.1 as usize..self.1 as usize + self.2]);
        self.1 += self.2 as u64;
        Ok(self.2)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        match pos {
            SeekFrom::Start(p) => self.1 = p,
            _ => fail("unexpected seek"),
        }
        Ok(self.1)
    }
}
#[no_mangle]
pub extern "C" fn h_exact_large() {
    let (len, start, how) = (param("len", 32) as usize, param("start", 0) as usize, param("how", 0));
    let data = any_vec(start + len + 1);
    // every delivered count, or the last 64 of them
    let got = if len <= 200 { any_below(len as u64 + 1) as usize } else { len - any_below(64) as usize };
    let mut s = Part(data.clone(), start as u64, got);
    let mut buf = vec![0x5au8; len];
    let (ok, off) = match how {
        0 => (s.read_exact(&mut buf).is_ok(), start as u64),
        1 => {
            let r = s.read_exact_at_position(&mut buf, SeekFrom::Start(start as u64));
            (r.is_ok(), r.unwrap_or(start as u64))
        }
        _ => {
            let s: DataStreamReference = std::sync::Arc::new(std::sync::RwLock::new(s));
            let r = at_position(&s, &mut buf, SeekFrom::Start(start as u64));
            (r.is_ok(), r.unwrap_or(start as u64))
        }
    };
    observe("ok", ok as u64);
    check(off == start as u64, "an exact read returns a wrong position");
    check(ok == (got == len), if ok { "an exact read succeeds with fewer bytes" } else { "an exact read fails although the stream delivers everything" });
    if ok {
        reach(2);
        check(same(&buf, &data[start..start + len]), "an exact read returns wrong bytes");
    }
    reach(1);
}
/// larger streams: a positioned read, a relative seek and another read
#[no_mangle]
pub extern "C" fn h_stream_large() {
    let (n, size, len) = (param("n", 600) as usize, param("size", 1000), param("len", 256) as usize);
    let data: Vec<u8> = any_window(n);
    let mut s = FakeDataStream::new(&data, size);
    let mut pos = 0;
    // around the start, the end of the data and the end of the stream
    let w = any_below(24);
    let off = match w / 8 {
        0 => w,
        1 => (n as u64 + w % 8).saturating_sub(len as u64 + 4),
        _ => (size + w % 8).saturating_sub(len as u64 + 4),
    };
    seek_and_check(&mut s, 0, off, &mut pos);
    read_and_check(&mut s, &data, len, &mut pos);
    seek_and_check(&mut s, 1, (-(any_below(3) as i64)) as u64, &mut pos);
    read_and_check(&mut s, &data, len, &mut pos);
    reach(1);
    observe("pos", pos);
}
/// exact and positioned reads of the in-memory stream, through the shared reference
#[no_mangle]
pub extern "C" fn h_exact_fake() {
    let (n, lim) = (param("n", 4) as usize, param("len", 5));
    let data = any_vec(n);
    let size = n as u64;
    let s: DataStreamReference = open_fake_data_stream(&data);
    let mut pos = 0u64;
    match size_of(&s) {
        Ok(v) => check(v == size, "wrong size"),
        Err(_) => fail("size is not available"),
    }
    for _ in 0..2 {
        let len = any_below(lim + 1) as usize;
        let kind = any_below(3);
        let m = size + 1;
        let off = if kind == 0 { any_below(m) } else { any_below(2 * m + 1).wrapping_sub(m) };
        let t = target(kind, off, pos, size);
        let mut buf = vec![0u8; len];
        let exact = any_bool();
        let r = if exact { at_position(&s, &mut buf, seek_from(kind, off)).map(|o| (len, o)) } else { some_at_position(&s, &mut buf, seek_from(kind, off)).map(|c| (c, 0)) };
        let t = match t {
            None => {
                check(r.is_err(), "a read at an invalid position succeeds");
                continue;
            }
            Some(t) => t,
        };
        let remaining = if t < size { size - t } else { 0 } as usize;
        match r {
            Err(_) => {
                check(exact && remaining < len, "a read within the stream fails");
                break;
            }
            Ok((c, o)) => {
                check(c == if remaining < len { remaining } else { len }, "wrong number of bytes");
                check(!exact || o == t, "wrong position");
                for i in 0..c {
                    check(buf[i] == data[t as usize + i], "wrong bytes");
                }
                pos = t + c as u64;
            }
        }
    }
    observe("pos", pos);
    reach(1);
}

fn digit(v: u8) -> u8 {
    if v < 10 { b'0' + v } else { b'a' + (v - 10) }
}
/// the dump of `data`, lines omitted as `skipped` says (1: not shown, 2: shown as "...")
fn reference_dump(data: &[u8], group: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let full = data.len() / 16;
    let mut last = 0usize;
    let mut dots = false;
    for l in 0..(data.len() + 15) / 16 {
        let a = l * 16;
        let e = if a + 16 < data.len() { a + 16 } else { data.len() };
        if group && l > 0 && l + 1 < full && same(&data[last * 16..last * 16 + 16], &data[a..e]) {
            if !dots {
                out.extend_from_slice(b"...\n");
            }
            dots = true;
            continue;
        }
        last = l;
        dots = false;
        for i in (0..8).rev() {
            out.push(digit((a >> (4 * i)) as u8 & 15));
        }
        out.extend_from_slice(b"  ");
        for i in 0..16 {
            if a + i < e {
                let b = data[a + i];
                out.push(digit(b >> 4));
                out.push(digit(b & 15));
                out.push(b' ');
            } else {
                out.extend_from_slice(b"   ");
            }
            if i == 7 {
                out.push(b' ');
            }
        }
        out.push(b' ');
        for i in a..e {
            out.push(if data[i] >= 32 && data[i] < 127 { data[i] } else { b'.' });
        }
        out.push(b'\n');
    }
    out.push(b'\n');
    out
}
fn filler(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(29).wrapping_add(11)).collect()
}
/// n bytes, k of them from `at` on arbitrary
#[no_mangle]
pub extern "C" fn h_hexdump() {
    let (n, at, k, group) = (param("n", 3) as usize, param("at", 0) as usize, param("k", 3) as usize, param("group", 0) == 1);
    let mut data = filler(n);
    for i in at..n.min(at + k) {
        data[i] = any_u8();
    }
    let s = format_as_hexdump(&data, group);
    observe_bytes("dump", s.as_bytes());
    reach(1);
    check(same(s.as_bytes(), &reference_dump(&data, group)), "the dump does not show the data");
}
/// lines equal or different in one arbitrary byte
#[no_mangle]
pub extern "C" fn h_hexdump_group() {
    let (lines, tail, at) = (param("lines", 5) as usize, param("tail", 0) as usize, param("at", 3) as usize);
    let line = filler(16);
    let mut data = vec![];
    let from = param("from", 0) as usize;
    for i in 0..lines {
        let mut l = line.clone();
        if i < from && i % 1000 != 0 {
            data.extend_from_slice(&l);
            continue;
        }
        l[at] = 0x40 + any_u8() % 16;
        data.extend_from_slice(&l);
    }
    data.extend_from_slice(&line[..tail]);
    let s = format_as_hexdump(&data, true);
    observe_bytes("dump", s.as_bytes());
    reach(1);
    check(same(s.as_bytes(), &reference_dump(&data, true)), "the dump does not show the data");
}
#[no_mangle]
pub extern "C" fn h_hexstring() {
    let n = param("n", 4) as usize;
    let data = any_window(n);
    let s = format_as_string(&data);
    let s = s.as_bytes();
    observe_bytes("s", s);
    reach(1);
    check(s.len() == 2 * n, "wrong length");
    for i in 0..n {
        check(s[2 * i] == digit(data[i] >> 4) && s[2 * i + 1] == digit(data[i] & 15), "wrong digits");
    }
}
/// arrays of n elements, the elements from `at` on arbitrary digits
#[no_mangle]
pub extern "C" fn h_array() {
    let (n, at, k) = (param("n", 3) as usize, param("at", 0) as usize, param("k", 2) as usize);
    let mut v: Vec<Vec<u8>> = (0..n).map(|i| if param("eq", 0) == 1 { b"1".to_vec() } else { format!("{}", i).into_bytes() }).collect();
    for i in at..n.min(at + k) {
        v[i] = vec![b'0' + any_u8() % 10];
    }
    let strings: Vec<String> = v.iter().map(|b| String::from_utf8(b.clone()).unwrap()).collect();
    let s = debug_format_array(&strings);
    observe_bytes("s", s.as_bytes());
    reach(1);
    let mut alike = true;
    for i in 1..n {
        alike &= v[i].len() == v[0].len() && same(&v[i], &v[0]);
    }
    // the elements in order, ignoring separators and line breaks; or the short form
    let mut want: Vec<u8> = vec![];
    let flat = |b: &[u8]| -> Vec<u8> { b.iter().copied().filter(|c| *c != b' ' && *c != b'\n').collect() };
    want.push(b'[');
    if alike && n > 0 {
        want.extend_from_slice(&v[0]);
        want.extend_from_slice(format!(";{}", n).as_bytes());
    } else {
        for i in 0..n {
            if i > 0 {
                want.push(b',');
            }
            want.extend_from_slice(&v[i]);
        }
    }
    want.push(b']');
    check(same(&flat(s.as_bytes()), &want), "the array is not shown element by element");
}

/// n arbitrary ASCII characters (new lines included), the first ones repeat on demand
fn message(n: usize) -> String {
    let b = any_vec(n);
    for x in &b {
        assume(*x < 0x80);
    }
    String::from_utf8(b).unwrap()
}
fn macro_new(m: &str) -> ErrorTrace {
    error_trace_new!(m)
}
fn macro_with_error(m: &str, e: ErrorTrace) -> ErrorTrace {
    error_trace_new_with_error!(m, e)
}
fn macro_frame(e: &mut ErrorTrace, m: &str) {
    error_trace_add_frame!(e, m)
}
/// a frame of a macro: the name of the function, then the message
fn frame(function: &str, m: &str) -> String {
    let mut s = String::from("harness::core_::");
    s.push_str(function);
    s.push_str(": ");
    s.push_str(m);
    s
}
/// the decimal digits of a small number
fn digits(n: usize) -> String {
    let mut s = String::new();
    if n >= 10 {
        s.push_str(&digits(n / 10));
    }
    s.push((b'0' + (n % 10) as u8) as char);
    s
}
/// C29: "frames" frames behind the first message, each added directly or through a macro; a message repeats on demand
#[no_mangle]
pub extern "C" fn h_error_trace() {
    let frames = param("frames", 2) as usize;
    let n = param("n", 2) as usize;
    let many = param("many", 0) as usize;
    let mut want: Vec<String> = vec![];
    let m = message(n);
    let mut e = match any_below(3) {
        0 => {
            want.push(m.clone());
            ErrorTrace::new(m)
        }
        1 => {
            want.push(frame("macro_new", &m));
            macro_new(&m)
        }
        _ => {
            let mut x = ErrorTrace::new(m.clone());
            x.add_frame("inner".to_string());
            let mut all = m.clone();
            all.push_str(" with error: ");
            all.push_str(&m);
            all.push_str("\ninner");
            want.push(frame("macro_with_error", &all));
            macro_with_error(&m, x)
        }
    };
    for i in 0..many {
        want.push(digits(i % 3));
        e.add_frame(digits(i % 3));
    }
    for _ in 0..frames {
        match any_below(3) {
            0 => {
                let m = message(n);
                want.push(m.clone());
                e.add_frame(m);
            }
            1 => {
                let m = message(n);
                want.push(frame("macro_frame", &m));
                macro_frame(&mut e, &m);
            }
            _ => {
                // the message of the frame before once more
                let m = want.last().unwrap().clone();
                want.push(m.clone());
                e.add_frame(m);
                reach(2);
            }
        }
    }
    let mut plain = String::new();
    let mut shown = String::new();
    for (i, w) in want.iter().enumerate() {
        if i > 0 {
            plain.push('\n');
            shown.push('\n');
        }
        plain.push_str(w);
        shown.push('#');
        shown.push_str(&digits(i));
        shown.push(' ');
        shown.push_str(w);
    }
    check(same(e.to_string().as_bytes(), plain.as_bytes()), "the text of the trace is not the messages in the order in which they were added");
    check(same(format!("{}", e).as_bytes(), shown.as_bytes()), "the trace is not shown as its numbered messages");
    reach(1);
}
/// a stream whose operations fail with a given message from a given operation on
struct Failing(u64, String);
impl Failing {
    fn step(&mut self) -> Result<(), ErrorTrace> {
        if self.0 == 0 {
            return Err(ErrorTrace::new(self.1.clone()));
        }
        self.0 -= 1;
        Ok(())
    }
}
impl DataStream for Failing {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        self.step()?;
        Ok(40)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        self.step()?;
        buf.fill(7);
        Ok(buf.len())
    }
    fn seek(&mut self, _: SeekFrom) -> Result<u64, ErrorTrace> {
        self.step()?;
        Ok(3)
    }
}
fn shared_size(s: &DataStreamReference) -> Result<u64, ErrorTrace> {
    Ok(data_stream_get_size!(s))
}
fn shared_read(s: &DataStreamReference, b: &mut [u8]) -> Result<usize, ErrorTrace> {
    Ok(data_stream_read_at_position!(s, b, SeekFrom::Start(3)))
}
fn shared_read_exact(s: &DataStreamReference, b: &mut [u8]) -> Result<u64, ErrorTrace> {
    Ok(data_stream_read_exact_at_position!(s, b, SeekFrom::Start(3)))
}
/// C29: what an operation on a shared stream reports is the cause, then at least one frame of the caller
#[no_mangle]
pub extern "C" fn h_error_stream() {
    let m = message(param("n", 2) as usize);
    let after = any_below(4);
    let s: DataStreamReference = std::sync::Arc::new(std::sync::RwLock::new(Failing(after, m.clone())));
    let mut b = [0u8; 4];
    let (r, steps, name) = match any_below(3) {
        0 => (shared_size(&s).map(|n| check(n == 40, "a wrong size")), 1, "shared_size"),
        1 => (shared_read(&s, &mut b).map(|n| check(n == 4, "a wrong count")), 2, "shared_read"),
        _ => (shared_read_exact(&s, &mut b).map(|n| check(n == 3, "a wrong offset")), 2, "shared_read_exact"),
    };
    match r {
        Ok(()) => {
            check(after >= steps, "a failing operation succeeds");
            reach(1);
        }
        Err(e) => {
            check(after < steps, "an operation fails");
            let t = e.to_string();
            let mut first = m.clone();
            first.push('\n');
            check(t.len() > first.len() && same(&t.as_bytes()[..first.len()], first.as_bytes()), "the cause is not the first message");
            let last = t[t.rfind('\n').unwrap() + 1..].to_string();
            check(last.starts_with(&frame(name, "")), "the last message does not name the caller");
            reach(2);
        }
    }
    check(!s.is_poisoned(), "the lock is poisoned");
}
