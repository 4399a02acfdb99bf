//! C20: readers generated by the LayoutMap derive macro.
use crate::vsym::*;

crate::harness!(h_layout, h_layout_group, h_layout_position, h_layout_bits_modifier, h_layout_group_array);

mod kinds {
    use keramics_core::ErrorTrace;
    use keramics_layout_map::LayoutMap;

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "a", data_type = "u8"),
            field(name = "b", data_type = "u16"),
            field(name = "c", data_type = "u32", format = "hex"),
            field(name = "d", data_type = "u64", format = "hex"),
            field(name = "e", data_type = "u8", format = "char"),
            field(name = "f", data_type = "u16", byte_order = "big", format = "hex"),
            field(name = "g", data_type = "i16"),
            field(name = "h", data_type = "i32", byte_order = "big"),
            field(name = "i", data_type = "i64", format = "hex"),
            field(name = "j", data_type = "u16", modifier = "^ 21845"),
            field(name = "k", data_type = "u8", format = "hex"),
        ),
        method(name = "debug_read_data"),
        method(name = "read_at_position")
    )]
    pub struct Little {
        pub data: Vec<u8>,
    }
    impl Little {
        fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
            self.data = data.to_vec();
            Ok(())
        }
        pub fn at(&mut self, s: &keramics_core::DataStreamReference, p: std::io::SeekFrom) -> Result<(), ErrorTrace> {
            self.read_at_position(s, p)
        }
    }
    pub const LITTLE: usize = 1 + 2 + 4 + 8 + 1 + 2 + 2 + 4 + 8 + 2 + 1;

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "big",
            field(name = "a", data_type = "uint16"),
            field(name = "b", data_type = "uint32"),
            field(name = "c", data_type = "uint64", byte_order = "little"),
            field(name = "d", data_type = "int16", format = "hex"),
            field(name = "e", data_type = "i16", byte_order = "little"),
            field(name = "f", data_type = "i32", byte_order = "little"),
            field(name = "g", data_type = "i64"),
            field(name = "h", data_type = "i64", byte_order = "LittleEndian"),
            field(name = "i", data_type = "uint8"),
            field(name = "j", data_type = "u64"),
            field(name = "k", data_type = "i8"),
            field(name = "l", data_type = "[int8; 2]"),
            field(name = "m", data_type = "SignedInteger8Bit", format = "hex"),
        ),
        method(name = "debug_read_data")
    )]
    pub struct Big {}
    pub const BIG: usize = 2 + 4 + 8 + 2 + 2 + 4 + 8 + 8 + 1 + 8 + 1 + 2 + 1;

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "x", data_type = "u8", format = "hex"),
            field(name = "y", data_type = "u16", format = "hex"),
        ),
        method(name = "debug_read_data")
    )]
    pub struct Inner {}

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "a", data_type = "[u8; 4]"),
            field(name = "b", data_type = "[u16; 3]", byte_order = "big", format = "hex"),
            field(name = "c", data_type = "[u8; 3]", format = "char"),
            field(name = "d", data_type = "ByteString<5>"),
            field(name = "e", data_type = "Ucs2String<3>"),
            field(name = "f", data_type = "Utf16String<2>", byte_order = "big"),
            field(name = "g", data_type = "Struct<Inner; 3>"),
            field(name = "h", data_type = "[Struct<Inner; 3>; 2]"),
            field(name = "i", data_type = "[i32; 2]"),
            field(name = "j", data_type = "u8"),
        ),
        method(name = "debug_read_data")
    )]
    pub struct Sequences {}
    pub const SEQUENCES: usize = 4 + 6 + 3 + 5 + 6 + 4 + 3 + 6 + 8 + 1;

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "a", data_type = "BitField8<3>"),
            field(name = "b", data_type = "BitField8<5>", format = "hex"),
            field(name = "c", data_type = "BitField16<1>", byte_order = "big"),
            field(name = "d", data_type = "BitField16<9>", format = "hex"),
            field(name = "e", data_type = "BitField16<6>"),
            field(name = "f", data_type = "BitField32<31>", format = "hex"),
            field(name = "g", data_type = "BitField32<1>"),
            field(name = "h", data_type = "BitField64<20>", byte_order = "big", format = "hex"),
            field(name = "i", data_type = "BitField64<40>", format = "hex"),
            field(name = "j", data_type = "BitField64<4>"),
            field(name = "k", data_type = "u16", format = "hex"),
            field(name = "l", data_type = "BitField64<63>", format = "hex"),
            field(name = "m", data_type = "BitField64<1>", format = "hex"),
            field(name = "n", data_type = "BitField64<64>", format = "hex"),
        ),
        method(name = "debug_read_data")
    )]
    pub struct Bits {}
    pub const BITS: usize = 1 + 2 + 4 + 8 + 2 + 8 + 8;

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "a", data_type = "FatDate"),
            field(name = "b", data_type = "FatTimeDate"),
            field(name = "c", data_type = "FatTimeDate10Ms"),
            field(name = "d", data_type = "Filetime"),
            field(name = "e", data_type = "PosixTime32"),
            field(name = "f", data_type = "PosixTime32", byte_order = "big"),
            field(name = "g", data_type = "uuid"),
            field(name = "h", data_type = "Uuid", byte_order = "big"),
            field(name = "i", data_type = "u16"),
        ),
        method(name = "debug_read_data")
    )]
    pub struct Times {}
    pub const TIMES: usize = 2 + 4 + 5 + 8 + 4 + 4 + 16 + 16 + 2;

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "big",
            member(field(name = "a", data_type = "u16")),
            member(group(
                size_condition = ">= 8",
                field(name = "b", data_type = "u16"),
                field(name = "c", data_type = "u32", byte_order = "little", format = "hex")
            )),
            member(group(size_condition = "> 9", field(name = "d", data_type = "u16", format = "hex"))),
        ),
        method(name = "debug_read_data")
    )]
    pub struct Groups {}

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "a", data_type = "BitField16<12>", modifier = "+ 1"),
            field(name = "b", data_type = "BitField16<4>"),
        ),
        method(name = "debug_read_data")
    )]
    pub struct BitsModifier {}

    #[derive(LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            member(field(name = "a", data_type = "u8")),
            member(group(size_condition = "> 1", field(name = "b", data_type = "[u8; 4]"), field(name = "c", data_type = "u8"))),
        ),
        method(name = "debug_read_data")
    )]
    pub struct GroupArray {}
}
use kinds::*;

struct Ref {
    data: Vec<u8>,
    at: usize,
    out: String,
}
impl Ref {
    fn new(data: &[u8], name: &str) -> Self {
        Self { data: data.to_vec(), at: 0, out: format!("{} {{\n", name) }
    }
    fn take(&mut self, n: usize) -> Vec<u8> {
        self.at += n;
        self.data[self.at - n..self.at].to_vec()
    }
    fn le(&mut self, n: usize) -> u64 {
        let b = self.take(n);
        let mut v = 0;
        for i in (0..n).rev() {
            v = v << 8 | b[i] as u64;
        }
        v
    }
    fn be(&mut self, n: usize) -> u64 {
        let b = self.take(n);
        let mut v = 0;
        for i in 0..n {
            v = v << 8 | b[i] as u64;
        }
        v
    }
    fn put(&mut self, name: &str, v: String) {
        self.out.push_str("    ");
        self.out.push_str(name);
        self.out.push_str(": ");
        self.out.push_str(&v);
        self.out.push_str(",\n");
    }
    fn end(&mut self) -> String {
        self.out.push_str("}\n\n");
        self.out.clone()
    }
}
fn hex(v: u64, bytes: usize) -> String {
    let mut s = String::from("0x");
    for i in (0..2 * bytes).rev() {
        let d = (v >> (4 * i)) as u8 & 15;
        s.push((if d < 10 { b'0' + d } else { b'a' + (d - 10) }) as char);
    }
    s
}
/// hexadecimal digits for a number of bits
fn hexb(v: u64, bits: usize) -> String {
    let mut s = String::from("0x");
    for i in (0..(bits + 3) / 4).rev() {
        let d = (v >> (4 * i)) as u8 & 15;
        s.push((if d < 10 { b'0' + d } else { b'a' + (d - 10) }) as char);
    }
    s
}
fn latin1(b: u8) -> String {
    String::from(b as char)
}

fn little(d: &[u8]) -> String {
    let mut r = Ref::new(d, "Little");
    let v = r.le(1);
    r.put("a", format!("{}", v as u8));
    let v = r.le(2);
    r.put("b", format!("{}", v as u16));
    let v = r.le(4);
    r.put("c", hex(v, 4));
    let v = r.le(8);
    r.put("d", hex(v, 8));
    let v = r.le(1);
    r.put("e", latin1(v as u8));
    let v = r.be(2);
    r.put("f", hex(v, 2));
    let v = r.le(2);
    r.put("g", format!("{}", v as i16));
    let v = r.be(4);
    r.put("h", format!("{}", v as i32));
    let v = r.le(8);
    r.put("i", hex(v, 8));
    let v = r.le(2);
    r.put("j", format!("{}", v as u16 ^ 0x5555));
    let v = r.le(1);
    r.put("k", hex(v, 1));
    r.end()
}
fn big(d: &[u8]) -> String {
    let mut r = Ref::new(d, "Big");
    let v = r.be(2);
    r.put("a", format!("{}", v as u16));
    let v = r.be(4);
    r.put("b", format!("{}", v as u32));
    let v = r.le(8);
    r.put("c", format!("{}", v));
    let v = r.be(2);
    r.put("d", hex(v, 2));
    let v = r.le(2);
    r.put("e", format!("{}", v as i16));
    let v = r.le(4);
    r.put("f", format!("{}", v as i32));
    let v = r.be(8);
    r.put("g", format!("{}", v as i64));
    let v = r.le(8);
    r.put("h", format!("{}", v as i64));
    let v = r.le(1);
    r.put("i", format!("{}", v as u8));
    let v = r.be(8);
    r.put("j", format!("{}", v));
    let v = r.le(1);
    r.put("k", format!("{}", v as i8));
    let v: Vec<String> = (0..2).map(|_| format!("{}", r.le(1) as i8)).collect();
    r.put("l", array(&v));
    let v = r.le(1);
    r.put("m", hex(v, 1));
    r.end()
}
fn array(v: &[String]) -> String {
    if v.iter().all(|x| *x == v[0]) {
        return format!("[{}; {}]", v[0], v.len());
    }
    format!("[{}]", v.join(", "))
}
fn inner(r: &mut Ref, indent: &str, out: &mut String) {
    let (x, y) = (r.le(1), r.le(2));
    out.push_str(&format!("{}Inner {{\n{}    x: {},\n{}    y: {},\n{}}}\n", indent, indent, hex(x, 1), indent, hex(y, 2), indent));
    // the blank line that ends a structure
    out.push_str(indent);
    out.push('\n');
}
fn sequences(d: &[u8]) -> String {
    let mut r = Ref::new(d, "Sequences");
    let v: Vec<String> = (0..4).map(|_| format!("{}", r.le(1) as u8)).collect();
    r.put("a", array(&v));
    let v: Vec<String> = (0..3).map(|_| hex(r.be(2), 2)).collect();
    r.put("b", array(&v));
    let v: Vec<String> = (0..3).map(|_| latin1(r.le(1) as u8)).collect();
    r.put("c", array(&v));
    let b = r.take(5);
    r.put("d", format!("\"{}\"", keramics_types::ByteString::from(&b).to_string()));
    let b = r.take(6);
    r.put("e", format!("\"{}\"", keramics_types::Ucs2String::from_le_bytes(&b).to_string()));
    let b = r.take(4);
    r.put("f", format!("\"{}\"", keramics_types::Utf16String::from_be_bytes(&b).to_string()));
    let mut o = String::from("    g: ");
    inner(&mut r, "    ", &mut o);
    o.push_str("    h: [\n");
    inner(&mut r, "        ", &mut o);
    inner(&mut r, "        ", &mut o);
    o.push_str("    ],\n");
    r.out.push_str(&o);
    let v: Vec<String> = (0..2).map(|_| format!("{}", r.le(4) as i32)).collect();
    r.put("i", array(&v));
    let v = r.le(1);
    r.put("j", format!("{}", v as u8));
    r.end()
}
fn bits(d: &[u8]) -> String {
    let mut r = Ref::new(d, "Bits");
    let v = r.le(1);
    r.put("a", format!("{}", v as u8 & 7));
    r.put("b", hexb(v >> 3, 5));
    let v = r.be(2);
    r.put("c", format!("{}", v & 1));
    r.put("d", hexb(v >> 1 & 0x1ff, 9));
    r.put("e", format!("{}", (v >> 10) as u8));
    let v = r.le(4);
    r.put("f", hexb(v & 0x7fff_ffff, 31));
    r.put("g", format!("{}", v >> 31));
    let v = r.be(8);
    r.put("h", hexb(v & 0xf_ffff, 20));
    r.put("i", hexb(v >> 20 & 0xff_ffff_ffff, 40));
    r.put("j", format!("{}", (v >> 60) as u8));
    let v = r.le(2);
    r.put("k", hex(v, 2));
    let v = r.le(8);
    r.put("l", hexb(v & (u64::MAX >> 1), 63));
    r.put("m", hexb(v >> 63, 1));
    let v = r.le(8);
    r.put("n", hexb(v, 64));
    r.end()
}
fn times(d: &[u8]) -> String {
    use keramics_datetime::*;
    let mut r = Ref::new(d, "Times");
    let v = r.take(2);
    r.put("a", format!("{}", FatDate::from_bytes(&v)));
    let v = r.take(4);
    r.put("b", format!("{}", FatTimeDate::from_bytes(&v)));
    let v = r.take(5);
    r.put("c", format!("{}", FatTimeDate10Ms::from_bytes(&v)));
    let v = r.take(8);
    r.put("d", format!("{}", Filetime::from_bytes(&v)));
    let v = r.le(4);
    r.put("e", format!("{}", PosixTime32::new(v as u32 as i32)));
    let v = r.be(4);
    r.put("f", format!("{}", PosixTime32::new(v as u32 as i32)));
    for name in ["g", "h"] {
        let b = r.take(16);
        let o = if name == "g" { [3usize, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15] } else { [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] };
        let mut s = String::new();
        for i in 0..16 {
            if i == 4 || i == 6 || i == 8 || i == 10 {
                s.push('-');
            }
            s.push_str(&hex(b[o[i]] as u64, 1)[2..]);
        }
        r.put(name, s);
    }
    let v = r.le(2);
    r.put("i", format!("{}", v as u16));
    r.end()
}
fn filler(n: usize, plain: bool) -> Vec<u8> {
    (0..n).map(|i| if plain { 0x41 + (i as u8 % 26) } else { (i as u8).wrapping_mul(57).wrapping_add(0x21) | 1 }).collect()
}
/// data at least as large as the structure, k bytes from `at` on arbitrary
#[no_mangle]
pub extern "C" fn h_layout() {
    let (kind, at, k, extra) = (param("kind", 0), param("at", 0) as usize, param("k", 2) as usize, param("extra", 0) as usize);
    let size = [LITTLE, BIG, SEQUENCES, BITS, TIMES][kind as usize];
    let mut d = filler(size + extra, kind == 2);
    if kind == 4 {
        // dates that exist
        let base = [0x21, 0x50, 0x63, 0x42, 0x62, 0x51, 0x63, 0x42, 0x64, 0x53, 0x33, 0x00, 0x80, 0x3e, 0xd5, 0xde, 0xb1, 0x9d, 0x01, 0x10, 0x20, 0x30, 0x40, 0x11, 0x22, 0x33, 0x44];
        d[..base.len()].copy_from_slice(&base);
    }
    for i in at..size.min(at + k) {
        d[i] = any_u8();
    }
    let got = match kind {
        0 => Little::debug_read_data(&d),
        1 => Big::debug_read_data(&d),
        2 => Sequences::debug_read_data(&d),
        3 => Bits::debug_read_data(&d),
        _ => Times::debug_read_data(&d),
    };
    let want = match kind {
        0 => little(&d),
        1 => big(&d),
        2 => sequences(&d),
        3 => bits(&d),
        _ => times(&d),
    };
    observe_bytes("text", got.as_bytes());
    reach(1);
    check(same(got.as_bytes(), want.as_bytes()), "a member is not shown as its layout declares");
}
/// members that depend on the size of the data
#[no_mangle]
pub extern "C" fn h_layout_group() {
    let n = 2 + any_below(12) as usize;
    if n < 8 && n > 2 {
        reach(2);
    }
    let mut d = filler(n, false);
    for i in 0..2 {
        d[i] = any_u8();
    }
    if n > 6 {
        d[4] = any_u8();
        d[n - 1] = any_u8();
    }
    let got = Groups::debug_read_data(&d);
    let mut r = Ref::new(&d, "Groups");
    let v = r.be(2);
    r.put("a", format!("{}", v as u16));
    if n >= 8 {
        let v = r.be(2);
        r.put("b", format!("{}", v as u16));
        let v = r.le(4);
        r.put("c", hex(v, 4));
    }
    if n > 9 {
        let v = r.be(2);
        r.put("d", hex(v, 2));
    }
    let want = r.end();
    observe_bytes("text", got.as_bytes());
    reach(1);
    check(same(got.as_bytes(), want.as_bytes()), "a member is not shown as its layout declares");
}
/// reading a structure from a stream
#[no_mangle]
pub extern "C" fn h_layout_position() {
    let n = param("n", LITTLE as u64 + 2) as usize;
    let d = any_vec(n);
    let s = keramics_core::open_fake_data_stream(&d);
    let kind = any_below(3);
    let lim = n as u64 + 2;
    let off = any_below(lim);
    let (from, pos) = match kind {
        0 => (std::io::SeekFrom::Start(off), off as i64),
        1 => (std::io::SeekFrom::Current(off as i64), off as i64),
        _ => (std::io::SeekFrom::End(-(off as i64)), n as i64 - off as i64),
    };
    let mut x = Little { data: vec![] };
    let r = x.at(&s, from);
    let fits = pos >= 0 && pos as usize + LITTLE <= n;
    observe("ok", r.is_ok() as u64);
    reach(1);
    check(r.is_ok() == fits, "a structure outside the data is read, or one inside is not");
    if fits {
        reach(2);
        check(same(&x.data, &d[pos as usize..pos as usize + LITTLE]), "not the bytes of the structure");
    } else {
        check(x.data.len() == 0, "a structure outside the data is read");
    }
}
/// modifiers of bit fields
#[no_mangle]
pub extern "C" fn h_layout_bits_modifier() {
    let d = any_vec(2);
    let got = BitsModifier::debug_read_data(&d);
    let mut r = Ref::new(&d, "BitsModifier");
    let v = r.le(2);
    r.put("a", format!("{}", (v as u16 & 0xfff) + 1));
    r.put("b", format!("{}", v as u16 >> 12));
    let want = r.end();
    reach(1);
    let mut known = Ref::new(&d, "BitsModifier");
    let v = known.le(2);
    known.put("a", format!("{}", v as u16 & 0x1000));
    known.put("b", format!("{}", v as u16 >> 12));
    let known = known.end();
    check(same(got.as_bytes(), want.as_bytes()) || same(got.as_bytes(), known.as_bytes()), "a bit field is not shown as its layout declares");
    check(same(got.as_bytes(), want.as_bytes()), "the modifier of a bit field is not applied to its value");
}
/// arrays in a group
#[no_mangle]
pub extern "C" fn h_layout_group_array() {
    let mut d = any_vec(6);
    d[0] = 1;
    for i in 1..5 {
        d[i] = b'0' + i as u8;
    }
    let got = GroupArray::debug_read_data(&d);
    let mut r = Ref::new(&d, "GroupArray");
    let v = r.le(1);
    r.put("a", format!("{}", v as u8));
    let v: Vec<String> = (0..4).map(|_| format!("{}", r.le(1) as u8)).collect();
    r.put("b", array(&v));
    let v = r.le(1);
    r.put("c", format!("{}", v as u8));
    let want = r.end();
    reach(1);
    let mut known = Ref::new(&d, "GroupArray");
    for name in ["a", "b", "c"] {
        let v = known.le(1);
        known.put(name, format!("{}", v as u8));
    }
    let known = known.end();
    check(same(got.as_bytes(), want.as_bytes()) || same(got.as_bytes(), known.as_bytes()), "a member is not shown as its layout declares");
    check(same(got.as_bytes(), want.as_bytes()), "an array in a group is not shown as its layout declares");
}
