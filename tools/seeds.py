"""Planted bugs: each breaks one property, compiles and passes the existing tests."""
SEEDS = []
def seed(id, prop, file, old, new, needs, breaks, deps, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, file=file, old=old, new=new, needs=needs, breaks=breaks, deps=deps, demo=demo, **k))

seed("adler-mod-boundary", "C01", "keramics-checksums/src/adler32.rs",
     "        if value >= 65521 {\n            value -= 65521;", "        if value > 65521 {\n            value -= 65521;",
     "a lower or upper word that is exactly 65521 before the last reduction step",
     "the checksum contains 0xfff1 instead of 0 for such contents",
     ["keramics-checksums"], '''
use keramics_checksums::Adler32Context;
fn main() {
    for n in 1..2000usize {
        for f in [0xffu8, 0xf0, 0x80] {
            let d = vec![f; n];
            let (mut a, mut b) = (1u32, 0u32);
            for x in &d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; }
            let mut c = Adler32Context::new(1);
            c.update(&d);
            assert_eq!(c.finalize(), b << 16 | a);
        }
        // content chosen so that the lower word is exactly 65521
        let mut d = vec![0xffu8; 256]; d.push(240);
        let mut c = Adler32Context::new(1);
        c.update(&d);
        let s = d.iter().fold(1u32, |a, x| a + *x as u32);
        assert_eq!(c.finalize() & 0xffff, s % 65521);
    }
}
''')
seed("adler-deferred", "C02", "keramics-checksums/src/adler32.rs",
     "        if data_offset < data_size {\n            while", "        if data_offset + 1 < data_size {\n            while",
     "a piece of exactly one byte (or a single byte left after whole 5552 byte runs)",
     "a single remaining byte is left out of the checksum",
     ["keramics-checksums"], '''
use keramics_checksums::Adler32Context;
fn main() {
    let d: Vec<u8> = (0..5600u32).map(|x| (x % 251) as u8).collect();
    let mut c = Adler32Context::new(1); c.update(&d); let w = c.finalize();
    let mut c = Adler32Context::new(1); c.update(&d[..100]); c.update(&d[100..101]); c.update(&d[101..]);
    assert_eq!(c.finalize(), w);
}
''')
seed("sha1-restart", "C04", "keramics-hashes/src/sha1.rs",
     "        self.number_of_bytes_hashed = 0;\n        self.block_offset = 0;", "        self.block_offset = 0;",
     "a context used for a second message after a first one of at least 64 bytes",
     "the second digest uses the accumulated length of both messages",
     ["keramics-hashes"], '''
use keramics_hashes::{DigestHashContext, Sha1Context};
fn main() {
    let mut c = Sha1Context::new();
    c.update(&[1u8; 100]); c.finalize(); c.update(b"abc");
    let mut d = Sha1Context::new();
    d.update(b"abc");
    assert_eq!(c.finalize(), d.finalize());
}
''')
seed("base64-urlsafe", "C09", "keramics-encodings/src/base64.rs",
     "                0x2f => 63,                             // /", "                0x2f | 0x5f => 63,                      // /",
     "text with an underscore, which is outside the base64 alphabet",
     "a character outside the alphabet is decoded instead of reported",
     ["keramics-encodings"], '''
use keramics_encodings::Base64Context;
fn main() {
    for c in 0..=255u8 {
        let mut o = [0u8; 3];
        let ok = Base64Context::new().decode(&[b'Q', c, b'Q', b'Q'], &mut o).is_ok();
        assert_eq!(ok, c.is_ascii_alphanumeric() || c == b'+' || c == b'/' || c == b'=' && false, "{c}");
    }
}
''')
seed("windows1253-encoder-range", "C06", "keramics-encodings/src/windows1253.rs",
     "0x0000..0x0080 => Some(Ok(vec![*code_point as u8])),", "0x0000..0x0080 | 0x0100..0x0180 => Some(Ok(vec![*code_point as u8])),",
     "a code point of the Latin Extended-A block",
     "characters the code page does not have are silently encoded as other bytes",
     ["keramics-encodings"], '''
use keramics_encodings::*;
fn main() {
    for c in 0..0x3000u32 {
        let p = [c];
        let mut e = new_character_encoder(&CharacterEncoding::Windows1253, &p);
        if let Some(Ok(b)) = e.next() {
            let mut d = new_character_decoder(&CharacterEncoding::Windows1253, &b);
            assert_eq!(d.next().unwrap().ok(), Some(c));
        }
    }
}
''')
SEEDS = [s for s in SEEDS if s["old"]]

seed("md5-length-32bit", "C03", "keramics-hashes/src/md5.rs",
     "        let bit_size: u64 = (self.number_of_bytes_hashed + self.block_offset as u64) * 8;",
     "        let bit_size: u64 = ((self.number_of_bytes_hashed as u32 + self.block_offset as u32) as u64) * 8;",
     "a message of 4 GiB or more", "the length in the padding is that of the message modulo 4 GiB",
     ["keramics-hashes"], '''
use keramics_hashes::{DigestHashContext, Md5Context};
fn main() {
    // MD5 of 2^32 zero bytes: c9a5a6878d97b48cc965c1e41859f034
    let z = vec![0u8; 1 << 26];
    let mut c = Md5Context::new();
    for _ in 0..64 { c.update(&z); }
    assert_eq!(c.finalize()[..8], [0xc9, 0xa5, 0xa6, 0x87, 0x8d, 0x97, 0xb4, 0x8c]);
}
''', release=True)
seed("utf8-surrogate-low", "C07", "keramics-encodings/src/utf8.rs",
     "                0xed => byte_value < 0x80 || byte_value > 0x9f,\n                0xf0", "                0xed => byte_value < 0x80 || byte_value > 0xaf,\n                0xf0",
     "an encoded surrogate U+D800 to U+DBFF", "ill-formed UTF-8 is decoded to a surrogate code point",
     ["keramics-encodings"], '''
use keramics_encodings::*;
fn main() {
    let mut d = new_character_decoder(&CharacterEncoding::Utf8, &[0xed, 0xa0, 0x80]);
    assert!(d.next().unwrap().is_err());
}
''')
seed("windows932-halfwidth", "C08", "keramics-encodings/src/windows932.rs",
     "0x81..0x85 | 0x87..0xa0 | 0xe0..0xeb | 0xed..=0xee | 0xf0..0xfd => {", "0x81..0x85 | 0x87..0xa1 | 0xe0..0xeb | 0xed..=0xee | 0xf0..0xfd => {",
     "the byte 0xa0, which is no lead byte, followed by another byte", "the byte after 0xa0 is swallowed",
     ["keramics-encodings"], '''
use keramics_encodings::*;
fn main() {
    let mut d = new_character_decoder(&CharacterEncoding::Windows932, &[0xa0, 0x41]);
    d.next();
    assert_eq!(d.next().unwrap().unwrap(), 0x41);
}
''')
seed("datetime-century", "C11", "keramics-datetime/src/util.rs",
     "    (year % 4 == 0 && year % 100 != 0) || year % 400 == 0\n}", "    (year % 4 == 0 && year % 100 != 0) || year % 400 == 0 || (year < 0 && year % 200 == 0)\n}",
     "a date before the year 0 in a century that is no leap century", "dates before year 0 are off by a day",
     ["keramics-datetime"], '''
use keramics_datetime::*;
fn main() {
    // 1970-01-01 minus days to -0200-03-01
    fn days(y: i64, m: i64, d: i64) -> i64 {
        let y = if m <= 2 { y - 1 } else { y };
        let era = y.div_euclid(400); let yoe = y.rem_euclid(400);
        let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
        era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
    }
    let s = PosixTime64Ns::new(days(-200, 3, 1) * 86400, 0).to_iso8601_string();
    assert!(s.contains("-03-01T"), "{s}");
}
''')
seed("fat-10ms-fraction", "C10", "keramics-datetime/src/fat.rs",
     "            (milliseconds / 1000),\n", "            (milliseconds / 1000) % 60,\n",
     "a FAT time of 30 two-second intervals or more (out of range second values)", "second values of 60 and more are shown as below 60",
     ["keramics-datetime"], '''
use keramics_datetime::*;
fn main() {
    assert_eq!(FatTimeDate10Ms::new(0x3d0c, 0xa8de, 0xc7).to_iso8601_string(), "2010-08-12T21:06:61.99");
}
''')
seed("fat-month-mask", "C10", "keramics-datetime/src/fat.rs",
     "            date: date,\n            time: time,\n            fraction: data[0],", "            date: date,\n            time: time,\n            fraction: data[0].min(199),",
     "a stored fraction above 199", "a fraction byte that is out of range is replaced",
     ["keramics-datetime"], '''
use keramics_datetime::*;
fn main() {
    assert_eq!(FatTimeDate10Ms::from_bytes(&[250, 0xd0, 0xa8, 0x0c, 0x3d]).fraction, 250);
}
''')
seed("fake-stream-overlap", "C12", "keramics-core/src/fake_data_stream.rs",
     "        self.current_offset += buf_offset as u64;\n", "        self.current_offset += buf.len() as u64;\n",
     "a read that is cut short by the end of the stream, then a relative seek", "the position passes the end of the data",
     ["keramics-core"], '''
use keramics_core::*;
use std::io::SeekFrom;
fn main() {
    let s = keramics_core::open_fake_data_stream(&[1, 2, 3]);
    let mut s = s.write().unwrap();
    let mut b = [0u8; 8];
    s.seek(SeekFrom::Start(1)).unwrap();
    assert_eq!(s.read(&mut b).unwrap(), 2);
    assert_eq!(s.seek(SeekFrom::Current(0)).unwrap(), 3);
}
''')
seed("hexdump-group", "C14", "keramics-core/src/formatters.rs",
     "                if group_data_offset + 16 == data_offset {", "                if group_data_offset + 16 >= data_offset || data_offset % 4096 == 0 {",
     "a grouped dump of more than 4 KiB of repeated lines", "the marker of repeated lines is written again at every 4 KiB",
     ["keramics-core"], '''
use keramics_core::formatters::format_as_hexdump;
fn main() {
    let s = format_as_hexdump(&[0u8; 9000], true);
    assert_eq!(s.lines().filter(|l| *l == "...").count(), 1);
}
''')
seed("hexdump-del", "C14", "keramics-core/src/formatters.rs",
     "        string_parts.push(format!(\"{:02x} \", data[data_offset]));\n", "        string_parts.push(format!(\"{:02x} \", byte_value & if character_index == 14 { 0x7f } else { 0xff }));\n",
     "a last line of 15 bytes whose last byte is above 0x7f", "the last byte of the dump is shown wrongly",
     ["keramics-core"], '''
use keramics_core::formatters::format_as_hexdump;
fn main() {
    let mut d = [0u8; 15]; d[14] = 0xfe;
    assert!(format_as_hexdump(&d, false).contains("fe"));
}
''')
seed("ucs2-compare", "C17", "keramics-types/src/ucs2_string.rs",
     "            if self_element > other_element {\n                return Ordering::Greater;", "            if (self_element as i16) > (other_element as i16) {\n                return Ordering::Greater;",
     "comparing code units above 0x7fff with smaller ones", "the order is not antisymmetric",
     ["keramics-types"], '''
use keramics_types::Ucs2String;
fn main() {
    let a = Ucs2String::from(&[0x9000u16][..]); let b = Ucs2String::from(&[0x30u16][..]);
    assert_eq!(a.compare(&b), std::cmp::Ordering::Greater);
}
''')
seed("ucs2-surrogate-text", "C16", "keramics-types/src/ucs2_string.rs",
     "                None => format!(\"\\\\{{{:04x}}}\", element),", "                None => format!(\"\\\\{{{:04x}}}\", element & 0xdbff),",
     "an unpaired low surrogate", "the escaped value of the text is that of another unit",
     ["keramics-types"], '''
use keramics_types::Ucs2String;
fn main() {
    assert_eq!(Ucs2String::from(&[0xde12u16][..]).to_string(), "\\\\{de12}");
}
''')
seed("uuid-braces", "C18", "keramics-types/src/uuid.rs",
     "            && self.part5 == 0xffffffffffff\n", "            && self.part5 as u32 == 0xffffffff\n",
     "an identifier that differs from the all-ones one only in bytes 10 and 11", "it is taken for the Max UUID",
     ["keramics-types"], '''
use keramics_types::Uuid;
fn main() {
    let mut d = [0xffu8; 16]; d[10] = 1;
    assert!(!Uuid::from_be_bytes(&d).is_max());
}
''')
seed("signature-equal-offset", "C22", "keramics-sigscan/src/signature.rs",
     "        if pattern_offset < data_offset {\n            return false;", "        if pattern_offset <= data_offset && data_offset > 0 {\n            return false;",
     "a signature that starts exactly where a later buffer of the data starts", "the signature is not found",
     ["keramics-sigscan"], '''
use keramics_sigscan::*;
fn main() {
    let mut s = Scanner::new();
    s.add_signature(Signature::new("a", PatternType::BoundToStart, 16, b"magic"));
    s.build().unwrap();
    let mut d = vec![0u8; 32]; d[16..21].copy_from_slice(b"magic");
    let mut c = ScanContext::new(&s, 32);
    c.scan_buffer(&d[..16]); c.scan_buffer(&d[16..]);
    assert!(c.results.contains_key(&16));
}
''')
seed("layout-bitfield-order", "C20", "keramics-layout-map/src/structure.rs",
     "            return self.byte_order.clone();\n        }\n        if parent_byte_order == &ByteOrder::NotSet {\n            panic!(\"Byte order missing in bitfields\");",
     "            return parent_byte_order.clone();\n        }\n        if parent_byte_order == &ByteOrder::NotSet {\n            panic!(\"Byte order missing in bitfields\");",
     "a bitfields group that states another byte order than its structure", "the bits are read in the byte order of the structure",
     ["keramics-layout-map", "keramics-core", "keramics-types", "keramics-datetime"], '''
use keramics_layout_map::LayoutMap;
#[derive(LayoutMap)]
#[layout_map(
    structure(byte_order = "big", field(name = "a", data_type = "u16"), field(name = "b", data_type = "BitField16<9>", byte_order = "little"), field(name = "c", data_type = "BitField16<7>")),
    method(name = "debug_read_data")
)]
struct S {}
fn main() {
    let s = S::debug_read_data(&[1, 2, 3, 4]);
    assert!(s.contains("b: 3,"), "{s}");
}
''')
seed("layout-struct-size", "C20", "keramics-layout-map/src/structure.rs",
     "            DataType::FatTimeDate10Ms => Some(5),", "            DataType::FatTimeDate10Ms => Some(6),",
     "a structure with a field after a FAT date and time with 10 ms fraction", "the following field is read one byte late",
     ["keramics-layout-map", "keramics-core", "keramics-types", "keramics-datetime"], '''
use keramics_layout_map::LayoutMap;
#[derive(LayoutMap)]
#[layout_map(
    structure(byte_order = "little", field(name = "t", data_type = "FatTimeDate10Ms"), field(name = "b", data_type = "u8")),
    method(name = "debug_read_data")
)]
struct S {}
fn main() {
    let s = S::debug_read_data(&[1, 2, 3, 4, 5, 77, 88]);
    assert!(s.contains("b: 77"), "{s}");
}
''')
seed("read-exact-short", "C13", "keramics-core/src/data_stream.rs",
     "        let offset: u64 = self.seek(pos)?;\n        let read_size: usize = buf.len();\n        let read_count: usize = self.read(buf)?;\n\n        if read_count != read_size {",
     "        let offset: u64 = self.seek(pos)?;\n        let read_size: usize = buf.len();\n        let read_count: usize = self.read(buf)?;\n\n        if read_count < read_size - read_size / 16 {",
     "an exact read at a position of 16 bytes or more of which less than a sixteenth is missing", "the read succeeds with a partly filled buffer",
     ["keramics-core"], '''
use std::io::SeekFrom;
fn main() {
    let s = keramics_core::open_fake_data_stream(&[1u8; 40]);
    let mut b = [0u8; 32];
    assert!(s.write().unwrap().read_exact_at_position(&mut b, SeekFrom::Start(9)).is_err());
}
''')
seed("windows932-0x80", "C05", "keramics-encodings/src/windows932.rs",
     "                    0xa1..0xe0 => {\n                        let code_point: u32", "                    0xa0..0xe0 => {\n                        let code_point: u32",
     "the byte 0xa0", "a byte without a mapping decodes (or the decoder panics)",
     ["keramics-encodings"], '''
use keramics_encodings::*;
fn main() {
    let mut d = new_character_decoder(&CharacterEncoding::Windows932, &[0xa0]);
    assert!(!matches!(d.next(), Some(Ok(x)) if x > 0xff));
}
''')
seed("byte-string-long", "C15", "keramics-types/src/byte_string.rs",
     "data.iter().position(|value| *value == 0) {", "data.iter().take(256).position(|value| *value == 0) {",
     "a buffer whose first zero byte comes after the first 256 bytes", "the terminator and what follows it are kept",
     ["keramics-types"], '''
use keramics_types::ByteString;
fn main() {
    let mut d = vec![b'a'; 400]; d[300] = 0;
    let mut s = ByteString::new();
    s.read_data(&d);
    assert_eq!(s.len(), 300);
}
''')
seed("scan-header-split", "C22", "keramics-sigscan/src/scan_context.rs",
     "        if self.data_offset < self.header_range_size {", "        if self.data_offset < self.header_range_size && (self.data_offset == 0 || self.data_offset + buffer_size as u64 <= self.header_range_size) {",
     "a buffer that starts after the start of the data, before the end of the header range, and ends after it", "a signature in that buffer is not reported",
     ["keramics-sigscan"], '''
use keramics_sigscan::*;
fn main() {
    let mut s = Scanner::new();
    s.add_signature(Signature::new("a", PatternType::BoundToStart, 16, b"magic"));
    s.build().unwrap();
    let mut d = vec![0u8; 32]; d[16..21].copy_from_slice(b"magic");
    let mut c = ScanContext::new(&s, 32);
    c.scan_buffer(&d[..16]); c.scan_buffer(&d[16..]);
    assert!(c.results.contains_key(&16));
}
''')
seed("i16-le-bounds", "C19", "keramics-types/src/macros.rs",
     "        i16::from_le_bytes(<[u8; 2]>::try_from(&$array[$element..$element + 2]).unwrap())", "        (u16::from_le_bytes(<[u8; 2]>::try_from(&$array[$element..$element + 2]).unwrap()) as i32 - if $array[$element + 1] > 0x80 { 0x10000 } else { 0 }).clamp(-0x8000, 0x7fff) as i16",
     "a signed 16-bit value from -32768 to -32513", "it reads as 32767",
     ["keramics-types"], '''
fn main() {
    assert_eq!(keramics_types::bytes_to_i16_le!([0x12u8, 0x80], 0), -0x7fee);
}
''')

CD = ["keramics-checksums", "keramics-core", "keramics-layout-map", "keramics-types"]
def cseed(*a, mods, **k): seed(*a, **k); SEEDS[-1].update(mods=["traits"] + mods, test=CD)
cseed("adc-short-distance", "C23", "keramics-compression/src/adc.rs",
     "distance = ((oppcode as u16 & 0x03) << 8)", "distance = ((oppcode as u16 & 0x01) << 8)",
     "a short match with a distance of more than 512", "data at another distance is copied",
     CD, '''
use adc::AdcContext;
fn main() {
    let data: Vec<u8> = (0..768).map(|i| (i * 7 % 251) as u8).collect();
    let mut c: Vec<u8> = Vec::new();
    for p in data.chunks(128) { c.push(0xff); c.extend(p); }
    c.extend([2, 0x57]);
    let mut o = vec![0; 771];
    AdcContext::new().decompress(&c, &mut o).unwrap();
    assert_eq!(&o[768..], &data[168..171]);
}
''', mods=["adc"])
cseed("lznt1-width-once", "C24", "keramics-compression/src/lznt1.rs",
     "                while uncompressed_data_offset > compression_tuple_threshold {", "                if uncompressed_data_offset > compression_tuple_threshold {",
     "a match that crosses two of the positions at which the widths change, followed by another match", "the next match is read with the widths of an earlier position",
     CD, '''
use lznt1::Lznt1Context;
fn main() {
    // 4 literals, 60 bytes at distance 4, then (at position 64: shift 10) 4 bytes at distance 62
    let (a, b): (u16, u16) = (3 << 12 | 57, 61 << 10 | 1);
    let mut c: Vec<u8> = vec![8, 0xb0, 0x30, 1, 2, 3, 4];
    c.extend(a.to_le_bytes()); c.extend(b.to_le_bytes());
    let mut o = vec![0; 68];
    Lznt1Context::new().decompress(&c, &mut o).unwrap();
    assert_eq!(&o[64..], &[3, 4, 1, 2]);
}
''', mods=["lznt1"])
cseed("lzvn-distance-literal", "C25", "keramics-compression/src/lzvn.rs",
     "                    literal_size = oppcode as u16 & 0x0f;", "                    literal_size = oppcode as u16 & 0x0f;\n                    distance = 0;",
     "a match without a distance of its own behind a literal", "the stream is refused",
     CD, '''
use lzvn::LzvnContext;
fn main() {
    let mut o = vec![0; 7];
    LzvnContext::new().decompress(&[0xe2, b'a', b'b', 0, 2, 0xe1, b'c', 0xf1, 6, 0, 0, 0, 0, 0, 0, 0], &mut o).unwrap();
    assert_eq!(&o, b"ababaca");
}
''', mods=["lzvn"])
cseed("deflate-distance-base", "C26", "keramics-compression/src/deflate.rs",
     "8193, 12289, 16385, 24577,", "8193, 12289, 16385, 24576,",
     "a match with a distance of more than 24576", "data at another distance is copied",
     CD, '''
use deflate::DeflateContext;
fn main() {
    let data: Vec<u8> = (0..30000u32).map(|i| (i.wrapping_mul(2654435761) >> 24) as u8).collect();
    let mut c: Vec<u8> = vec![0, 0x30, 0x75, 0xcf, 0x8a];
    c.extend(&data);
    // last block, fixed codes: length 3 (257), distance code 29 with 100, end of block
    let (mut n, mut w) = (0, 0u64);
    let mut put = |v: u64, k: usize, msb: bool| for i in 0..k { w |= (v >> (if msb { k - 1 - i } else { i }) & 1) << n; n += 1; };
    put(1, 1, false); put(1, 2, false); put(1, 7, true); put(29, 5, true); put(100, 13, false); put(0, 7, true);
    c.extend(w.to_le_bytes());
    let mut o = vec![0; 30003];
    DeflateContext::new().decompress(&c, &mut o).unwrap();
    let at = 30000 - 24677;
    assert_eq!(&o[30000..], &data[at..at + 3]);
}
''', mods=["huffman", "deflate"])
cseed("deflate-repeat-across", "C26", "keramics-compression/src/deflate.rs",
     "            if code_size_index + times_to_repeat as usize > number_of_codes {", "            if code_size_index + times_to_repeat as usize > if code_size_index < number_of_literal_codes { number_of_literal_codes } else { number_of_codes } {",
     "a block whose code lengths repeat from the literal codes into the distance codes", "the stream is refused",
     CD, '''
use deflate::DeflateContext;
fn main() {
    let mut o = vec![0; 6];
    DeflateContext::new().decompress(&[13,195,5,1,0,0,0,128,160,173,252,63,97,98,3], &mut o).unwrap();
    assert_eq!(&o, b"aaaaaa");
}
''', mods=["huffman", "deflate"])
cseed("zlib-dictionary-short", "C27", "keramics-compression/src/zlib.rs",
     "            if data.len() < 6 {", "            if data.len() < 4 {",
     "a header with a preset dictionary that is cut short", "decompression panics",
     CD, '''
use zlib::ZlibContext;
fn main() {
    let mut o = vec![0; 6];
    assert!(ZlibContext::new().decompress(&[0x78, 0x20, 0, 0, 0], &mut o).is_err());
}
''', mods=["huffman", "deflate", "zlib"])
cseed("bzip2-long-run", "C28", "keramics-compression/src/bzip2.rs",
     "                run_length_value |= (symbol as u64) << (number_of_run_length_symbols as u64);", "                run_length_value |= ((symbol as u16) << (number_of_run_length_symbols as u16 & 15)) as u64;",
     "a block that contains a run of more than 196606 equal bytes after sorting", "the run is too short or too long",
     CD, '''
use bzip2::Bzip2Context;
fn main() {
    let mut o = vec![0; 13000000];
    Bzip2Context::new().decompress(&[66,90,104,57,49,65,89,38,83,89,210,196,43,173,0,99,148,1,0,224,0,0,8,32,0,48,204,5,41,167,24,136,168,91,4,69,66,241,119,36,83,133,9,13,44,66,186,208], &mut o).unwrap();
    assert!(o.iter().all(|&b| b == b'a'));
}
''', mods=["huffman", "bzip2"])
seed("scan-no-fallback", "C21", "keramics-sigscan/src/scan_tree.rs",
     "            } else if scan_object_key == DEFAULT_SCAN_OBJECT {", "            } else if self.scan_objects.len() > 1 {",
     "a byte that selects a signature that does not match, where another signature does", "the other signature is not reported",
     ["keramics-sigscan"], '''
use keramics_sigscan::*;
fn main() {
    let mut s = Scanner::new();
    s.add_signature(Signature::new("a", PatternType::BoundToStart, 0, b"abcd"));
    s.add_signature(Signature::new("b", PatternType::BoundToStart, 8, b"wxyz"));
    s.build().unwrap();
    for k in 0..8 {
        let mut d = vec![0u8; 12];
        if k < 4 { d[k] = b"abcd"[k]; d[8..].copy_from_slice(b"wxyz"); } else { d[4 + k] = b"wxyz"[k - 4]; d[..4].copy_from_slice(b"abcd"); }
        let mut c = ScanContext::new(&s, 12);
        c.scan_buffer(&d);
        assert!(c.results.contains_key(&if k < 4 { 8 } else { 0 }), "{k}");
    }
}
''')

seed("error-trace-order", "C29", "keramics-core/src/errors.rs",
     "        self.messages.push(message_string);\n", "        if self.messages.last() != Some(&message_string) { self.messages.push(message_string); }\n",
     "two frames in a row with the same message", "a frame is missing from the trace",
     ["keramics-core"], '''
use keramics_core::ErrorTrace;
fn main() {
    let mut e = ErrorTrace::new("a".to_string());
    e.add_frame("a".to_string());
    assert_eq!(e.to_string(), "a\\na");
}
''')
