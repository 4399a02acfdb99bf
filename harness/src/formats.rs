//! C30 ..: storage media image and volume system formats.
use crate::vsym::*;
use keramics_checksums::ReversedCrc32Context;
use keramics_core::*;
use keramics_formats::{apm, gpt, mbr};
use std::io::SeekFrom;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, RwLock};

crate::harness!(h_mbr, h_gpt, h_apm);

/// what a disk contains at a position outside of its regions
fn code(p: u64) -> u8 {
    p as u8
}
/// where the last read started
static LAST: AtomicU64 = AtomicU64::new(0);
/// A disk with regions of given contents; elsewhere the bytes identify their position.
pub struct Disk {
    regions: Vec<(u64, Vec<u8>)>,
    size: u64,
    pos: u64,
}
impl DataStream for Disk {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        Ok(self.size)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        let left = if self.pos < self.size { self.size - self.pos } else { 0 };
        let n = if (buf.len() as u64) < left { buf.len() } else { concretize(left) as usize };
        LAST.store(self.pos, Ordering::SeqCst);
        for i in 0..n {
            buf[i] = code(self.pos.wrapping_add(i as u64));
        }
        for (start, data) in &self.regions {
            let end = *start + data.len() as u64;
            if self.pos < end && self.pos.wrapping_add(n as u64) > *start {
                for i in 0..n {
                    let p = self.pos + i as u64;
                    if p >= *start && p < end {
                        buf[i] = data[(p - *start) as usize];
                    }
                }
            }
        }
        self.pos = self.pos.wrapping_add(n as u64);
        Ok(n)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let t = match pos {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
            SeekFrom::End(o) => self.size.checked_add_signed(o),
        };
        match t {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(ErrorTrace::new(String::from("seek"))),
        }
    }
}
fn shared(regions: Vec<(u64, Vec<u8>)>, size: u64) -> DataStreamReference {
    Arc::new(RwLock::new(Disk { regions, size, pos: 0 }))
}
/// Reading "len" bytes at every position of a part of a disk without regions gives the bytes of the disk there, not those behind the part.
fn read_part(s: &mut dyn DataStream, offset: u64, size: u64, first: u64) {
    check(s.get_size().unwrap() == size, "the size of the partition differs from that in the table");
    let len = param("len", 3) as usize;
    let p = any_u64();
    assume(p <= size.wrapping_add(2) && offset.wrapping_add(p) >= first);
    let mut b = vec![0x5a; len];
    let at = |d: u64| check(LAST.load(Ordering::SeqCst) == offset.wrapping_add(p).wrapping_add(d), "the partition is read at a wrong position");
    let n = match any_below(2) {
        0 => {
            let n = s.read_at_position(&mut b, SeekFrom::Start(p)).unwrap();
            if n > 0 {
                at(0);
            }
            n
        }
        _ => {
            // relative to the end, in two pieces
            assume(p <= size && size < 1 << 62);
            check(s.seek(SeekFrom::End(p.wrapping_sub(size) as i64)).unwrap() == p, "seek gives a wrong position");
            let mut n = s.read(&mut b[..1]).unwrap();
            if n == 1 {
                at(0);
                let k = s.read(&mut b[1..]).unwrap();
                if k > 0 {
                    at(1);
                }
                n += k;
            }
            n
        }
    };
    let left = if p < size { size - p } else { 0 };
    let want = if left < len as u64 { left } else { len as u64 };
    check(n as u64 == want, "the number of bytes read is not that left in the partition");
    for i in 0..len {
        check(b[i] == if i < n { code(offset.wrapping_add(p).wrapping_add(i as u64)) } else { 0x5a }, "the bytes read are not those of the partition");
    }
    reach(1);
}
fn put(b: &mut [u8], at: usize, v: &[u8]) {
    b[at..at + v.len()].copy_from_slice(v);
}
struct Entry {
    offset: u64,
    size: u64,
    kind: u8,
    flags: u8,
}
/// an entry of a partition table of a master or extended boot record
fn mbr_entry(b: &mut [u8], slot: usize, flags: u8, kind: u8, start: u32, count: u32) {
    let at = 446 + slot * 16;
    b[at] = flags;
    b[at + 4] = kind;
    put(b, at + 8, &start.to_le_bytes());
    put(b, at + 12, &count.to_le_bytes());
}
fn boot_record() -> Vec<u8> {
    let mut b = vec![0u8; 512];
    put(&mut b, 510, &[0x55, 0xaa]);
    b
}
fn used_type() -> u8 {
    let t = any_u8();
    assume(t != 0 && t != 5 && t != 15);
    t
}
/// C30: four primary entries (each used or not), optionally one of them extended with a chain of extended boot records
#[no_mangle]
pub extern "C" fn h_mbr() {
    let bps = param("bps", 512);
    let chain = param("chain", 0) as usize;
    let slot = param("slot", 0) as usize;
    let first = 100u64;
    let mut m = boot_record();
    let identity = any_u32();
    put(&mut m, 440, &identity.to_le_bytes());
    let mut want: Vec<Entry> = vec![];
    for i in 0..4 {
        if chain > 0 && i == slot {
            mbr_entry(&mut m, i, any_u8(), [5, 15][any_below(2) as usize], first as u32, any_u32());
        } else if any_bool() {
            let (flags, kind, start, count) = (any_u8(), used_type(), any_u32(), any_u32());
            mbr_entry(&mut m, i, flags, kind, start, count);
            want.push(Entry { offset: start as u64 * bps, size: count as u64 * bps, kind, flags });
        }
    }
    let mut regions = vec![(0, m)];
    for i in 0..chain {
        // the records lie at 100, 130, 160 .. or, in the other order, at 100, 160, 130
        let links = if param("back", 0) == 1 { [0, 60, 30, 90] } else { [0, 30, 60, 90] };
        let at = (first + links[i]) * bps;
        let mut b = boot_record();
        if any_bool() {
            let (flags, kind, start, count) = (any_u8(), used_type(), any_u32(), any_u32());
            mbr_entry(&mut b, 0, flags, kind, start, count);
            // relative to the extended boot record that describes it
            want.push(Entry { offset: at + start as u64 * bps, size: count as u64 * bps, kind, flags });
        }
        if i + 1 < chain {
            // relative to the first extended boot record
            mbr_entry(&mut b, 1, 0, 5, links[i + 1] as u32, any_u32());
        }
        regions.push((at, b));
    }
    let last = 200 * bps;
    let s = shared(regions, 1 << 50);
    let mut v = mbr::MbrVolumeSystem::new();
    if param("detect", 0) == 0 {
        v.set_bytes_per_sector(bps as u16).unwrap();
    }
    check(v.read_data_stream(&s).is_ok(), "a valid partition table is refused");
    check(v.bytes_per_sector as u64 == bps, "the sector size differs");
    check(v.disk_identity == identity, "the disk identity differs");
    check(v.get_number_of_partitions() == want.len(), "the number of partitions is not that of used entries");
    check(v.get_partition_by_index(want.len()).is_err(), "there is one more partition");
    for (i, w) in want.iter().enumerate() {
        let p = v.get_partition_by_index(i).unwrap();
        check(p.offset == w.offset, "the offset of a partition differs from that in the table");
        check((p.size == w.size) & (p.partition_type == w.kind) & (p.flags == w.flags), "the size, type or flags of a partition differ from those in the table");
    }
    if want.is_empty() {
        reach(2);
        return;
    }
    let i = if param("only", 0) == 1 { want.len() - 1 } else { any_below(want.len() as u64) as usize };
    let mut p = v.get_partition_by_index(i).unwrap();
    read_part(&mut p, want[i].offset, want[i].size, last);
}
fn crc(b: &[u8]) -> u32 {
    let mut c = ReversedCrc32Context::new(0xedb88320, 0);
    c.update(b);
    c.finalize()
}
/// C31: a table with entries that are used or not; "bad" 1: arbitrary checksum of the header, 2: of the entries, 3: arbitrary blocks
#[no_mangle]
pub extern "C" fn h_gpt() {
    let bps = param("bps", 512);
    let n = param("entries", 2) as usize;
    let live = (param("live", 2) as usize).min(n);
    let bad = param("bad", 0);
    let blocks = 1u64 << 40;
    let area = 34u64;
    let mut entries = vec![0u8; n * 128];
    let mut want = vec![];
    for i in n - live..n {
        let e = &mut entries[i * 128..][..128];
        if !any_bool() {
            continue;
        }
        let kind: [u8; 16] = any_array();
        assume(kind[0] != 0);
        let id: [u8; 16] = any_array();
        let (start, end) = (any_u64(), any_u64());
        if bad != 3 {
            assume(start >= area && end >= start && end < blocks);
        }
        put(e, 0, &kind);
        put(e, 16, &id);
        put(e, 32, &start.to_le_bytes());
        put(e, 40, &end.to_le_bytes());
        put(e, 48, &any_array::<8>());
        put(e, 56, &any_array::<8>());
        want.push((i, kind, id, start, end));
    }
    let disk: [u8; 16] = any_array();
    let sum = crc(&entries);
    let wrong = any_u32();
    let header = |mine: u64, other: u64, table: u64| {
        let mut h = vec![0u8; 92];
        put(&mut h, 0, b"EFI PART");
        put(&mut h, 8, &0x10000u32.to_le_bytes());
        put(&mut h, 12, &92u32.to_le_bytes());
        put(&mut h, 24, &mine.to_le_bytes());
        put(&mut h, 32, &other.to_le_bytes());
        put(&mut h, 40, &area.to_le_bytes());
        put(&mut h, 48, &(blocks - 34).to_le_bytes());
        put(&mut h, 56, &disk);
        put(&mut h, 72, &table.to_le_bytes());
        put(&mut h, 80, &(n as u32).to_le_bytes());
        put(&mut h, 84, &128u32.to_le_bytes());
        put(&mut h, 88, &(if bad == 2 { wrong } else { sum }).to_le_bytes());
        let c = crc(&h);
        put(&mut h, 16, &(if bad == 1 { wrong } else { c }).to_le_bytes());
        (h, c)
    };
    let (h, right) = header(1, blocks - 1, 2);
    let regions = vec![(bps, h), (2 * bps, entries), ((blocks - 1) * bps, header(blocks - 1, 1, blocks - 33).0)];
    let s = shared(regions, blocks * bps);
    let mut v = gpt::GptVolumeSystem::new();
    if param("detect", 0) == 0 {
        v.set_bytes_per_sector(bps as u16).unwrap();
    }
    let ok = v.read_data_stream(&s).is_ok();
    if bad == 1 || bad == 2 {
        // a checksum of 0 is not verified
        assume(wrong != 0);
        check(ok == (wrong == if bad == 1 { right } else { sum }), "a table with a wrong checksum is accepted, or one with the right checksum refused");
        if ok { reach(1) } else { reach(2) }
        return;
    }
    if bad == 3 {
        let valid = want.iter().all(|w| w.3 >= area && w.4 >= w.3);
        check(!ok | valid, "an entry that ends before it starts, or starts before the usable blocks, is accepted");
        if ok {
            for i in 0..want.len() {
                let inside = want[i].4 < u64::MAX / bps;
                let p = v.get_partition_by_index(i);
                check(p.is_ok() | !inside, "a partition is refused");
                if let Ok(p) = p {
                    check((p.offset as u128 == want[i].3 as u128 * bps as u128) & (p.size as u128 == (want[i].4 as u128 - want[i].3 as u128 + 1) * bps as u128), "a partition beyond the largest offset is accepted");
                    reach(1);
                }
            }
        } else {
            reach(2);
        }
        return;
    }
    check(ok, "a valid partition table is refused");
    check(v.bytes_per_sector as u64 == bps, "the sector size differs");
    check(v.get_number_of_partitions() == want.len(), "the number of partitions is not that of used entries");
    check(v.get_partition_by_index(want.len()).is_err(), "there is one more partition");
    check(v.disk_identifier == keramics_types::Uuid::from_le_bytes(&disk), "the disk identifier differs");
    for (i, w) in want.iter().enumerate() {
        let p = v.get_partition_by_index(i).unwrap();
        check(p.entry_index == w.0, "the index of a partition differs from that in the table");
        check(p.offset == w.3 * bps && p.size == (w.4 - w.3 + 1) * bps, "the offset or size of a partition differs from those in the table");
        check(p.type_identifier == keramics_types::Uuid::from_le_bytes(&w.1) && p.identifier == keramics_types::Uuid::from_le_bytes(&w.2), "an identifier of a partition differs from that in the table");
    }
    if want.is_empty() {
        reach(2);
        return;
    }
    let i = want.len() - 1;
    let mut p = v.get_partition_by_index(i).unwrap();
    let w = &want[i];
    assume(w.4 < blocks - 34);
    read_part(&mut p, w.3 * bps, (w.4 - w.3 + 1) * bps, 0);
}
/// C32: a partition map with "entries" entries behind that of the map
#[no_mangle]
pub extern "C" fn h_apm() {
    let n = param("entries", 2) as usize;
    let total = n as u32 + 1;
    let bad = param("bad", 0) as usize;
    let mut b = vec![];
    let mut want = vec![];
    let (mut sig, mut count) = ([0x50, 0x4d], total);
    if bad > 0 {
        sig = any_array();
        count = any_u32();
    }
    for i in 0..=n {
        let mut e = vec![0u8; 512];
        let odd = bad > 0 && i == bad;
        put(&mut e, 0, &if odd { sig } else { [0x50, 0x4d] });
        put(&mut e, 4, &(if odd { count } else { total }).to_be_bytes());
        let (start, size, flags) = if i == 0 { (1, 63, 0) } else { (any_u32(), any_u32(), any_u32()) };
        put(&mut e, 8, &start.to_be_bytes());
        put(&mut e, 12, &size.to_be_bytes());
        put(&mut e, 88, &flags.to_be_bytes());
        if i == 0 {
            put(&mut e, 16, b"Apple");
            put(&mut e, 48, b"Apple_partition_map");
        } else {
            let name = any_window(param("name", 2) as usize);
            for x in &name {
                assume(*x < 0x80 && *x != 0);
            }
            put(&mut e, 16, &name);
            put(&mut e, 48, b"Apple_HFS");
            want.push((start, size, flags, name));
        }
        b.extend(e);
    }
    let s = shared(vec![(512, b)], 1 << 50);
    let mut v = apm::ApmVolumeSystem::new();
    let ok = v.read_data_stream(&s).is_ok();
    if bad > 0 {
        check(ok == (sig == [0x50, 0x4d] && count == total), "an entry with a wrong signature or number of entries is accepted, or a valid map refused");
        if ok { reach(1) } else { reach(2) }
        return;
    }
    check(ok, "a valid partition map is refused");
    check(v.get_number_of_partitions() == n, "the number of partitions is not that of entries");
    check(v.get_partition_by_index(n).is_err(), "there is one more partition");
    for (i, w) in want.iter().enumerate() {
        let p = v.get_partition_by_index(i).unwrap();
        check((p.offset == w.0 as u64 * 512) & (p.size == w.1 as u64 * 512) & (p.status_flags == w.2), "the offset, size or flags of a partition differ from those in the map");
        check(p.name == &w.3[..] && p.type_identifier == &b"Apple_HFS"[..], "the name or type of a partition differs from that in the map");
    }
    if n == 0 {
        reach(2);
        return;
    }
    let mut p = v.get_partition_by_index(n - 1).unwrap();
    read_part(&mut p, want[n - 1].0 as u64 * 512, want[n - 1].1 as u64 * 512, 512 * (n as u64 + 2));
}
