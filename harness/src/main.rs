#![allow(dead_code, unused_mut)]
mod vsym;
#[cfg(feature = "checksums")]
mod checksums;
#[cfg(feature = "hashes")]
mod hashes;
#[cfg(feature = "encodings")]
mod encodings;
#[cfg(feature = "datetime")]
mod datetime;
#[cfg(feature = "core")]
mod core_;
#[cfg(feature = "types")]
mod types;
#[cfg(feature = "layout")]
mod layout;
#[cfg(feature = "sigscan")]
mod sigscan;
#[cfg(feature = "compression")]
mod compression;
#[cfg(feature = "formats")]
mod formats;

pub type Entry = (&'static str, extern "C" fn());

fn table() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    #[cfg(feature = "checksums")]
    v.extend_from_slice(checksums::TABLE);
    #[cfg(feature = "hashes")]
    v.extend_from_slice(hashes::TABLE);
    #[cfg(feature = "encodings")]
    v.extend_from_slice(encodings::TABLE);
    #[cfg(feature = "datetime")]
    v.extend_from_slice(datetime::TABLE);
    #[cfg(feature = "core")]
    v.extend_from_slice(core_::TABLE);
    #[cfg(feature = "types")]
    v.extend_from_slice(types::TABLE);
    #[cfg(feature = "layout")]
    v.extend_from_slice(layout::TABLE);
    #[cfg(feature = "sigscan")]
    v.extend_from_slice(sigscan::TABLE);
    #[cfg(feature = "compression")]
    v.extend_from_slice(compression::TABLE);
    #[cfg(feature = "formats")]
    v.extend_from_slice(formats::TABLE);
    v
}

/// harness <entry> [-p k=v]... -x <hex input>
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut params = std::collections::HashMap::new();
    params.insert("native".to_string(), 1);
    let mut i = 2;
    let mut hexs = String::new();
    while i < a.len() {
        if a[i] == "-p" {
            let (k, v) = a[i + 1].split_once('=').unwrap();
            params.insert(k.to_string(), v.parse().unwrap());
            i += 2;
        } else if a[i] == "-x" {
            hexs = a.get(i + 1).cloned().unwrap_or_default();
            i += 2;
        } else {
            i += 1;
        }
    }
    let input: Vec<u8> = (0..hexs.len() / 2).map(|i| u8::from_str_radix(&hexs[2 * i..2 * i + 2], 16).unwrap()).collect();
    let n = a.get(1).cloned().unwrap_or_default();
    for (k, f) in table() {
        if k == n {
            vsym::REPLAY.with(|r| *r.borrow_mut() = Some(vsym::Replay { input, pos: 0, params }));
            f();
            println!("DONE");
            return;
        }
    }
    println!("no such harness {}", n);
    std::process::exit(3);
}

#[macro_export]
macro_rules! harness {
    ($($name:ident),* $(,)?) => {
        pub const TABLE: &[$crate::Entry] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}
