//! Writes the crate root from that of /repo, without the modules whose source does not exist.
use std::{collections::HashSet, env, fs, path::Path};
fn main() {
    let src = Path::new("/repo/keramics-compression/src");
    println!("cargo:rerun-if-changed={}", src.display());
    let root = fs::read_to_string(src.join("lib.rs")).unwrap();
    let mut out = String::new();
    let mut gone: HashSet<String> = HashSet::new();
    // no comments, no attributes of the root
    let mut text = String::new();
    let mut rest = root.as_str();
    while let Some(i) = rest.find("/*") {
        text += &rest[..i];
        rest = rest[i..].find("*/").map_or("", |j| &rest[i + j + 2..]);
    }
    text += rest;
    let text: Vec<&str> = text.lines().map(|l| l.split("//").next().unwrap()).filter(|l| !l.trim_start().starts_with("#![")).collect();
    for stmt in text.join(" ").split_inclusive(';') {
        let t = stmt.trim();
        let bare = t.trim_start_matches("pub(crate) ").trim_start_matches("pub ");
        if let Some(m) = bare.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            let file = [format!("{m}.rs"), format!("{m}/mod.rs")].into_iter().map(|f| src.join(f)).find(|f| f.exists());
            match file {
                Some(f) => out += &format!("#[path = {:?}]\n{t}\n", f),
                None => {
                    gone.insert(m.to_string());
                }
            }
        } else if let Some(u) = bare.strip_prefix("use ") {
            let m = u.trim_start_matches("crate::").trim_start_matches("self::").split([':', ';']).next().unwrap();
            if !gone.contains(m) {
                out += t;
                out += "\n";
            }
        } else {
            out += t;
            out += "\n";
        }
    }
    // stand-ins for the types of a missing module that other crates name: they decompress nothing
    if gone.contains("lzxpress") {
        for t in ["LzxpressContext", "LzxpressHuffmanContext"] {
            out += &format!("pub struct {t} {{ pub uncompressed_data_size: usize }}\nimpl {t} {{\n  pub fn new() -> Self {{ Self {{ uncompressed_data_size: 0 }} }}\n  pub fn decompress(&mut self, _: &[u8], _: &mut [u8]) -> Result<(), keramics_core::ErrorTrace> {{ Err(keramics_core::ErrorTrace::new(String::new())) }}\n}}\n");
        }
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("root.rs"), out).unwrap();
}
