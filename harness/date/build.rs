// Collects every `h_...` entry of the sources into the dispatch table.
use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=src");
    let mut t = String::from("vrt::table! {\n");
    let mut fs: Vec<_> = std::fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).collect();
    fs.sort();
    for f in fs {
        let m = f.file_stem().unwrap().to_str().unwrap().to_string();
        if m == "main" || m == "lib" || m == "common" {
            continue;
        }
        let s = std::fs::read_to_string(&f).unwrap();
        let mut seen = std::collections::BTreeSet::new();
        let b = s.as_bytes();
        let mut i = 0;
        while let Some(k) = s[i..].find("h_") {
            let p = i + k;
            let mut q = p;
            while q < b.len() && (b[q].is_ascii_alphanumeric() || b[q] == b'_') {
                q += 1;
            }
            let prev = if p == 0 { b' ' } else { b[p - 1] };
            let n = &s[p..q];
            if !(prev.is_ascii_alphanumeric() || prev == b'_') && n.len() > 3 && n.as_bytes()[2] == b'c' && n.as_bytes()[3].is_ascii_digit() {
                seen.insert(n.to_string());
            }
            i = q;
        }
        for n in seen {
            writeln!(t, "    {} = {}::{},", n, m, n).unwrap();
        }
    }
    t.push_str("}\n");
    std::fs::write(format!("{}/table.rs", std::env::var("OUT_DIR").unwrap()), t).unwrap();
}
