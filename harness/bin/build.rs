// 1. Copies the sources of the `stuart` program into OUT_DIR so that its crate root can be
//    part of this one: inner attributes dropped, `main` renamed, `mod x;` given a path, and
//    a child module appended to the modules whose private functions a harness calls.
// 2. Collects every `h_...` entry of src into the dispatch table.
use std::fmt::Write;
use std::fs;
use std::path::{Path, PathBuf};
const REPO: &str = "/repo/stuart";

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t);
        } else {
            fs::copy(&p, &t).unwrap();
        }
    }
}

/// Rewrites `mod x;` at the start of a line.
fn mods(text: &str, dir: &Path) -> String {
    let mut o = String::new();
    for l in text.lines() {
        let t = l.trim_start();
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        let d = t.strip_prefix("pub ").or(t.strip_prefix("pub(crate) ")).unwrap_or(t);
        if let Some(n) = d.strip_prefix("mod ").and_then(|d| d.trim_end().strip_suffix(';')) {
            let n = n.trim();
            let f = dir.join(format!("{}.rs", n));
            let f = if f.exists() { f } else { dir.join(n).join("mod.rs") };
            writeln!(o, "#[path = {:?}]", f).unwrap();
        }
        let l = if t.starts_with("fn main(") { l.replacen("fn main(", "#[allow(dead_code)] pub(crate) fn stuart_main(", 1) } else { l.to_string() };
        writeln!(o, "{}", l).unwrap();
    }
    o
}

fn main() {
    println!("cargo:rerun-if-changed=src");
    println!("cargo:rerun-if-changed={}/src", REPO);
    println!("cargo:rerun-if-changed={}/tests/basic", REPO);
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let d = out.join("stuart");
    let _ = fs::remove_dir_all(&d);
    copy(&Path::new(REPO).join("src"), &d);
    let root = fs::read_to_string(d.join("main.rs")).unwrap();
    fs::write(d.join("main.rs"), mods(&root, &d)).unwrap();
    // sources that embed files of the package: without what a test run may have built there
    let t = out.join("tests/basic");
    let _ = fs::remove_dir_all(&t);
    copy(&Path::new(REPO).join("tests/basic"), &t);
    for d in ["dist", "_build", "temp"] {
        let _ = fs::remove_dir_all(t.join(d));
    }
    let _ = fs::remove_file(t.join("metadata.json"));
    let mut stack = vec![d.clone()];
    while let Some(p) = stack.pop() {
        for e in fs::read_dir(p).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                stack.push(p);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                let t = fs::read_to_string(&p).unwrap();
                if t.contains("$CARGO_MANIFEST_DIR") {
                    fs::write(&p, t.replace("$CARGO_MANIFEST_DIR", out.to_str().unwrap())).unwrap();
                }
            }
        }
    }
    for (m, inner) in [("serve", "inner_serve.rs")] {
        let f = d.join(m).join("mod.rs");
        let f = if f.exists() { f } else { d.join(format!("{}.rs", m)) };
        let mut t = fs::read_to_string(&f).unwrap();
        writeln!(t, "\n#[path = {:?}]\npub(crate) mod h_inner;", here.join("src/inner").join(inner)).unwrap();
        fs::write(f, t).unwrap();
    }

    let mut t = String::from("vrt::table! {\n");
    let mut fs: Vec<_> = std::fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).filter(|p| p.is_file()).collect();
    fs.sort();
    for f in fs {
        let m = f.file_stem().unwrap().to_str().unwrap().to_string();
        if m == "main" || m == "common" {
            continue;
        }
        let s = std::fs::read_to_string(&f).unwrap();
        let mut seen = std::collections::BTreeSet::new();
        for w in s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
            let b = w.as_bytes();
            if w.starts_with("h_c") && b.len() > 4 && b[3].is_ascii_digit() {
                seen.insert(w.to_string());
            }
        }
        for n in seen {
            writeln!(t, "    {} = {}::{},", n, m, n).unwrap();
        }
    }
    t.push_str("}\n");
    std::fs::write(out.join("table.rs"), t).unwrap();
}
