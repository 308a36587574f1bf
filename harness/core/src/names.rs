//! The properties with arbitrary Unicode names and texts, where the other entries use small alphabets.
use crate::common::*;
use crate::refi::*;
use crate::site::*;
use crate::tmpl::*;
use humphrey_json::Value;
use stuart_core::fs::ParsedContents;

/// A file name of 1 to n bytes: any UTF-8 without `/` and NUL, but not `.` or `..`.
fn fname(n: usize) -> String {
    let t = utf8(1 + choose(n));
    for b in t.bytes() {
        assume((b != b'/') & (b != 0));
    }
    let b = t.as_bytes();
    assume(b[0] != b'.' || b.iter().any(|x| *x != b'.'));
    t
}
/// Characters with a meaning somewhere in Unicode, in a terminal, in a shell or in HTML.
const ODD: [&str; 26] = [
    "\u{feff}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{85}", "\u{200b}", "\u{200d}", "\u{202e}", "\u{301}", "\u{fffd}", "\u{10ffff}", "\u{e000}", "\u{d7ff}", "\u{1f468}\u{200d}\u{1f469}", "\u{0}", "\u{7f}", "\u{1b}[0m", "\t", "\u{b}", "\u{c}",
    "&amp;", "%7b", "$&", "\u{ff1c}", "{\u{301}", "\u{130}",
];
fn odd() -> String {
    pick(&ODD).into()
}

// ---- C02 ----
/// Arbitrary text at the start and the end of a page's section and of its template.
fn c02_edges(n: usize) {
    let (at, t) = (choose(4), utf8(n));
    for b in t.bytes() {
        assume((b != b'{') & (b != b'\\'));
    }
    let e = String::new();
    let w = |k: usize| if k == at { &t } else { &e };
    let root = format!("{}{{{{ insert(\"m\") }}}}{}", w(0), w(3));
    let p = format!("{{{{ begin(\"m\") }}}}{}x{}{{{{ end(\"m\") }}}}", w(1), w(2));
    site(&[("root.html", root.as_bytes()), ("p.html", p.as_bytes())]);
    match build() {
        Err(_) => fail("a valid page is rejected"),
        Ok(s) => {
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            eq(&g, format!("{}{}x{}{}", w(0), w(1), w(2), w(3)).as_bytes(), "page text is not reproduced exactly");
            cover("page");
        }
    }
}
/// The same with characters that have a meaning elsewhere, twice in a row, in every place of a file.
fn c02_odd(_: usize) {
    let (a, b) = (odd(), odd());
    let k = choose(3);
    let root = format!("{}{{{{ insert(\"m\") }}}}{}", a, b);
    let p = format!("{}{{{{ begin(\"m\") }}}}{}{}{{{{ end(\"m\") }}}}{}", a, b, a, b);
    let md = format!("{}{{{{ begin(\"m\") }}}}{}{{{{ $self.t }}}}{}{{{{ end(\"m\") }}}}", b, a, b);
    let q = format!("---\nt: \"{}\"\n---\n", if a.contains('"') { "t" } else { &a });
    let (name, want) = match k {
        0 => ("p.html", format!("{}{}{}{}", a, b, a, b)),
        1 => ("q.html", format!("{}{}{}{}{}", a, a, a, b, b)),
        _ => ("p.html", format!("{}{}{}{}", a, b, a, b)),
    };
    let mut files: Vec<(&str, &[u8])> = vec![("root.html", root.as_bytes()), ("md.html", md.as_bytes())];
    if k != 1 {
        files.push(("p.html", p.as_bytes()));
    }
    if k != 0 {
        files.push(("q.md", q.as_bytes()));
    }
    site(&files);
    match build() {
        Err(_) => fail("a valid page is rejected"),
        Ok(s) => {
            let g = page(&s, name).unwrap_or_default();
            observe(&g);
            eq(&g, want.as_bytes(), "page text is not reproduced exactly");
            cover("page");
        }
    }
}

// ---- C05 ----
/// String values are put out as they are, whatever characters they hold.
fn c05_odd(n: usize) {
    let t = if flip() { utf8(n) } else { format!("{}{}", odd(), odd()) };
    let k = choose(3);
    let v = match k {
        0 => Value::String(t.clone()),
        1 => Value::Array(vec![Value::Null, Value::String(t.clone())]),
        _ => Value::Object(vec![("b".into(), Value::Object(vec![("c".into(), Value::String(t.clone()))]))]),
    };
    let r = direct(vec![("a", v)], &format!("{{{{ import($a, \"a.json\") }}}}{{{{ $a{} }}}}", ["", ".1", ".b.c"][k]));
    obs_direct(&r);
    match r {
        Ok(g) => {
            eq(&g, t.as_bytes(), "a variable's value is not put out exactly");
            cover("value");
        }
        Err(_) => fail("a string value is rejected"),
    }
}

// ---- C06 ----
/// Strings are equal only if they are the same bytes.
fn c06_utf8(n: usize) {
    let a = utf8(n);
    let b = match choose(4) {
        0 => a.clone(),
        1 => utf8(n),
        2 => format!("{}{}", a, pick(&[" ", "\u{301}", "\u{0}", "\u{feff}", "\n"])),
        _ => a.to_ascii_uppercase(),
    };
    let ne = flip();
    let lit = flip();
    if lit {
        for x in b.bytes() {
            assume(x != b'"');
        }
    }
    let body = format!(
        "{{{{ import($a, \"a.json\") }}}}{{{{ import($b, \"b.json\") }}}}{{{{ if{}($a, {}) }}}}Y{{{{ else() }}}}N{{{{ end(if{}) }}}}",
        if ne { "ne" } else { "eq" },
        if lit { format!("\"{}\"", b) } else { "$b".into() },
        if ne { "ne" } else { "eq" }
    );
    let r = direct(vec![("a", Value::String(a.clone())), ("b", Value::String(b.clone()))], &body);
    obs_direct(&r);
    let same = same_bytes(a.as_bytes(), b.as_bytes());
    match r {
        Ok(g) => {
            eq(&g, if same != ne { b"Y" } else { b"N" }, "a conditional takes the wrong branch");
            cover(if same { "equal" } else { "different" });
        }
        Err(_) => fail("a comparison of strings is rejected"),
    }
}

// ---- C07 ----
/// A directory of markdown files with an arbitrary name, beside one that differs in one character.
fn c07_names(n: usize) {
    let d = fname(n);
    for b in d.bytes() {
        assume(b != b'"');
    }
    let e = fname(n);
    assume(!same_bytes(d.as_bytes(), e.as_bytes()));
    for x in [&d, &e] {
        assume(x != "p.html");
    }
    let f = fname(1);
    let p = format!("{{{{ begin(\"m\") }}}}{{{{ for($x, \"{}/\") }}}}{{{{ $x.t }}}};{{{{ end(for) }}}}{{{{ end(\"m\") }}}}", d);
    site(&[("root.html", b"[{{ insert(\"m\") }}]"), ("md.html", b"{{ begin(\"m\") }}{{ end(\"m\") }}"), ("p.html", p.as_bytes())]);
    let v = fs();
    v.put(&format!("{}/{}/{}.md", CONTENT, d, f), b"---\nt: \"1\"\n---\n");
    v.put(&format!("{}/{}/{}.mdx", CONTENT, d, f), b"---\nt: \"2\"\n---\n");
    v.put(&format!("{}/{}/{}.MD", CONTENT, d, f), b"---\nt: \"2\"\n---\n");
    v.put(&format!("{}/{}/md", CONTENT, d), b"---\nt: \"2\"\n---\n");
    v.put(&format!("{}/{}/zz.md", CONTENT, d), b"---\nt: \"3\"\n---\n");
    v.put(&format!("{}/{}/x.md", CONTENT, e), b"---\nt: \"4\"\n---\n");
    match build() {
        Ok(s) => {
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            eq(&g, b"[1;3;]", "a for loop does not run over the markdown files of its directory in order");
            cover("loop");
        }
        Err(_) => fail("a valid loop is rejected"),
    }
}

// ---- C08 ----
/// Labels are compared as they are: arbitrary characters, upper and lower case, blanks.
fn c08_utf8(n: usize) {
    let a = utf8(n);
    let other = || match choose(3) {
        0 => a.clone(),
        1 => utf8(n),
        _ => format!("{}{}", a, pick(&[" ", "\u{301}", "\u{feff}", "\n"])),
    };
    let k = choose(2);
    let b = if k == 0 { other() } else { a.clone() };
    let c = if k == 1 { other() } else { a.clone() };
    for x in [&a, &b, &c] {
        for y in x.bytes() {
            assume(y != b'"');
        }
    }
    let t = format!("{{{{ begin(\"{}\") }}}}T{{{{ end(\"{}\") }}}}", a, b);
    let root = format!("<{{{{ insert(\"{}\") }}}}>", c);
    site(&[("root.html", root.as_bytes()), ("p.html", t.as_bytes())]);
    let ok = same_bytes(a.as_bytes(), b.as_bytes()) && same_bytes(a.as_bytes(), c.as_bytes());
    match build() {
        Ok(s) => {
            check(ok, "labels that differ are taken for the same");
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            eq(&g, b"<T>", "an inserted section differs from what the page defines");
            cover("inserted");
        }
        Err(_) => {
            check(!ok, "a properly nested template is rejected");
            cover("labels differ");
        }
    }
}

// ---- C11 ----
/// Two nodes with arbitrary names meet exactly if the names are the same.
fn c11_names(n: usize) {
    let a = fname(n);
    let b = match choose(3) {
        0 => fname(n),
        1 => a.clone(),
        _ => {
            let b = a.to_ascii_uppercase();
            assume(!same_bytes(a.as_bytes(), b.as_bytes()));
            b
        }
    };
    let (da, db) = (flip(), flip());
    let node = |x: &str, d: bool, c: &[u8]| {
        if d {
            dir(x, vec![file(&format!("in{}", c[0]), c, ParsedContents::None, "/i")], "/d")
        } else {
            file(x, c, ParsedContents::None, "/f")
        }
    };
    let (p, q) = (byte(), byte());
    let mut t = dir("o", vec![node(&a, da, &[1, p])], "/a");
    let r = t.merge(dir("s", vec![node(&b, db, &[2, q])], "/b"));
    let same = same_bytes(a.as_bytes(), b.as_bytes());
    match r {
        Ok(()) => {
            check(!same || (da && db), "merging drops or overwrites a file");
            let mut w: Flat = Vec::new();
            let mut add = |x: &str, d: bool, c: &[u8], twice: bool| {
                if !d {
                    w.push((x.as_bytes().to_vec(), Some(c.to_vec())));
                } else {
                    if !twice {
                        w.push((x.as_bytes().to_vec(), None));
                    }
                    w.push((format!("{}/in{}", x, c[0]).into_bytes(), Some(c.to_vec())));
                }
            };
            add(&a, da, &[1, p], false);
            add(&b, db, &[2, q], same);
            let g = flat(&t);
            obs_flat(&g);
            check(same_flat(&g, &w), "the merged tree does not hold exactly the files of both trees");
            for x in [&a, &b] {
                check(t.get_at_path(Path::new(x)).map(|n| n.name().as_bytes() == x.as_bytes()).unwrap_or(false), "a path does not lead to its node");
            }
            cover("merged");
        }
        Err(e) => {
            check(same && !(da && db), "trees without a conflict are not merged");
            check(p_err(&e).1 == "fs", "a conflict is reported as something else");
            cover("conflict");
        }
    }
}

// ---- C12 ----
const SUFFIX: [&str; 16] = ["", ".html", ".HTML", ".Html", ".htm", ".md", ".MD", ".json", ".JSON", ".css", ".html~", ".md.bak", ".json5", ".txt.html", ".xhtml", " .html"];
/// One file with an arbitrary name and contents in the content tree and one among the static files, from disk to disk.
fn c12_disk(n: usize) {
    let k = choose(3);
    let c = config();
    let suf = pick(&SUFFIX);
    let stem = fname(n);
    let name = format!("{}{}", stem, suf);
    let sub = match choose(3) {
        0 => String::new(),
        1 => "d".to_string(),
        _ => {
            let d = fname(1);
            assume(d != name);
            d
        }
    };
    let raw = match k {
        0 => vec![],
        1 => vec![byte(), byte()],
        _ => vec![0xef, 0xbb, 0xbf, byte()],
    };
    let at = |p: &str, n: &str| if p.is_empty() { n.to_string() } else { format!("{}/{}", p, n) };
    let f = fs();
    stale();
    site(&[("root.html", b"<{{ insert(\"m\") }}>"), ("md.html", b"{{ begin(\"m\") }}M{{ $self.t }}{{ end(\"m\") }}")]);
    let mut files: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, bool)> = Vec::new();
    let page = flip();
    // what is left of the name without `.html` is a directory
    assume(name != "md.html");
    if page {
        let (src, out, to): (Vec<u8>, Vec<u8>, String) = match suf {
            ".html" | ".txt.html" | " .html" => (b"{{ begin(\"m\") }}T{{ end(\"m\") }}".to_vec(), b"<T>".to_vec(), name.clone()),
            ".md" => (b"---\nt: \"1\"\n---\nx".to_vec(), b"<M1>".to_vec(), format!("{}.html", stem)),
            ".json" => (b"1".to_vec(), b"1".to_vec(), name.clone()),
            _ => (raw.clone(), raw.clone(), name.clone()),
        };
        f.put(&format!("{}/{}", CONTENT, at(&sub, &name)), &src);
        files.push((sub.as_bytes().to_vec(), to.into_bytes(), out, true));
        f.put_dir("/w/static");
    } else {
        f.put(&format!("/w/static/{}", at(&sub, &name)), &raw);
        files.push((sub.as_bytes().to_vec(), name.clone().into_bytes(), raw, false));
    }
    // a directory stays, even if its only file is not saved
    let dirs: Vec<Vec<u8>> = if sub.is_empty() { vec![] } else { vec![sub.as_bytes().to_vec()] };
    let want = expect(&files, &dirs, &c);
    let mut s = match build_with(c) {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    let r = Node::new("/w/static", false).and_then(|n| s.merge_output(n)).and_then(|()| s.save(OUT));
    compare_out(r, want)
}

// ---- C14 ----
/// A file whose name is almost that of a template is none.
fn c14_alike(_: usize) {
    let md = flip();
    let mut b: Vec<u8> = if md { b"md.html".to_vec() } else { b"root.html".to_vec() };
    match choose(3) {
        0 => {
            let i = choose(b.len());
            let c = byte();
            assume((c < 128) & (c != b[i]) & (c != 0) & (c != b'/'));
            b[i] = c;
        }
        1 => {
            let i = choose(b.len() + 1);
            let c = byte();
            assume((c < 128) & (c != 0) & (c != b'/'));
            b.insert(i, c);
        }
        _ => {
            b.remove(choose(b.len()));
        }
    }
    let name = String::from_utf8(b).unwrap_or_default();
    assume(name != "p.html" && name != "q.md");
    site(&[
        ("root.html", b"[{{ insert(\"m\") }}]"),
        ("md.html", b"{{ begin(\"m\") }}M{{ end(\"m\") }}"),
        ("s/p.html", b"{{ begin(\"m\") }}T{{ end(\"m\") }}"),
        ("s/q.md", b"q"),
        ("s/e/r.md", b"r"),
    ]);
    fs().put(&format!("{}/s/{}", CONTENT, name), b"{{ begin(\"m\") }}X{{ end(\"m\") }}");
    match build() {
        Ok(s) => {
            for (p, w) in [("s/p.html", "[T]"), ("s/q.html", "[M]"), ("s/e/r.html", "[M]")] {
                let g = page(&s, p).unwrap_or_default();
                observe(&g);
                eq(&g, w.as_bytes(), "the page is not rendered with the nearest templates");
            }
            cover("rendered");
        }
        Err(_) => fail("a page with templates is rejected"),
    }
}
/// Directories with arbitrary names: the nearest template is used, that of a directory beside it is not.
fn c14_names(n: usize) {
    let (d, e) = (fname(n), fname(n));
    assume(!same_bytes(d.as_bytes(), e.as_bytes()));
    let own = flip();
    let md = flip();
    site(&[("root.html", b"[{{ insert(\"m\") }}]"), ("md.html", b"{{ begin(\"m\") }}M{{ end(\"m\") }}")]);
    let v = fs();
    v.put(&format!("{}/{}/x/{}", CONTENT, d, if md { "p.md" } else { "p.html" }), if md { b"T" } else { b"{{ begin(\"m\") }}T{{ end(\"m\") }}" });
    if own {
        v.put(&format!("{}/{}/root.html", CONTENT, d), b"({{ insert(\"m\") }})");
    }
    v.put(&format!("{}/{}/root.html", CONTENT, e), b"<>");
    v.put(&format!("{}/{}/md.html", CONTENT, e), b"{{ begin(\"m\") }}E{{ end(\"m\") }}");
    match build() {
        Ok(s) => {
            let g = page(&s, &format!("{}/x/p.html", d)).unwrap_or_default();
            observe(&g);
            let t = if md { "M" } else { "T" };
            eq(&g, if own { format!("({})", t) } else { format!("[{}]", t) }.as_bytes(), "the page is not rendered with the nearest templates");
            cover("rendered");
        }
        Err(_) => fail("a page with templates is rejected"),
    }
}

// ---- C16 ----
/// Names of files and directories, of frontmatter fields and of JSON fields.
fn c16_names(n: usize) {
    let (k, x) = (choose(4), utf8(n));
    let dot = |t: &str| t.as_bytes().iter().all(|b| *b == b'.');
    for b in x.bytes() {
        assume((b >= 0x20) & (b != b'/') & (b != b'"') & (b != b'\\'));
    }
    assume(!dot(&x));
    let pick4 = |i: usize, d: &str| if i == k { x.clone() } else { d.to_string() };
    let (f, d, key, field) = (pick4(0, "f"), pick4(1, "d"), pick4(2, "k"), pick4(3, "t"));
    if k == 2 {
        // a key ends at the first colon and blanks around it do not belong to it
        assume(!x.contains(':') && x.trim().len() == x.len() && !x.starts_with("---"));
    }
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ end(\"m\") }}")]);
    let v = fs();
    v.put(&format!("{}/{}/{}.css", CONTENT, d, f), b"x");
    v.put(&format!("{}/{}/{}.md", CONTENT, d, f), format!("---\n{}: \"v\"\n---\nx", key).as_bytes());
    v.put(&format!("{}/{}/{}.json", CONTENT, d, f), format!("{{\"{}\": 1}}", field).as_bytes());
    let cfg = Config { name: "n".into(), author: None, strip_extensions: true, save_data_files: false, save_metadata: true };
    let st = match build_with(cfg) {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    let g = meta_of(&st);
    let plain = |n: &str| obj(&[("name", js(n)), ("type", js("file"))]);
    let c = vec![
        plain(&format!("{}.css", f)),
        obj(&[("name", js(&format!("{}.html", f))), ("type", js("markdown")), ("value", obj(&[(&key, js("v"))]))]),
        obj(&[("name", js(&format!("{}.json", f))), ("type", js("json")), ("value", obj(&[(&field, J::Num(1.0))]))]),
    ];
    let w = obj(&[("name", js("n")), ("author", J::Null), ("data", J::Arr(vec![plain("root.html"), plain("md.html"), obj(&[("type", js("directory")), ("name", js(&d)), ("children", J::Arr(c))])]))]);
    check(same_j(&g, &w), "the metadata does not describe the output tree");
    cover("metadata");
}

// ---- C17 ----
/// A file with an arbitrary name, beside one with another name.
fn c17_names(n: usize) {
    let (d, f, e) = (fname(1), fname(n), fname(n));
    for x in [&d, &f] {
        for b in x.bytes() {
            assume(b != b'"');
        }
    }
    assume(!same_bytes(f.as_bytes(), e.as_bytes()));
    let gone = flip();
    let body = format!("{{{{ begin(\"m\") }}}}{{{{ import($v, \"{}/{}.json\") }}}}{{{{ $v }}}}{{{{ end(\"m\") }}}}", d, f);
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("p.html", body.as_bytes())]);
    let v = fs();
    v.put(&format!("{}/{}/{}.json", CONTENT, d, e), b"\"no\"");
    v.put(&format!("{}/{}/{}.JSON", CONTENT, d, f), b"\"no\"");
    v.put(&format!("{}/{}.json", CONTENT, f), b"\"no\"");
    if !gone {
        v.put(&format!("{}/{}/{}.json", CONTENT, d, f), b"\"yes\"");
    }
    match build() {
        Ok(s) => {
            check(!gone, "import accepts a path that names no JSON file");
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            eq(&g, b"yes", "import binds another file");
            cover("bound");
        }
        Err(e) => {
            check(gone, "importing a JSON file fails");
            check(matches!(e, Error::Process(_)), "a bad import is reported as something else");
            cover("refused");
        }
    }
}

// ---- C24 ----
/// A body and fields with characters that have a meaning elsewhere.
fn c24_odd(_: usize) {
    let (a, b) = (odd(), odd());
    let k = choose(3);
    let t = match k {
        0 => format!("{}x{}y", a, b),
        1 => format!("# {}{}\n\n- {}\n", a, b, a),
        _ => format!("{{{{ import($v, \"d.json\") }}}}{}{{{{ $v }}}}{}", a, b),
    };
    // front matter makes the body start in the middle of the file
    let front = flip();
    let src = format!("{}{}", if front { "---\nt: \"T\"\n---\n" } else { "" }, t);
    site(&[
        ("root.html", b"{{ insert(\"m\") }}"),
        ("md.html", b"{{ begin(\"m\") }}{{ $self.content }}|{{ $self.markdown }}{{ end(\"m\") }}"),
        ("d.json", b"\"J\""),
        ("p.md", src.as_bytes()),
    ]);
    let text = if t.ends_with('\n') { t[..t.len() - 1].to_string() } else { t };
    let done = if k == 2 { format!("{}J{}", a, b) } else { text.clone() };
    match build() {
        Ok(s) => {
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            eq(&g, format!("{}|{}", crate::more::convert(&done), text).as_bytes(), "the page is not its body converted to HTML");
            cover("rendered");
        }
        Err(_) => fail("a valid markdown body is rejected"),
    }
}

// ---- C25 ----
/// Names that begin with words that may mean something to a program.
fn c25_names(n: usize) {
    let pre = pick(&["", "STUART_", "RUST_", "PATH", "SECRET_", "A_TOKEN"]);
    let low = flip();
    let tail = |k: usize| text_in(k, if low { b"abcdefghijklmnopqrstuvwxyz" } else { b"ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789" });
    let a = format!("{}{}", pre, tail(n));
    let b = if flip() { a.clone() } else { format!("{}{}", pre, tail(n)) };
    // a name starts with no digit
    assume(!a.as_bytes()[0].is_ascii_digit() && !b.as_bytes()[0].is_ascii_digit());
    assume(a != "STUART_ENV" && b != "STUART_ENV");
    set_env(&[(b"HOME", b"/h"), (a.as_bytes(), b"value")]);
    assume(b != "HOME");
    let same = same_bytes(a.as_bytes(), b.as_bytes());
    match render_body(format!("{{{{ $env.{} }}}}", b).as_bytes(), &[]) {
        Ok(g) => {
            check(same, "$env has a variable that the environment does not have");
            eq(&g, b"[value]", "$env does not hold the value of the environment variable");
            cover("value");
        }
        Err(Error::Process(_)) => {
            check(!same, "a variable of the environment is missing from $env");
            cover("undefined");
        }
        Err(_) => fail("an undefined variable is reported as something else"),
    }
}

entries! {
    c02_edges(n): h_c02_edges_3 = 3, h_c02_edges_5 = 5, h_c02_edges_7 = 7;
    c02_odd(n): h_c02_odd = 0;
    c05_odd(n): h_c05_odd_3 = 3, h_c05_odd_4 = 4, h_c05_odd_6 = 6;
    c06_utf8(n): h_c06_utf8_3 = 3, h_c06_utf8_4 = 4, h_c06_utf8_5 = 5;
    c07_names(n): h_c07_names_2 = 2, h_c07_names_3 = 3, h_c07_names_4 = 4;
    c08_utf8(n): h_c08_utf8_2 = 2, h_c08_utf8_4 = 4;
    c11_names(n): h_c11_names_3 = 3, h_c11_names_4 = 4, h_c11_names_6 = 6;
    c12_disk(n): h_c12_disk_2 = 2, h_c12_disk_3 = 3;
    c14_alike(n): h_c14_alike = 0;
    c14_names(n): h_c14_names_2 = 2, h_c14_names_3 = 3, h_c14_names_4 = 4;
    c16_names(n): h_c16_names_2 = 2, h_c16_names_3 = 3, h_c16_names_5 = 5;
    c17_names(n): h_c17_names_2 = 2, h_c17_names_3 = 3, h_c17_names_4 = 4;
    c24_odd(n): h_c24_odd = 0;
    c25_names(n): h_c25_names_2 = 2, h_c25_names_4 = 4;
}
