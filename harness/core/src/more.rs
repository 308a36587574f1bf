//! C13 (library part), C24, C25, C26: faults, markdown, environment, plugins.
use crate::common::*;
use crate::refi::*;
use crate::site::{disk, obs_flat, Flat};
use humphrey_json::Value;
use std::rc::Rc;
use stuart_core::plugins::{NodeParser, NodeProcessor, Plugin};
use stuart_core::process::ProcessOutput;

// ---- C13 ----
pub fn faulty_site(k: usize) -> Flat {
    let page = |t: &str| format!("{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}", t);
    let f = fs();
    f.put("/w/keep/me", b"k");
    f.put("/w/dist/old.html", b"old");
    f.put("/w/dist/d/older", b"old");
    f.put_kind("/w/dist/link", Kind::Link, b"/w/keep");
    match k {
        0 => {
            let (i, q) = (page("i"), page("{{ $self.t }}"));
            site(&[("root.html", b"<{{ insert(\"m\") }}>"), ("md.html", q.as_bytes()), ("index.html", i.as_bytes()), ("sub/q.md", b"---\nt: \"q\"\n---\nx"), ("r.bin", b"\xff\0")]);
            vec![(b"index.html".to_vec(), Some(b"<i>".to_vec())), (b"sub".to_vec(), None), (b"sub/q".to_vec(), None), (b"sub/q/index.html".to_vec(), Some(b"<q>".to_vec())), (b"r.bin".to_vec(), Some(b"\xff\0".to_vec()))]
        }
        _ => {
            site(&[("root.html", b"r"), ("a/b/p.html", b"x"), ("a/d.json", b"[1]")]);
            vec![(b"a".to_vec(), None), (b"a/b".to_vec(), None), (b"a/b/p".to_vec(), None), (b"a/b/p/index.html".to_vec(), Some(b"r".to_vec()))]
        }
    }
}
pub fn same_disk(g: &Flat, w: &Flat) -> bool {
    g.len() == w.len() && w.iter().all(|(p, c)| g.iter().any(|(q, d)| p == q && c == d))
}
pub fn errno() -> i32 {
    pick(&[vrt::vfs::EIO, vrt::vfs::EACCES, vrt::vfs::ENOENT, vrt::vfs::ENOSPC, vrt::vfs::EEXIST, vrt::vfs::ENOTDIR])
}
/// Any one reading call of the build fails.
pub fn c13_read(_n: usize) {
    let want = faulty_site(choose(2));
    let f = fs();
    f.errno = errno();
    let k = byte();
    assume(k < 200);
    f.reads = 0;
    f.fail_read = k as usize;
    let mut s = Stuart::new(CONTENT);
    let r = s.build("production".into());
    f.fail_read = usize::MAX;
    check(f.log.is_empty(), "building writes to the disk");
    match r {
        Err(e) => {
            observe(p_err(&e).1.as_bytes());
            check(f.failed, "a valid site is rejected");
            cover("error");
        }
        Ok(()) => {
            cover(if f.failed { "masked" } else { "no fault" });
            if s.save(OUT).is_err() {
                fail("saving fails without a fault");
            }
            let g = disk(OUT);
            obs_flat(&g);
            check(same_disk(&g, &want), "a reading failure is not reported and the output is wrong");
        }
    }
}
/// Any one call of the saving phase fails.
pub fn c13_write(_n: usize) {
    let want = faulty_site(choose(2));
    let f = fs();
    let s = match build() {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    f.errno = errno();
    let k = byte();
    assume(k < 120);
    f.reads = 0;
    f.writes = 0;
    if flip() {
        f.fail_write = k as usize;
    } else {
        f.fail_read = k as usize;
    }
    let r = s.save(OUT);
    f.fail_read = usize::MAX;
    f.fail_write = usize::MAX;
    for (_, p) in &f.log {
        check(p.len() >= 7 && &p[..7] == b"/w/dist" && (p.len() == 7 || p[7] == b'/'), "saving touches a path outside the output directory");
    }
    check(f.get("/w/keep/me") == Some(b"k"), "saving removes a file outside the output directory");
    let g = disk(OUT);
    obs_flat(&g);
    match r {
        Err(e) => {
            observe(p_err(&e).1.as_bytes());
            check(f.failed, "saving fails without a fault");
            cover("error");
        }
        Ok(()) => {
            check(same_disk(&g, &want), "a failure while writing is not reported and the output is wrong");
            cover(if f.failed { "masked" } else { "no fault" });
        }
    }
}
/// Any one call of writing the metadata fails.
pub fn c13_meta(_n: usize) {
    faulty_site(0);
    let f = fs();
    f.put("/w/metadata.json", b"old");
    let mut cfg = Config::default();
    cfg.save_metadata = true;
    let s = match build_with(cfg) {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    f.errno = errno();
    f.writes = 0;
    f.fail_write = choose(4);
    let r = s.save_metadata("/w/metadata.json");
    f.fail_write = usize::MAX;
    match r {
        Err(_) => {
            check(f.failed, "saving the metadata fails without a fault");
            cover("error");
        }
        Ok(()) => {
            let t = f.get("/w/metadata.json").unwrap_or(b"").to_vec();
            observe(&t);
            check(crate::site::read_json(&t).is_some(), "a failure while writing the metadata is not reported");
            cover("no fault");
        }
    }
    for (_, p) in &f.log {
        check(p == b"/w/metadata.json", "saving the metadata touches another path");
    }
}
entries! {
    c13_read(n): h_c13_read = 0;
    c13_write(n): h_c13_write = 0;
    c13_meta(n): h_c13_meta = 0;
}

// ---- C24 ----
pub fn convert(t: &str) -> String {
    use pulldown_cmark::{html, Options, Parser};
    let mut o = String::new();
    html::push_html(&mut o, Parser::new_ext(t, Options::all()));
    o
}
pub fn md_world() -> World {
    let mut w = World::new();
    w.json.push(("d.json".into(), obj(&[("s", js("*e*")), ("h", js("<b>x</b>")), ("t", js("{{ $no }}")), ("l", J::Arr(vec![js("# 1\\n"), js("- 2\\n")])), ("n", J::Num(3.0)), ("z", J::Null)])));
    // what JSON escapes mean
    w.json[0].1 = obj(&[("s", js("*e*")), ("h", js("<b>x</b>")), ("t", js("{{ $no }}")), ("l", J::Arr(vec![js("_1_ "), js("`2` ")])), ("n", J::Num(3.0)), ("z", J::Null)]);
    w
}
pub fn md_gen(left: &mut usize, depth: usize) -> Vec<T> {
    let mut v = Vec::new();
    while *left > 0 {
        let k = choose(if depth > 0 { 15 } else { 12 });
        if k == 0 {
            break;
        }
        *left -= 1;
        v.push(match k {
            1 => T::Raw("# H\n".into()),
            2 => T::Raw("*a* ".into()),
            3 => T::Raw("\n\n- x\n".into()),
            4 => T::Raw("<i>&amp;</i>\n".into()),
            5 => T::Raw("{}".into()),
            6 => T::Var("v.s".into()),
            7 => T::Var("v.h".into()),
            8 => T::Var("v.t".into()),
            9 => T::Var("v.n".into()),
            10 => T::Var("self.t".into()),
            11 => T::Raw("\u{e9}\u{1f600}\r\n".into()),
            12 => T::For(Lp { var: "i".into(), src: Src::Var("v.l".into()), skip: None, limit: None, sort: None, order: None, body: md_gen(left, depth - 1) }),
            13 => T::If(0, A::Var("v.s".into()), A::Str(if flip() { "*e*" } else { "x" }.into()), md_gen(left, depth - 1), None),
            _ => T::Def("v.z".into(), md_gen(left, depth - 1), Some(vec![T::Var("v.h".into())])),
        });
    }
    v
}
pub fn normal(t: &str) -> String {
    let mut o = String::new();
    for (i, l) in t.lines().enumerate() {
        if i > 0 {
            o.push('\n');
        }
        o.push_str(l);
    }
    o
}
/// Tags of a markdown body are executed, the result converted once, the source kept.
pub fn c24_body(n: usize) {
    let w = md_world();
    let mut left = n;
    let mut ts = vec![T::Imp("v".into(), "d.json".into())];
    ts.extend(md_gen(&mut left, 1));
    let text = src_text(&ts);
    let md = format!("---\nt: \"T\"\n---\n{}", text);
    site(&[
        ("root.html", b"[{{ insert(\"m\") }}]"),
        ("md.html", b"{{ begin(\"m\") }}{{ $self.t }}|{{ $self.content }}|{{ $self.markdown }}{{ end(\"m\") }}"),
        ("d.json", w.json[0].1.json().as_bytes()),
        ("blog/p.md", md.as_bytes()),
    ]);
    let mut ev = Ev::new(&w, vec![]);
    let mut out = Vec::new();
    // line ends of the source are normalised before anything else
    let ts2 = norm_ts(&ts);
    let r = ev.run(&ts2, &mut out);
    match (build(), r) {
        (Ok(s), Ok(())) => {
            let g = match page(&s, "blog/p.html") {
                Some(g) => g,
                None => fail("a markdown page is not emitted as .html"),
            };
            check(page(&s, "blog/p.md").is_none(), "the markdown source is in the output");
            observe(&g);
            let src = normal(&text);
            // a line end at the end of the file belongs to no line
            let exp = String::from_utf8(out).unwrap_or_default();
            let exp = if text.ends_with('\n') { exp.strip_suffix('\n').unwrap_or(&exp).to_string() } else { exp };
            eq(&g, format!("[T|{}|{}]", convert(&exp), src).as_bytes(), "the page is not its expanded body converted to HTML");
            cover("rendered");
        }
        (Err(Error::Process(e)), Err(b)) => {
            observe(format!("{}", e.line).as_bytes());
            check(same_error(&e.kind, &b), "an error in a markdown body is reported as another one");
            check(e.path == Path::new("/w/content/blog/p.md"), "an error in a markdown body is reported for another file");
            cover("error");
        }
        (Ok(_), Err(_)) => fail("an error in a markdown body is not reported"),
        (Err(_), _) => fail("a valid markdown body is rejected"),
    }
}
pub fn norm_ts(ts: &[T]) -> Vec<T> {
    ts.iter()
        .map(|t| match t {
            T::Raw(s) => T::Raw(s.replace("\r\n", "\n")),
            T::For(l) => T::For(Lp { body: norm_ts(&l.body), ..l.clone() }),
            T::If(o, a, b, x, y) => T::If(*o, a.clone(), b.clone(), norm_ts(x), y.as_ref().map(|y| norm_ts(y))),
            T::Def(v, x, y) => T::Def(v.clone(), norm_ts(x), y.as_ref().map(|y| norm_ts(y))),
            t => t.clone(),
        })
        .collect()
}
/// Arbitrary text dense in markup goes through the converter unchanged.
pub fn c24_text(n: usize) {
    let t = format!("a{}b", text_in(n, b"*_`<>&\\ \n"));
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ $self.content }}{{ end(\"m\") }}"), ("p.md", t.as_bytes())]);
    match build() {
        Ok(s) => {
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            eq(&g, convert(&t).as_bytes(), "the page is not its body converted to HTML");
            cover("rendered");
        }
        Err(_) => fail("a valid markdown body is rejected"),
    }
}
/// A listing sees the final HTML and the source of every page, whatever comes first.
pub fn c24_listing(_n: usize) {
    let c = text_in(1, b"xyz");
    let e = flip();
    let a = format!("---\nt: \"A\"\n---\n{{{{ import($v, \"d.json\") }}}}{{{{ $v.s }}}} {}", c);
    let b = if e { "---\nt: \"B\"\n---\n".to_string() } else { format!("---\nt: \"B\"\ncontent: \"f\"\nmarkdown: \"g\"\n---\n# {}", c) };
    site(&[
        ("root.html", b"[{{ insert(\"m\") }}]"),
        ("md.html", b"{{ begin(\"m\") }}{{ $self.t }}{{ $self.content }}{{ end(\"m\") }}"),
        ("d.json", b"{\"s\": \"*e*\"}"),
        ("a.html", b"{{ begin(\"m\") }}{{ for($p, \"posts/\", sortby=$p.t) }}{{ $p.t }}|{{ $p.content }}|{{ $p.markdown }};{{ end(for) }}{{ end(\"m\") }}"),
        ("posts/a.md", a.as_bytes()),
        ("posts/b.md", b.as_bytes()),
        ("z.html", b"{{ begin(\"m\") }}{{ for($p, \"posts/\", sortby=$p.t) }}{{ $p.t }}|{{ $p.content }}|{{ $p.markdown }};{{ end(for) }}{{ end(\"m\") }}"),
    ]);
    fs().rev = flip();
    let ha = format!("<p><em>e</em> {}</p>\n", c);
    let hb = if e { String::new() } else { format!("<h1>{}</h1>\n", c) };
    let ba = format!("{{{{ import($v, \"d.json\") }}}}{{{{ $v.s }}}} {}", c);
    let bb = if e { String::new() } else { format!("# {}", c) };
    match build() {
        Ok(s) => {
            for p in ["a.html", "z.html"] {
                let g = page(&s, p).unwrap_or_default();
                observe(&g);
                eq(&g, format!("[A|{}|{};B|{}|{};]", ha, ba, hb, bb).as_bytes(), "a listing does not show the converted pages");
            }
            let g = page(&s, "posts/a.html").unwrap_or_default();
            eq(&g, format!("[A{}]", ha).as_bytes(), "the page is not its expanded body converted to HTML");
            let g = page(&s, "posts/b.html").unwrap_or_default();
            eq(&g, format!("[B{}]", hb).as_bytes(), "the page is not its expanded body converted to HTML");
            cover("rendered");
        }
        Err(_) => fail("a valid site is rejected"),
    }
}
/// File names: only the last suffix is replaced.
pub fn c24_name(n: usize) {
    let stem = text_in(n, b"a.md-h");
    let b = stem.as_bytes();
    assume(!(b[0] == b'.' && n <= 2));
    let name = format!("{}.md", stem);
    fs().chdir("/w");
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}M{{ end(\"m\") }}"), (&name, b"x")]);
    match build() {
        Ok(s) => {
            let kids: Vec<String> = s.output.as_ref().unwrap().children().unwrap().iter().map(|c| c.name().to_string()).collect();
            check(kids.len() == 3, "a page is missing from the output");
            eq(kids[2].as_bytes(), format!("{}.html", stem).as_bytes(), "a markdown page is not emitted under its stem");
            cover("named");
        }
        Err(_) => fail("a valid site is rejected"),
    }
}
entries! {
    c24_body(n): h_c24_body_2 = 2, h_c24_body_3 = 3;
    c24_text(n): h_c24_text_2 = 2, h_c24_text_3 = 3;
    c24_listing(n): h_c24_listing = 0;
    c24_name(n): h_c24_name_3 = 3, h_c24_name_5 = 5;
}

// ---- C25 ----
/// Where in the site the variable is printed.
pub fn env_site(tag: &str) -> bool {
    let t = |s: &str| format!("{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}", s);
    let k = choose(5);
    let tag_for = match k {
        4 => format!("{{{{ import($v, \"l.json\") }}}}{{{{ for($i, $v) }}}}{}{{{{ end(for) }}}}", tag),
        _ => tag.to_string(),
    };
    let page = t(if k == 0 || k == 4 { &tag_for } else { "" });
    let mdh = t(if k == 2 { tag } else { "{{ $self.content }}" });
    site(&[
        ("root.html", format!("[{{{{ insert(\"m\") }}}}{}]", if k == 1 { tag } else { "" }).as_bytes()),
        ("l.json", b"[\"1\"]"),
        (if k == 2 || k == 3 { "p.md" } else { "p.html" }, if k == 3 { tag.to_string() } else { page.clone() }.as_bytes()),
        ("md.html", mdh.as_bytes()),
    ]);
    k == 3
}
pub fn c25_judge(r: Result<Stuart, Error>, md: bool, want: Option<&[u8]>) {
    match (r, want) {
        (Ok(s), Some(w)) => {
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            let mut e = b"[".to_vec();
            if md {
                if !w.is_empty() {
                    e.extend_from_slice(b"<p>");
                    e.extend_from_slice(w);
                    e.extend_from_slice(b"</p>\n");
                }
            } else {
                e.extend_from_slice(w);
            }
            e.push(b']');
            eq(&g, &e, "$env does not hold the value of the environment variable");
            cover("value");
        }
        (Err(Error::Process(_)), None) => cover("undefined"),
        (Err(_), None) => fail("an undefined variable is reported as something else"),
        (Ok(_), None) => fail("$env has a variable that the environment does not have"),
        (Err(_), Some(_)) => fail("a variable of the environment is missing from $env"),
    }
}
/// One variable with an arbitrary name and value among others.
pub fn c25_var(n: usize) {
    let name = text_in(2, b"ABb_=");
    let mut value: Vec<u8> = Vec::new();
    match choose(3) {
        0 => value = utf8(n).into_bytes(),
        1 => {
            for _ in 0..n {
                let b = byte();
                assume(b != 0);
                value.push(b);
            }
        }
        _ => {}
    }
    for b in &value {
        assume(*b != 0);
    }
    let other: &[(&[u8], &[u8])] = &[(b"AAA", b"1"), (b"\xff\xfe", b"x"), (b"Y", b"\xff")];
    let mut vars: Vec<(&[u8], &[u8])> = other.to_vec();
    vars.insert(choose(4), (name.as_bytes(), &value));
    set_env(&vars);
    let md = env_site("{{ $env.AB }}");
    let nb = name.as_bytes();
    // the name ends at the first `=` after its first character
    let mut want: Option<Vec<u8>> = None;
    if nb[0] == b'A' && nb[1] == b'B' {
        want = Some(value.clone());
    }
    let valid = std::str::from_utf8(&value).is_ok();
    if md {
        // markup and blanks would be converted
        for b in &value {
            assume(b.is_ascii_lowercase());
        }
    }
    let r = build();
    c25_judge(r, md, if valid { want.as_deref() } else { None })
}
/// STUART_ENV is that of the build.
pub fn c25_stuart(n: usize) {
    let pre = utf8(n);
    for b in pre.bytes() {
        assume(b != 0);
    }
    let v: &[(&[u8], &[u8])] = &[(b"A", b"1"), (b"STUART_ENV", pre.as_bytes()), (b"STUART_ENVX", b"2"), (b"STUART_ENV", b"production")];
    match choose(4) {
        0 => set_env(&v[..1]),
        1 => set_env(&v[..3]),
        2 => set_env(&[(b"STUART_ENV", b"\xff"), (b"STUART_ENV", b"q")]),
        _ => set_env(&v[1..]),
    }
    let e = pick(&["production", "development", "benchmark"]);
    let md = env_site("{{ $env.STUART_ENV }}");
    let mut s = Stuart::new(CONTENT);
    let r = s.build(e.to_string()).map(|_| s);
    c25_judge(r, md, Some(e.as_bytes()))
}
entries! {
    c25_var(n): h_c25_var_2 = 2, h_c25_var_4 = 4;
    c25_stuart(n): h_c25_stuart_2 = 2, h_c25_stuart_4 = 4;
}

// ---- C26 ----
#[derive(Clone, Copy, PartialEq)]
enum Res {
    None,
    Contents,
    Name,
    Both,
    Fail,
}
static mut CALLS: Vec<(u8, Vec<u8>, String)> = Vec::new();
struct NP {
    id: u8,
    ext: Vec<&'static str>,
    parse_fails: bool,
    res: Res,
    json: bool,
}
struct NR {
    id: u8,
    res: Res,
    data: Vec<u8>,
    json: bool,
}
impl NodeParser for NP {
    fn extensions(&self) -> Vec<&'static str> {
        self.ext.clone()
    }
    fn parse(&self, contents: &[u8], path: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        unsafe { (*std::ptr::addr_of_mut!(CALLS)).push((self.id, contents.to_vec(), path.to_string_lossy().to_string())) };
        if self.parse_fails {
            return Err("parse".into());
        }
        Ok(Box::new(NR { id: self.id, res: self.res, data: contents.to_vec(), json: self.json }))
    }
}
impl NR {
    fn new_contents(&self) -> Vec<u8> {
        let mut v = vec![b'0' + self.id, b':'];
        v.extend(self.data.iter().rev());
        v
    }
}
impl NodeProcessor for NR {
    fn process(&self, _: &Stuart, _: Environment) -> Result<ProcessOutput, String> {
        let c = matches!(self.res, Res::Contents | Res::Both);
        let n = matches!(self.res, Res::Name | Res::Both);
        if self.res == Res::Fail {
            return Err("process".into());
        }
        Ok(ProcessOutput { new_contents: if c { Some(self.new_contents()) } else { None }, new_name: if n { Some(format!("n{}.out", self.id)) } else { None } })
    }
    fn to_json(&self) -> Value {
        if self.json {
            Value::String("j".into())
        } else {
            Value::Object(vec![("type".into(), Value::String("mine".into()))])
        }
    }
}
pub const EXTS: [&str; 6] = ["txt", "html", "md", "json", "x", "TXT"];
/// Plugins registering extensions, one file of each kind with arbitrary contents.
pub fn c26_types(n: usize) {
    let mut plugins = Vec::new();
    let mut regs: Vec<(u8, Vec<&'static str>, bool, Res)> = Vec::new();
    for p in 0..n {
        let mut parsers: Vec<Box<dyn NodeParser>> = Vec::new();
        // the second plugin may have a second parser
        for _ in 0..1 + p.min(1) {
            let mut ext = vec![pick(&EXTS)];
            if flip() {
                ext.push(pick(&["txt", "x"]));
            }
            let res = pick(&[Res::None, Res::Both, Res::Fail]);
            let pf = res == Res::None && flip();
            let id = regs.len() as u8;
            regs.push((id, ext.clone(), pf, res));
            parsers.push(Box::new(NP { id, ext, parse_fails: pf, res, json: false }));
            if p == 1 && !flip() {
                break;
            }
        }
        plugins.push(Plugin { name: format!("p{}", p), version: "1".into(), functions: vec![], parsers });
    }
    plugin_site(plugins, regs)
}
/// Two or three parsers of two types each way round, in one plugin or in two.
pub fn c26_order(_n: usize) {
    let mut parsers: Vec<Box<dyn NodeParser>> = Vec::new();
    let mut regs: Vec<(u8, Vec<&'static str>, bool, Res)> = Vec::new();
    let mut plugins = Vec::new();
    for id in 0..3u8 {
        let ext = match choose(3) {
            0 => vec!["txt"],
            1 => vec!["x"],
            _ => vec!["x", "txt"],
        };
        let res = if id == 1 { Res::Contents } else { Res::Both };
        regs.push((id, ext.clone(), false, res));
        parsers.push(Box::new(NP { id, ext, parse_fails: false, res, json: false }));
        if id == 2 || flip() {
            plugins.push(Plugin { name: format!("p{}", id), version: "1".into(), functions: vec![], parsers: std::mem::take(&mut parsers) });
        }
    }
    plugin_site(plugins, regs)
}
/// One parser, every result.
pub fn c26_result(_n: usize) {
    let res = pick(&[Res::None, Res::Contents, Res::Name, Res::Both, Res::Fail]);
    let pf = flip();
    let p: Vec<Box<dyn NodeParser>> = vec![Box::new(NP { id: 0, ext: vec!["y", "txt"], parse_fails: pf, res, json: false })];
    plugin_site(vec![Plugin { name: "p".into(), version: "1".into(), functions: vec![], parsers: p }], vec![(0, vec!["y", "txt"], pf, res)])
}
pub fn plugin_site(plugins: Vec<Plugin>, regs: Vec<(u8, Vec<&'static str>, bool, Res)>) {
    let data = [byte(), byte()];
    let names = ["f.txt", "g", "h.x", "i.tar.txt", ".txt", "k.css"];
    let name = pick(&names);
    let ext = match name {
        "f.txt" | "i.tar.txt" => "txt",
        "h.x" => "x",
        "k.css" => "css",
        _ => "",
    };
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("p.html", b"{{ begin(\"m\") }}P{{ end(\"m\") }}"), ("d.json", b"[1]"), (&format!("sub/{}", name), &data), ("q.md", b"Q"), ("md.html", b"{{ begin(\"m\") }}M{{ end(\"m\") }}")]);
    fs().rev = flip();
    unsafe { (*std::ptr::addr_of_mut!(CALLS)).clear() };
    let mut s = Stuart::new(CONTENT).with_plugins(plugins);
    let r = s.build("production".into());
    let who = if ext.is_empty() { None } else { regs.iter().find(|r| r.1.contains(&ext)) };
    let calls = unsafe { &*std::ptr::addr_of!(CALLS) };
    match who {
        None => check(calls.is_empty(), "a plugin is given a file whose type it does not register"),
        Some((id, _, _, _)) => {
            check(calls.len() == 1 && calls[0].0 == *id, "a file is not given to the first plugin that registers its type");
            check(calls[0].1 == data, "a plugin is given other bytes than those of the file");
            check(calls[0].2 == format!("/w/content/sub/{}", name), "a plugin is given another path");
        }
    }
    let bad = who.map_or(false, |w| w.2 || w.3 == Res::Fail);
    match r {
        Err(Error::Plugin(m)) => {
            observe(m.as_bytes());
            check(bad, "a build fails with a plugin error although no plugin failed");
            check(m == if who.map_or(false, |w| w.2) { "parse" } else { "process" }, "the plugin error is not passed on");
            cover("error");
        }
        Err(_) => fail("a plugin error is reported as something else"),
        Ok(()) => {
            check(!bad, "a plugin error does not fail the build");
            let (mut nm, mut c) = (name.to_string(), data.to_vec());
            if let Some((id, _, _, res)) = who {
                if matches!(res, Res::Name | Res::Both) {
                    nm = format!("n{}.out", id);
                }
                if matches!(res, Res::Contents | Res::Both) {
                    c = vec![b'0' + id, b':', data[1], data[0]];
                }
            }
            let g = match page(&s, &format!("sub/{}", nm)) {
                Some(g) => g,
                None => fail("the file is not saved under the name the plugin gave"),
            };
            observe(&g);
            eq(&g, &c, "the file is not saved with the contents the plugin gave");
            check(page(&s, "p.html").as_deref() == Some(b"P") && page(&s, "d.json").as_deref() == Some(b"[1]") && page(&s, "q.html").as_deref() == Some(b"M"), "a plugin changes how html, md or json files are built");
            check(s.output.as_ref().unwrap().get_at_path(Path::new("sub")).and_then(|d| d.children()).map_or(0, |c| c.len()) == 1, "the output holds other files");
            cover(if who.is_some() { "plugin" } else { "copied" });
        }
    }
}
/// Many parsers, many types, a large file.
fn c26_large(_n: usize) {
    let n = pick(&[17usize, 33, 255, 256, 300]);
    let size = pick(&[2usize, 256, 65536, 70000]);
    let at = [0, n / 2, n - 1][choose(3)];
    let (a, b) = (byte(), byte());
    let mut data = vec![b'x'; size];
    data[0] = a;
    data[size - 1] = b;
    let mut plugins = Vec::new();
    let mut parsers: Vec<Box<dyn NodeParser>> = Vec::new();
    for i in 0..n {
        let mut ext: Vec<&'static str> = vec!["y"; if i == at { n } else { 1 }];
        if i >= at {
            ext.push("txt");
        }
        parsers.push(Box::new(NP { id: if i == at { 1 } else { 2 }, ext, parse_fails: false, res: Res::Contents, json: false }));
        if i % 2 == 1 || i + 1 == n {
            plugins.push(Plugin { name: format!("p{}", i), version: "1".into(), functions: vec![], parsers: std::mem::take(&mut parsers) });
        }
    }
    site(&[("f.txt", &data)]);
    let mut s = Stuart::new(CONTENT).with_plugins(plugins);
    if s.build("production".into()).is_err() {
        fail("a valid site is rejected");
    }
    let g = page(&s, "f.txt").unwrap_or_default();
    check(g.len() == size + 2 && g[0] == b'1', "a file is not given to the first plugin that registers its type");
    check(g[2] == b && g[size + 1] == a && g[3..size + 1].iter().all(|c| *c == b'x'), "the file is not saved with the contents the plugin gave");
    cover("plugin");
}
entries! {
    c26_large(n): h_c26_large = 0;
    c26_types(n): h_c26_types_1 = 1, h_c26_types_2 = 2;
    c26_order(n): h_c26_order = 0;
    c26_result(n): h_c26_result = 0;
}
#[allow(unused)]
pub fn _unused(_: Rc<()>) {}
