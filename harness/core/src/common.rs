pub use stuart_core::fs::Node;
pub use stuart_core::parse::*;
pub use stuart_core::*;
pub use std::path::Path;
pub use vrt::vfs::{fs, set_env, Kind};
pub use vrt::*;

pub fn eq(a: &[u8], b: &[u8], label: &str) {
    if a.len() != b.len() {
        observe(a);
        observe(b);
        fail(label);
    }
    check(a == b, label);
}

/// Number of the line (from 1) on which byte `i` of the text stands.
pub fn line_at(t: &[u8], i: usize) -> u32 {
    let mut n = 1;
    for k in 0..i {
        if t[k] == b'\n' {
            n += 1;
        }
    }
    n
}

pub fn p_err(e: &Error) -> (u32, &'static str, Option<&Path>, u32) {
    match e {
        Error::Fs(_) => (1, "fs", None, 0),
        Error::Parse(t) => (2, "parse", Some(&t.path), t.line),
        Error::Process(t) => (3, "process", Some(&t.path), t.line),
        Error::Plugin(_) => (4, "plugin", None, 0),
        Error::NotBuilt => (5, "notbuilt", None, 0),
        Error::MetadataNotEnabled => (6, "nometa", None, 0),
    }
}

pub const CONTENT: &str = "/w/content";
pub const OUT: &str = "/w/dist";

/// Writes the content files into the virtual disk.
pub fn site(files: &[(&str, &[u8])]) {
    let f = fs();
    f.chdir("/w");
    f.put_dir(CONTENT);
    for (p, c) in files {
        f.put(&format!("{}/{}", CONTENT, p), c);
    }
}

pub fn build_with(cfg: Config) -> Result<Stuart, Error> {
    let mut s = Stuart::new(CONTENT).with_config(cfg);
    s.build("production".to_string())?;
    Ok(s)
}
pub fn build() -> Result<Stuart, Error> {
    build_with(Config::default())
}

/// The output of the page at the path of the built tree.
pub fn page(s: &Stuart, path: &str) -> Option<Vec<u8>> {
    s.output.as_ref().and_then(|o| o.get_at_path(Path::new(path))).and_then(|n| n.contents()).map(|c| c.to_vec())
}

/// Renders one page `p.html` with body `text` into a root that inserts section "m".
pub fn render_body(body: &[u8], more: &[(&str, &[u8])]) -> Result<Vec<u8>, Error> {
    let mut t = Vec::new();
    t.extend_from_slice(b"{{ begin(\"m\") }}");
    t.extend_from_slice(body);
    t.extend_from_slice(b"{{ end(\"m\") }}");
    let mut files: Vec<(&str, &[u8])> = vec![("root.html", b"[{{ insert(\"m\") }}]"), ("p.html", &t)];
    files.extend_from_slice(more);
    site(&files);
    let s = build()?;
    match page(&s, "p.html") {
        Some(v) => Ok(v),
        None => fail("page is missing from the output"),
    }
}

pub fn obs_result(r: &Result<Vec<u8>, Error>) {
    let mut o = Obs::new();
    match r {
        Ok(v) => {
            o.n(0);
            o.0.extend_from_slice(v);
        }
        Err(e) => {
            let (k, _, p, l) = p_err(e);
            o.n(k as u64).n(l as u64);
            if let Some(p) = p {
                o.s(&p.to_string_lossy());
            }
        }
    }
    o.done();
}


/// Renders a page from parsed values, without disk or JSON text: each value is a file `<name>.json`.
pub fn direct(values: Vec<(&str, humphrey_json::Value)>, body: &str) -> Result<Vec<u8>, TracebackError<process::ProcessError>> {
    use stuart_core::fs::ParsedContents;
    use stuart_core::process::stack::StackFrame;
    let file = |name: String, pc: ParsedContents| Node::File { source: Path::new("/w").join(&name), name, contents: vec![], parsed_contents: pc, metadata: None };
    let tokens = |t: &str| match parse_html(t, Path::new("/w/p.html"), None) {
        Ok(t) => t,
        Err(_) => fail("a valid template is rejected"),
    };
    let children: Vec<Node> = values.into_iter().map(|(n, v)| file(format!("{}.json", n), ParsedContents::Json(v))).collect();
    let s = Stuart {
        dir: "/w".into(),
        input: Some(Node::Directory { name: "w".into(), children, source: "/w".into() }),
        output: None,
        config: Config::default(),
        base: Some(StackFrame::new("base")),
        plugins: None,
    };
    let root = tokens("{{ insert(\"m\") }}");
    let page = file("p.html".into(), ParsedContents::Html(tokens(&format!("{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}", body))));
    let env = Environment { vars: &[], root: Some(&root), md: None };
    match page.process(&s, env) {
        Ok(n) => Ok(n.contents().unwrap_or(b"").to_vec()),
        Err(Error::Process(e)) => Err(e),
        Err(_) => fail("a processing error is reported as something else"),
    }
}
pub fn obs_direct(r: &Result<Vec<u8>, TracebackError<process::ProcessError>>) {
    let mut o = Obs::new();
    match r {
        Ok(v) => {
            o.n(0);
            o.0.extend_from_slice(v);
        }
        Err(e) => {
            o.n(1).n(e.line as u64);
        }
    }
    o.done();
}
