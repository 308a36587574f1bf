//! C11, C12, C14, C15, C16: trees, output layout, templates, frontmatter, metadata.
use crate::common::*;
use crate::refi::J;
use humphrey_json::Value;
use std::path::PathBuf;
use stuart_core::error::FsError;

// ---- trees ----
/// A flat tree: path and, for files, contents.
pub type Flat = Vec<(Vec<u8>, Option<Vec<u8>>)>;

pub fn file(name: &str, contents: &[u8], pc: ParsedContents, source: &str) -> Node {
    Node::File { name: name.to_string(), contents: contents.to_vec(), parsed_contents: pc, metadata: None, source: PathBuf::from(source) }
}
pub fn dir(name: &str, children: Vec<Node>, source: &str) -> Node {
    Node::Directory { name: name.to_string(), children, source: PathBuf::from(source) }
}
pub fn join(pre: &[u8], n: &[u8]) -> Vec<u8> {
    let mut p = pre.to_vec();
    if !p.is_empty() {
        p.push(b'/');
    }
    p.extend_from_slice(n);
    p
}
pub fn flatten(n: &Node, pre: &[u8], o: &mut Flat) {
    if let Some(c) = n.children() {
        for x in c {
            let p = join(pre, x.name().as_bytes());
            o.push((p.clone(), x.contents().map(|c| c.to_vec())));
            flatten(x, &p, o);
        }
    }
}
pub fn flat(n: &Node) -> Flat {
    let mut o = Vec::new();
    flatten(n, &[], &mut o);
    o
}
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}
/// The same entries, in any order.
pub fn same_flat(a: &Flat, b: &Flat) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (p, c) in a {
        let mut ok = false;
        for (q, d) in b {
            if same_bytes(p, q) {
                ok = match (c, d) {
                    (None, None) => true,
                    (Some(x), Some(y)) => same_bytes(x, y),
                    _ => false,
                };
                break;
            }
        }
        if !ok {
            return false;
        }
    }
    true
}
pub fn find<'a>(f: &'a Flat, p: &[u8]) -> Option<&'a Option<Vec<u8>>> {
    for (q, c) in f {
        if same_bytes(p, q) {
            return Some(c);
        }
    }
    None
}
/// What is on the disk below a directory.
pub fn disk(path: &str) -> Flat {
    let f = fs();
    f.tree(path).into_iter().map(|(p, k, i)| (p, if k == Kind::Dir { None } else { Some(f.nodes[i].data.clone()) })).collect()
}
pub fn obs_flat(f: &Flat) {
    let mut o = Obs::new();
    for (p, c) in f {
        o.n(p.len() as u64);
        o.0.extend_from_slice(p);
        if let Some(c) = c {
            o.n(c.len() as u64);
            o.0.extend_from_slice(c);
        }
    }
    o.done();
}

// ---- C11 ----
pub const NAMES: [&str; 3] = ["a", "b", "c.html"];
/// Every tree of up to `left` nodes of depth up to `depth`.
pub fn tree_gen(left: &mut usize, depth: usize, tag: u8, pre: &str, next: &mut u8) -> Vec<Node> {
    let mut v = Vec::new();
    for n in NAMES {
        if *left == 0 {
            break;
        }
        let src = format!("{}/{}", pre, n);
        match choose(if depth > 0 { 3 } else { 2 }) {
            0 => {}
            1 => {
                *left -= 1;
                *next += 1;
                v.push(file(n, &[tag, *next], ParsedContents::None, &src));
            }
            _ => {
                *left -= 1;
                let c = tree_gen(left, depth - 1, tag, &src, next);
                v.push(dir(n, c, &src));
            }
        }
    }
    if v.len() > 1 && flip() {
        v.reverse();
    }
    v
}
pub fn src_of(n: &Node, p: &[u8]) -> Option<PathBuf> {
    let s = unsafe { std::str::from_utf8_unchecked(p) };
    let mut cur = n;
    for part in s.split('/') {
        cur = cur.children()?.iter().find(|c| c.name() == part)?;
    }
    Some(cur.source().to_path_buf())
}
pub fn c11_merge(n: usize) {
    let (mut l1, mut l2) = (n, n);
    let a = dir("x", tree_gen(&mut l1, 1, b'A', "/in", &mut 0), "/in");
    let b = dir("y", tree_gen(&mut l2, 1, b'B', "/st", &mut 0), "/st");
    merge_on(a, b)
}
pub fn c11_deep(n: usize) {
    let (mut l1, mut l2) = (n, n);
    let wrap = |t: Vec<Node>, p: &str| dir("x", vec![dir("d", t, &format!("{}/d", p))], p);
    let a = wrap(tree_gen(&mut l1, 2, b'A', "/in/d", &mut 0), "/in");
    let b = wrap(tree_gen(&mut l2, 2, b'B', "/st/d", &mut 0), "/st");
    merge_on(a, b)
}
pub fn merge_on(mut a: Node, b: Node) {
    let (fa, fb) = (flat(&a), flat(&b));
    let (a0, b0) = (a.clone(), b.clone());
    let mut clash: Vec<Vec<u8>> = Vec::new();
    for (p, c) in &fa {
        if let Some(d) = find(&fb, p) {
            if c.is_some() || d.is_some() {
                clash.push(p.clone());
            }
        }
    }
    match a.merge(b) {
        Ok(()) => {
            let g = flat(&a);
            obs_flat(&g);
            check(clash.is_empty(), "a path that is a file in one tree and present in the other is not reported");
            let mut want = fa.clone();
            for (p, c) in fb {
                if find(&fa, &p).is_none() {
                    want.push((p, c));
                }
            }
            check(same_flat(&g, &want), "the merged tree does not hold exactly the files of both");
            cover("merged");
        }
        Err(Error::Fs(FsError::Conflict(p, q))) => {
            observe(p.to_string_lossy().as_bytes());
            observe(q.to_string_lossy().as_bytes());
            check(!clash.is_empty(), "trees without a common file conflict");
            let mut ok = false;
            for c in &clash {
                let (x, y) = (src_of(&a0, c), src_of(&b0, c));
                ok |= (x.as_ref() == Some(&p) && y.as_ref() == Some(&q)) || (x.as_ref() == Some(&q) && y.as_ref() == Some(&p));
            }
            check(ok, "the conflict does not name the two sources");
            cover("conflict");
        }
        Err(_) => fail("a conflict is reported as something else"),
    }
}
/// The same through the disk: a built page tree and a static tree.
pub fn c11_disk(_n: usize) {
    let names = ["a.html", "a", "b.md", "b.html", "s.css"];
    let stat = [flip(), flip(), flip(), flip(), flip()];
    let subd = flip();
    let page = b"{{ begin(\"m\") }}x{{ end(\"m\") }}";
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ $self.content }}{{ end(\"m\") }}"), ("a.html", page), ("b.md", b"t"), ("sub/a.html", page)]);
    let f = fs();
    f.put_dir("/w/static");
    for (i, n) in names.iter().enumerate() {
        if stat[i] {
            let p = if subd { format!("/w/static/sub/{}", n) } else { format!("/w/static/{}", n) };
            f.put(&p, &[b'0' + i as u8]);
        }
    }
    let mut s = match build() {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    let before = flat(s.output.as_ref().unwrap());
    let st = match Node::new("/w/static", false) {
        Ok(n) => n,
        Err(_) => fail("a static tree cannot be read"),
    };
    // the page of b.md is b.html
    let clash = if subd { stat[0] } else { stat[0] || stat[3] };
    match s.merge_output(st) {
        Ok(()) => {
            let g = flat(s.output.as_ref().unwrap());
            obs_flat(&g);
            check(!clash, "a static file with the name of a page is not reported");
            let mut want = before;
            for (i, n) in names.iter().enumerate() {
                if stat[i] {
                    want.push((if subd { format!("sub/{}", n) } else { n.to_string() }.into_bytes(), Some(vec![b'0' + i as u8])));
                }
            }
            check(same_flat(&g, &want), "the output does not hold exactly the pages and the static files");
            cover("merged");
        }
        Err(Error::Fs(FsError::Conflict(p, q))) => {
            observe(p.to_string_lossy().as_bytes());
            check(clash, "static files without a page of that name conflict");
            let ok = |a: &str, b: &str| p == Path::new(a) && q == Path::new(b);
            check(ok("/w/content/a.html", "/w/static/a.html") || ok("/w/content/b.md", "/w/static/b.html") || ok("/w/content/sub/a.html", "/w/static/sub/a.html"), "the conflict does not name the two sources");
            cover("conflict");
        }
        Err(_) => fail("a conflict is reported as something else"),
    }
}
/// Every path into a fixed tree.
pub fn c11_path(n: usize) {
    let t = dir(
        "x",
        vec![
            dir("a", vec![file("b", b"1", ParsedContents::None, "/a/b"), dir("a", vec![file("a", b"2", ParsedContents::None, "/a/a/a")], "/a/a"), file("ab", b"3", ParsedContents::None, "/a/ab")], "/a"),
            file("b", b"4", ParsedContents::None, "/b"),
            file("a.b", b"5", ParsedContents::None, "/a.b"),
            dir("bb", vec![], "/bb"),
        ],
        "/",
    );
    let p = text_in(n, b"ab./A");
    let got = t.get_at_path(Path::new(&p));
    let mut o = Obs::new();
    o.s(&got.map(|n| n.source().to_string_lossy().to_string()).unwrap_or_default());
    o.done();
    // the reference: components between slashes
    let b = p.as_bytes();
    let mut parts: Vec<Vec<u8>> = vec![vec![]];
    for c in b {
        if *c == b'/' {
            parts.push(vec![]);
        } else {
            parts.last_mut().unwrap().push(*c);
        }
    }
    let mut cur: Option<&Node> = Some(&t);
    let absolute = !b.is_empty() && b[0] == b'/';
    if absolute {
        cur = None;
    }
    for q in &parts {
        if q.is_empty() || (q.len() == 1 && q[0] == b'.') {
            continue;
        }
        if q.len() == 2 && q[0] == b'.' && q[1] == b'.' {
            cur = None;
            break;
        }
        cur = match cur {
            Some(Node::Directory { children, .. }) => {
                let mut r = None;
                for c in children {
                    if same_bytes(c.name().as_bytes(), q) {
                        r = Some(c);
                        break;
                    }
                }
                r
            }
            _ => None,
        };
    }
    match (got, cur) {
        (None, None) => cover("nothing"),
        (Some(g), Some(w)) => {
            check(g.source() == w.source(), "the lookup finds another node");
            cover("found");
        }
        (None, Some(_)) => fail("the lookup misses a node that is there"),
        (Some(_), None) => fail("the lookup finds a node that is not at the path"),
    }
}

entries! {
    c11_merge(n): h_c11_merge_3 = 3, h_c11_merge_4 = 4;
    c11_deep(n): h_c11_deep_2 = 2, h_c11_deep_3 = 3;
    c11_disk(n): h_c11_disk = 0;
    c11_path(n): h_c11_path_4 = 4, h_c11_path_6 = 6;
}

// ---- C12 ----
pub fn config() -> Config {
    Config { name: "n".into(), author: None, strip_extensions: flip(), save_data_files: flip(), save_metadata: false }
}
/// Where a file of the output tree goes: None if it is not saved. `page`: built (not static).
pub fn place(pre: &[u8], name: &[u8], page: bool, c: &Config) -> Option<Vec<u8>> {
    if name == b"root.html" || name == b"md.html" {
        return None;
    }
    let ends = |s: &[u8]| name.len() >= s.len() && &name[name.len() - s.len()..] == s;
    if ends(b".json") && !c.save_data_files {
        return None;
    }
    if c.strip_extensions && page && ends(b".html") && name != b"index.html" {
        let d = join(pre, &name[..name.len() - 5]);
        return Some(join(&d, b"index.html"));
    }
    Some(join(pre, name))
}
/// The directories above a path.
pub fn parents(p: &[u8]) -> Vec<Vec<u8>> {
    let mut o = Vec::new();
    for i in 0..p.len() {
        if p[i] == b'/' {
            o.push(p[..i].to_vec());
        }
    }
    o
}
/// Expected output; Err if two files meet.
pub fn expect(files: &[(Vec<u8>, Vec<u8>, Vec<u8>, bool)], dirs: &[Vec<u8>], c: &Config) -> Result<Flat, ()> {
    let mut o: Flat = dirs.iter().map(|d| (d.clone(), None)).collect();
    let mut bad = false;
    for (pre, name, data, page) in files {
        if let Some(p) = place(pre, name, *page, c) {
            for d in parents(&p) {
                match find(&o, &d) {
                    None => o.push((d, None)),
                    Some(None) => {}
                    Some(Some(_)) => bad = true,
                }
            }
            if find(&o, &p).is_some() {
                bad = true;
            }
            o.push((p, Some(data.clone())));
        }
    }
    if bad {
        Err(())
    } else {
        Ok(o)
    }
}
pub fn stale() {
    let f = fs();
    f.put("/w/keep/me", b"k");
    match choose(4) {
        0 => {}
        1 => {
            f.put_dir(OUT);
        }
        2 => {
            f.put("/w/dist/old.html", b"old");
            f.put("/w/dist/a/index.html", b"old");
            f.put("/w/dist/s/t/u", b"old");
        }
        _ => {
            f.put("/w/dist/a/index.html/deep", b"old");
            f.put_kind("/w/dist/link", Kind::Link, b"/w/keep");
            f.put("/w/dist/a.css", b"old");
        }
    }
}
pub fn compare_out(r: Result<(), Error>, want: Result<Flat, ()>) {
    match (r, want) {
        (Ok(()), Ok(w)) => {
            let g = disk(OUT);
            obs_flat(&g);
            for (p, c) in &w {
                match (c, find(&g, p)) {
                    (None, Some(None)) => {}
                    (Some(x), Some(Some(y))) => check(same_bytes(x, y), "a file of the output has other contents than it should"),
                    _ => fail("a file or directory is missing from the output"),
                }
            }
            check(g.len() == w.len(), "the output holds files that the site does not call for");
            check(fs().get("/w/keep/me") == Some(b"k"), "saving removes a file outside the output directory");
            cover("saved");
        }
        (Err(e), Err(())) => {
            observe(p_err(&e).1.as_bytes());
            cover("refused");
        }
        (Ok(()), Err(())) => fail("two files of the output end up in one place"),
        (Err(_), Ok(_)) => fail("saving a valid output fails"),
    }
}
/// One or two files with arbitrary names around the suffixes that matter, page or static.
pub fn one_name(n: usize) -> String {
    let a = text_in(n, b"ab.h-");
    match choose(5) {
        0 => format!("{}{}", a, pick(&[".html", ".json", ".htm", "html", ".css", ".html.html", ".jsonl", ".html.json", ".json.html"])),
        1 => format!("{}{}", pick(&["index", "root", "md", "roo", "m"]), pick(&[".html", ".htm", ".json", ".html.html"])),
        2 => format!("{}{}", pick(&["index", "root", "md"]), a),
        3 => format!("{}{}.html", a, pick(&["index", "root", "md", ".html"])),
        _ => a,
    }
}
pub fn c12_name(n: usize) {
    stale();
    let c = config();
    let name = one_name(n);
    let b = name.as_bytes();
    assume(!(b.len() == 1 && b[0] == b'.') && !(b.len() == 2 && b[0] == b'.' && b[1] == b'.'));
    // a name that is nothing but the suffix is left open
    assume(!(b.len() == 5 && b == b".html"));
    let page = flip();
    let sub = flip();
    let data = [byte(), byte()];
    let x = file(&name, &data, if page { ParsedContents::None } else { ParsedContents::Ignored }, "/src/x");
    fs().put_dir("/w");
    let (pre, t) = if sub { (&b"d"[..], dir("o", vec![dir("d", vec![x], "/src/d")], "/src")) } else { (&b""[..], dir("o", vec![x], "/src")) };
    // `..` after the suffix has been stripped would be another directory
    let strip = b.len() > 5 && &b[b.len() - 5..] == b".html";
    if strip {
        let s = &b[..b.len() - 5];
        assume(!(s.len() == 1 && s[0] == b'.') && !(s.len() == 2 && s[0] == b'.' && s[1] == b'.'));
    }
    let dirs: Vec<Vec<u8>> = if sub { vec![b"d".to_vec()] } else { vec![] };
    let want = expect(&[(pre.to_vec(), b.to_vec(), data.to_vec(), page)], &dirs, &c);
    fs().put_dir("/w");
    compare_out(t.save(OUT, &c), want)
}
/// Several files and directories whose output paths may meet.
pub const POOL: [(&str, bool); 9] = [("a.html", true), ("a.html", false), ("index.html", true), ("a", false), ("a.json", true), ("root.html", true), ("md.html", false), ("a.css", false), ("index.html", false)];
pub fn pool_gen(n: usize, depth: usize, pre: &[u8], files: &mut Vec<(Vec<u8>, Vec<u8>, Vec<u8>, bool)>, dirs: &mut Vec<Vec<u8>>, left: &mut usize) -> Vec<Node> {
    let mut v: Vec<Node> = Vec::new();
    for _ in 0..n {
        if *left == 0 {
            break;
        }
        let k = choose(POOL.len() + 1 + if depth > 0 { 2 } else { 0 });
        if k == 0 {
            break;
        }
        *left -= 1;
        if k > POOL.len() {
            let nm = if k == POOL.len() + 1 { "a" } else { "b" };
            // a directory has a name of its own
            assume(!v.iter().any(|x| x.name() == nm));
            let p = join(pre, nm.as_bytes());
            dirs.push(p.clone());
            let c = pool_gen(2, depth - 1, &p, files, dirs, left);
            v.push(dir(nm, c, "/src/d"));
        } else {
            let (nm, page) = POOL[k - 1];
            assume(!v.iter().any(|x| x.is_dir() && x.name() == nm));
            let data = vec![b'0' + files.len() as u8];
            files.push((pre.to_vec(), nm.as_bytes().to_vec(), data.clone(), page));
            v.push(file(nm, &data, if page { ParsedContents::None } else { ParsedContents::Ignored }, "/src/f"));
        }
    }
    v
}
pub fn c12_meet(n: usize) {
    let c = config();
    let (mut files, mut dirs, mut left) = (vec![], vec![], n);
    let v = pool_gen(n, 1, b"", &mut files, &mut dirs, &mut left);
    fs().put_dir("/w");
    fs().put("/w/keep/me", b"k");
    // directories are only created, so a file in their place may come before or after them
    let want = match expect(&files, &[], &c) {
        Err(()) => Err(()),
        Ok(mut w) => {
            let mut bad = false;
            for d in &dirs {
                match find(&w, d) {
                    None => w.push((d.clone(), None)),
                    Some(None) => {}
                    Some(Some(_)) => bad = true,
                }
            }
            if bad {
                Err(())
            } else {
                Ok(w)
            }
        }
    };
    compare_out(dir("o", v, "/src").save(OUT, &c), want)
}
/// A whole site on the disk: build, merge the static files, save.
pub fn c12_site(_n: usize) {
    let c = config();
    stale();
    fs().rev = flip();
    let page = |t: &str| format!("{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}", t);
    let raw = [byte(), byte()];
    let mut files: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, bool)> = Vec::new();
    let mut put: Vec<(String, Vec<u8>)> = vec![("root.html".into(), b"<{{ insert(\"m\") }}>".to_vec()), ("md.html".into(), page("M{{ $self.t }}").into_bytes())];
    // (source, text, directory, name in the output, output)
    let all: [(&str, Vec<u8>, &str, &str, Vec<u8>); 5] = [
        ("index.html", page("i").into_bytes(), "", "index.html", b"<i>".to_vec()),
        ("p.html", page("p").into_bytes(), "", "p.html", b"<p>".to_vec()),
        ("sub/q.md", b"---\nt: \"q\"\n---\nx".to_vec(), "sub", "q.html", b"(Sq)".to_vec()),
        ("sub/d.json", b" [1] ".to_vec(), "sub", "d.json", b" [1] ".to_vec()),
        ("raw.bin", raw.to_vec(), "", "raw.bin", raw.to_vec()),
    ];
    for (p, src, pre, name, out) in all {
        if flip() {
            if name == "q.html" {
                put.push(("sub/root.html".into(), b"({{ insert(\"m\") }})".to_vec()));
                put.push(("sub/md.html".into(), page("S{{ $self.t }}").into_bytes()));
            }
            put.push((p.to_string(), src));
            files.push((pre.as_bytes().to_vec(), name.as_bytes().to_vec(), out, true));
        }
    }
    let fl: Vec<(&str, &[u8])> = put.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
    site(&fl);
    let f = fs();
    f.put_dir("/w/static/empty");
    if flip() {
        f.put("/w/static/sub/s.html", &raw);
        files.push((b"sub".to_vec(), b"s.html".to_vec(), raw.to_vec(), false));
    }
    let mut dirs = vec![b"empty".to_vec()];
    if f.is_dir("/w/content/sub") {
        dirs.push(b"sub".to_vec());
    }
    let want = expect(&files, &dirs, &c);
    let mut s = match build_with(c) {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    let r = Node::new("/w/static", false).and_then(|n| s.merge_output(n)).and_then(|()| s.save(OUT));
    compare_out(r, want)
}
entries! {
    c12_name(n): h_c12_name_2 = 2, h_c12_name_3 = 3;
    c12_meet(n): h_c12_meet_2 = 2, h_c12_meet_3 = 3;
    c12_site(n): h_c12_site = 0;
}

// ---- C14 ----
/// Directories /, a, a/b; each may have templates and pages.
pub fn c14_nearest(_n: usize) {
    let dirs = ["", "a", "a/b"];
    let mut put: Vec<(String, Vec<u8>)> = Vec::new();
    let p = |d: &str, n: &str| if d.is_empty() { n.to_string() } else { format!("{}/{}", d, n) };
    let mut root = [false; 3];
    let mut md = [false; 3];
    for i in 0..3 {
        root[i] = flip();
        md[i] = flip();
        if root[i] {
            put.push((p(dirs[i], "root.html"), format!("R{}({{{{ insert(\"m\") }}}})", i).into_bytes()));
        }
        if md[i] {
            put.push((p(dirs[i], "md.html"), format!("{{{{ begin(\"m\") }}}}M{}({{{{ $self.t }}}}){{{{ end(\"m\") }}}}", i).into_bytes()));
        }
    }
    let at = choose(3);
    let is_md = flip();
    let t = text_in(1, b"abc");
    let name = if is_md { "p.md" } else { "p.html" };
    if is_md {
        put.push((p(dirs[at], name), format!("---\nt: \"{}\"\n---\n", t).into_bytes()));
    } else {
        put.push((p(dirs[at], name), format!("{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}", t).into_bytes()));
    }
    fs().rev = flip();
    let fl: Vec<(&str, &[u8])> = put.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
    site(&fl);
    // a sibling directory with templates of its own
    if flip() {
        fs().put("/w/content/a/c/root.html", b"Rx");
        fs().put("/w/content/a/c/md.html", b"Mx");
        fs().put("/w/content/z/root.html", b"Rx");
    }
    let near = |v: &[bool; 3]| (0..=at).rev().find(|i| v[*i]);
    let want = match (near(&root), near(&md)) {
        (None, _) => None,
        (Some(r), _) if !is_md => Some(format!("R{}({})", r, t)),
        (Some(_), None) => None,
        (Some(r), Some(m)) => Some(format!("R{}(M{}({}))", r, m, t)),
    };
    match (build(), want) {
        (Ok(s), Some(w)) => match page(&s, &p(dirs[at], "p.html")) {
            Some(g) => {
                observe(&g);
                eq(&g, w.as_bytes(), "the page is not rendered with the nearest templates");
                cover("rendered");
            }
            None => fail("the page is missing from the output"),
        },
        (Err(Error::Process(e)), None) => {
            observe(e.path.to_string_lossy().as_bytes());
            check(matches!(e.kind, stuart_core::process::ProcessError::MissingHtmlRoot | stuart_core::process::ProcessError::MissingMarkdownRoot), "a missing template is reported as something else");
            cover("error");
        }
        (Ok(_), None) => fail("a page without a template is accepted"),
        (Err(_), Some(_)) => fail("a page with templates is rejected"),
        (Err(_), None) => fail("a missing template is reported as something else"),
    }
}
/// A page among siblings that define sections, import files, loop and read $self.
pub fn c14_sibling(n: usize) {
    let kinds: [(&str, &str); 7] = [
        ("html", "{{ begin(\"m\") }}S{{ import($v, \"d.json\") }}{{ $v.s }}{{ end(\"m\") }}{{ begin(\"x\") }}X{{ end(\"x\") }}"),
        ("html", "{{ import($w, \"d.json\") }}{{ begin(\"m\") }}{{ for($i, $w.l) }}{{ $i }}{{ end(for) }}{{ end(\"m\") }}"),
        ("md", "---\nt: \"sib\"\nu: \"U\"\n---\n{{ import($v, \"d.json\") }}*S*"),
        ("md", "plain"),
        ("html", "{{ begin(\"m\") }}{{ end(\"m\") }}"),
        ("json", "{\"s\": \"other\"}"),
        ("css", "{{ $v }}"),
    ];
    let me: [(&str, &str, &str); 5] = [
        ("html", "{{ begin(\"m\") }}{{ import($v, \"d.json\") }}{{ $v.s }}{{ ifdefined($w) }}W{{ end(ifdefined) }}{{ end(\"m\") }}", "[q|]"),
        ("md", "---\nt: \"me\"\n---\n", "[me|]"),
        ("html", "{{ begin(\"m\") }}{{ ifdefined($self) }}S{{ else() }}-{{ end(ifdefined) }}{{ ifdefined($v) }}V{{ end(ifdefined) }}{{ end(\"m\") }}", "[-|]"),
        ("html", "{{ begin(\"m\") }}1{{ end(\"m\") }}{{ begin(\"y\") }}2{{ end(\"y\") }}", "[1|]"),
        ("html", "{{ begin(\"n\") }}1{{ end(\"n\") }}", ""),
    ];
    let (ext, text, want) = me[choose(me.len())];
    fs().rev = flip();
    let mut put: Vec<(String, &str)> = vec![
        ("root.html".into(), "[{{ insert(\"m\") }}|{{ ifdefined($v) }}V{{ end(ifdefined) }}{{ ifdefined($self) }}S{{ end(ifdefined) }}{{ ifdefined($w) }}W{{ end(ifdefined) }}]"),
        ("md.html".into(), "{{ begin(\"m\") }}{{ ifdefined($self.t) }}{{ $self.t }}{{ else() }}?{{ end(ifdefined) }}{{ ifdefined($self.u) }}U{{ end(ifdefined) }}{{ end(\"m\") }}"),
        ("d.json".into(), "{\"s\": \"q\", \"l\": [\"1\", \"2\"]}"),
    ];
    let me_at = choose(n + 1);
    for i in 0..=n {
        if i == me_at {
            put.push((format!("p.{}", ext), text));
        }
        if i < n {
            let k = choose(kinds.len() + 1);
            if k > 0 {
                put.push((format!("{}{}.{}", if flip() { "sub/" } else { "" }, i, kinds[k - 1].0), kinds[k - 1].1));
            }
        }
    }
    let fl: Vec<(&str, &[u8])> = put.iter().map(|(a, b)| (a.as_str(), b.as_bytes())).collect();
    site(&fl);
    let r = build();
    if want.is_empty() {
        match r {
            Err(Error::Process(e)) => {
                check(e.path == Path::new("/w/content/root.html"), "the missing section is reported for another file");
                cover("error");
            }
            Err(_) => fail("a missing section is reported as something else"),
            Ok(_) => fail("the section of a sibling is inserted"),
        }
        return;
    }
    match r {
        Ok(s) => match page(&s, "p.html") {
            Some(g) => {
                observe(&g);
                eq(&g, want.as_bytes(), "the page depends on its siblings");
                cover("rendered");
            }
            None => fail("the page is missing from the output"),
        },
        Err(_) => fail("a page is rejected because of its siblings"),
    }
}
entries! {
    c14_nearest(n): h_c14_nearest = 0;
    c14_sibling(n): h_c14_sibling_2 = 2, h_c14_sibling_3 = 3;
}

// ---- C15 ----
pub struct Front {
    pub pairs: Vec<(String, String)>,
    pub body: Vec<u8>,
}
/// Lines without their ends (`\n` or `\r\n`).
pub fn lines(t: &[u8]) -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = Vec::new();
    let mut cur = Vec::new();
    for c in t {
        if *c == b'\n' {
            if cur.last() == Some(&b'\r') {
                cur.pop();
            }
            o.push(std::mem::take(&mut cur));
        } else {
            cur.push(*c);
        }
    }
    if !cur.is_empty() {
        o.push(cur);
    }
    o
}
pub fn blank(c: u8) -> bool {
    c == b' ' || (9..=13).contains(&c)
}
pub fn trim(mut t: &[u8]) -> &[u8] {
    while !t.is_empty() && blank(t[0]) {
        t = &t[1..];
    }
    while !t.is_empty() && blank(t[t.len() - 1]) {
        t = &t[..t.len() - 1];
    }
    t
}
pub fn starts(t: &[u8], s: &[u8]) -> bool {
    t.len() >= s.len() && &t[..s.len()] == s
}
/// None: left open. Some(None): an error.
pub fn ref_front(t: &[u8]) -> Option<Option<Front>> {
    let ls = lines(t);
    let body = |from: usize| {
        let mut b = Vec::new();
        for (i, l) in ls.iter().enumerate().skip(from) {
            if i > from {
                b.push(b'\n');
            }
            b.extend_from_slice(l);
        }
        b
    };
    if !(starts(t, b"---\n") || starts(t, b"---\r\n")) {
        // a file that is nothing but the dashes, or whose dashes have company, is left open
        if starts(t, b"---") {
            return None;
        }
        return Some(Some(Front { pairs: vec![], body: body(0) }));
    }
    let mut pairs = Vec::new();
    let mut bad = false;
    for (i, l) in ls.iter().enumerate().skip(1) {
        if starts(l, b"---") {
            if l.len() > 3 {
                return None;
            }
            if bad {
                return Some(None);
            }
            return Some(Some(Front { pairs, body: body(i + 1) }));
        }
        match l.iter().position(|c| *c == b':') {
            None => bad = true,
            Some(k) => {
                let (key, v) = (trim(&l[..k]), trim(&l[k + 1..]));
                if v.len() < 2 || v[0] != b'"' || v[v.len() - 1] != b'"' {
                    bad = true;
                } else {
                    let s = |b: &[u8]| unsafe { String::from_utf8_unchecked(b.to_vec()) };
                    pairs.push((s(key), s(&v[1..v.len() - 1])));
                }
            }
        }
    }
    Some(None)
}
pub fn front_on(t: Vec<u8>) {
    let want = ref_front(&t);
    let r = parse_markdown(unsafe { String::from_utf8_unchecked(t) }, Path::new("/w/p.md"), None);
    front_judge(r, want)
}
pub fn front_judge(r: Result<ParsedMarkdown, TracebackError<ParseError>>, want: Option<Option<Front>>) {
    let got = match r {
        Ok(m) => {
            let fields = match m.frontmatter_to_value() {
                Value::Object(f) => f,
                _ => fail("the frontmatter is no object"),
            };
            let body = match m.to_value().get("markdown") {
                Some(Value::String(s)) => s.clone(),
                _ => fail("the body is no string"),
            };
            Some((fields, body))
        }
        Err(e) => {
            let mut o = Obs::new();
            o.n(1).n(e.line as u64);
            o.done();
            None
        }
    };
    if let Some((f, b)) = &got {
        let mut o = Obs::new();
        o.n(0).s(b);
        for (k, v) in f {
            o.s(k);
            if let Value::String(v) = v {
                o.s(v);
            }
        }
        o.done();
    }
    match (got, want) {
        (_, None) => cover("open"),
        (None, Some(None)) => cover("error"),
        (Some(_), Some(None)) => fail("malformed frontmatter is accepted"),
        (None, Some(Some(_))) => fail("well-formed frontmatter is rejected"),
        (Some((f, b)), Some(Some(w))) => {
            check(f.len() == w.pairs.len(), "the number of frontmatter fields is wrong");
            for ((k, v), (wk, wv)) in f.iter().zip(&w.pairs) {
                eq(k.as_bytes(), wk.as_bytes(), "a frontmatter key is not what is written");
                match v {
                    Value::String(v) => eq(v.as_bytes(), wv.as_bytes(), "a frontmatter value is not what is written"),
                    _ => fail("a frontmatter value is no string"),
                }
            }
            eq(b.as_bytes(), &w.body, "the body is not the rest of the file");
            cover("parsed");
        }
    }
}
pub fn c15_free(n: usize) {
    let mut t = pick(&["---\n", "---\r\n", "--", "", " ---\n", "---\na: \"b\"\n"]).as_bytes().to_vec();
    t.extend_from_slice(text_in(n, b"k:\" -\n\r").as_bytes());
    if flip() {
        t.extend_from_slice(b"\n---\nx");
    }
    front_on(t)
}
/// One pair: arbitrary 7-bit characters in key, value and around them.
pub fn c15_pair(n: usize) {
    let mut t = b"---\n".to_vec();
    let mut part = |pre: &str, k: usize, post: &str| {
        t.extend_from_slice(pre.as_bytes());
        for _ in 0..k {
            let b = byte();
            assume(b < 128 && b != b'\n');
            t.push(b);
        }
        t.extend_from_slice(post.as_bytes());
    };
    match choose(4) {
        0 => part("k: \"", n, "\"\n"),
        1 => part("k", n, ": \"v\"\n"),
        2 => part("k:", n, "\"v\"\n"),
        _ => part("k: \"v\"", n, "\n"),
    }
    t.extend_from_slice(b"l: \"2\"\n---\nbody\n");
    front_on(t)
}
pub fn c15_utf8(n: usize) {
    let mut t = b"---\nk: \"".to_vec();
    let v = utf8(n);
    for b in v.bytes() {
        assume(b != b'\n' && b != b'\r');
    }
    t.extend_from_slice(v.as_bytes());
    t.extend_from_slice(b"\"\n---\n");
    t.extend_from_slice(v.as_bytes());
    front_on_braces(t)
}
pub fn front_on_braces(t: Vec<u8>) {
    // tags and escapes of the body are another matter
    for i in 1..t.len() {
        assume(!((t[i] == b'{' && t[i - 1] == b'{') || (t[i] == b'}' && t[i - 1] == b'}')));
    }
    front_on(t)
}
/// Several lines of every kind.
pub fn c15_lines(n: usize) {
    let mut t = pick(&["---\n", "---\r\n", ""]).as_bytes().to_vec();
    for _ in 0..n {
        let c = byte_in(b"ab");
        match choose(10) {
            0 => break,
            1 => {
                t.push(c);
                t.extend_from_slice(b": \"1\"\n");
            }
            2 => {
                t.extend_from_slice(b"  a  :  \"x: \\\"");
                t.push(c);
                t.extend_from_slice(b"\"\"  \r\n");
            }
            3 => t.extend_from_slice(b"---\n"),
            4 => t.extend_from_slice(b"---\r\n"),
            5 => t.extend_from_slice(b"\n"),
            6 => t.extend_from_slice(b"a \"b\"\n"),
            7 => t.extend_from_slice(b"a: b\n"),
            8 => t.extend_from_slice(b"a:\"\"\n"),
            _ => t.extend_from_slice(b": \"\"\n"),
        }
    }
    if flip() {
        t.extend_from_slice(b"---");
    }
    front_on(t)
}
/// The fields reach the page.
pub fn c15_page(n: usize) {
    let v = text_in(n, b"ab:\"-{\\ ");
    for i in 1..n {
        assume(!(v.as_bytes()[i] == b'{' && v.as_bytes()[i - 1] == b'{'));
    }
    let md = format!("---\nt: \"{}\"\nu v: \"2\"\nt: \"3\"\n---\nbody", v);
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ $self.t }}|{{ ifdefined($self.x) }}x{{ end(ifdefined) }}{{ ifdefined($self.u) }}u{{ end(ifdefined) }}{{ end(\"m\") }}"), ("p.md", md.as_bytes())]);
    match build() {
        Ok(s) => match page(&s, "p.html") {
            Some(g) => {
                observe(&g);
                eq(&g, format!("{}|", v).as_bytes(), "a field of the page is not what the frontmatter says");
                cover("page");
            }
            None => fail("the page is missing from the output"),
        },
        Err(_) => fail("a page with valid frontmatter is rejected"),
    }
}
entries! {
    c15_free(n): h_c15_free_5 = 5, h_c15_free_7 = 7;
    c15_pair(n): h_c15_pair_3 = 3, h_c15_pair_4 = 4;
    c15_utf8(n): h_c15_utf8_4 = 4, h_c15_utf8_6 = 6;
    c15_lines(n): h_c15_lines_3 = 3, h_c15_lines_5 = 5;
    c15_page(n): h_c15_page_3 = 3, h_c15_page_5 = 5;
}

// ---- C16 ----
/// A strict JSON reader.
struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn peek(&self) -> u8 {
        if self.1 < self.0.len() {
            self.0[self.1]
        } else {
            0
        }
    }
    fn ws(&mut self) {
        while self.1 < self.0.len() && matches!(self.0[self.1], b' ' | b'\t' | b'\n' | b'\r') {
            self.1 += 1;
        }
    }
    fn lit(&mut self, s: &[u8]) -> Option<()> {
        if self.0.len() - self.1 >= s.len() && &self.0[self.1..self.1 + s.len()] == s {
            self.1 += s.len();
            Some(())
        } else {
            None
        }
    }
    fn hex(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let c = self.peek();
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            v = v * 16 + d as u32;
            self.1 += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<String> {
        self.lit(b"\"")?;
        let mut o: Vec<u8> = Vec::new();
        loop {
            if self.1 >= self.0.len() {
                return None;
            }
            let c = self.peek();
            self.1 += 1;
            if c == b'"' {
                return String::from_utf8(o).ok();
            }
            if c < 0x20 {
                return None;
            }
            if c != b'\\' {
                o.push(c);
                continue;
            }
            let e = self.peek();
            self.1 += 1;
            match e {
                b'"' | b'\\' | b'/' => o.push(e),
                b'b' => o.push(8),
                b'f' => o.push(12),
                b'n' => o.push(10),
                b'r' => o.push(13),
                b't' => o.push(9),
                b'u' => {
                    let mut v = self.hex()?;
                    if (0xd800..0xdc00).contains(&v) {
                        self.lit(b"\\u")?;
                        let w = self.hex()?;
                        if !(0xdc00..0xe000).contains(&w) {
                            return None;
                        }
                        v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                    }
                    let ch = char::from_u32(v)?;
                    let mut b = [0; 4];
                    o.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                _ => return None,
            }
        }
    }
    fn value(&mut self, depth: usize) -> Option<J> {
        if depth == 0 {
            return None;
        }
        self.ws();
        let r = match self.peek() {
            b'"' => J::Str(self.string()?),
            b'[' => {
                self.1 += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == b']' {
                    self.1 += 1;
                } else {
                    loop {
                        v.push(self.value(depth - 1)?);
                        if self.peek() == b',' {
                            self.1 += 1;
                            continue;
                        }
                        self.lit(b"]")?;
                        break;
                    }
                }
                J::Arr(v)
            }
            b'{' => {
                self.1 += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.1 += 1;
                } else {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.lit(b":")?;
                        v.push((k, self.value(depth - 1)?));
                        if self.peek() == b',' {
                            self.1 += 1;
                            continue;
                        }
                        self.lit(b"}")?;
                        break;
                    }
                }
                J::Obj(v)
            }
            b't' => {
                self.lit(b"true")?;
                J::Bool(true)
            }
            b'f' => {
                self.lit(b"false")?;
                J::Bool(false)
            }
            b'n' => {
                self.lit(b"null")?;
                J::Null
            }
            _ => {
                let from = self.1;
                while matches!(self.peek(), b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                    self.1 += 1;
                }
                let t = std::str::from_utf8(&self.0[from..self.1]).ok()?;
                let b = t.as_bytes();
                let d = if b.first() == Some(&b'-') { 1 } else { 0 };
                if b.len() <= d || !b[d].is_ascii_digit() {
                    return None;
                }
                J::Num(t.parse().ok()?)
            }
        };
        self.ws();
        Some(r)
    }
}
pub fn read_json(t: &[u8]) -> Option<J> {
    let mut r = Rd(t, 0);
    let v = r.value(200)?;
    if r.1 == t.len() {
        Some(v)
    } else {
        None
    }
}
/// Equal, the fields of objects in any order but each once.
pub fn same_j(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Str(x), J::Str(y)) => x.len() == y.len() && x.as_bytes() == y.as_bytes(),
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_j(p, q)),
        (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k.len() == l.len() && k.as_bytes() == l.as_bytes() && same_j(v, w))),
        _ => a == b,
    }
}
pub fn o(f: &[(&str, J)]) -> J {
    crate::refi::obj(f)
}
pub fn s(t: &str) -> J {
    J::Str(t.to_string())
}
pub const META: &str = "/w/metadata.json";
pub fn meta_of(st: &Stuart) -> J {
    match st.save_metadata(META) {
        Ok(()) => {}
        Err(_) => fail("saving the metadata fails"),
    }
    let t = match fs().get(META) {
        Some(t) => t.to_vec(),
        None => fail("no metadata is written"),
    };
    observe(&t);
    match read_json(&t) {
        Some(j) => j,
        None => fail("the metadata is not valid JSON"),
    }
}
/// Arbitrary name and author.
pub fn c16_name(n: usize) {
    site(&[]);
    let a = flip();
    let name = utf8(n);
    let author = if a { Some(utf8(n)) } else { None };
    let cfg = Config { name: name.clone(), author: author.clone(), strip_extensions: flip(), save_data_files: flip(), save_metadata: true };
    let st = match build_with(cfg) {
        Ok(s) => s,
        Err(_) => fail("an empty site is rejected"),
    };
    let g = meta_of(&st);
    let w = o(&[("name", J::Str(name)), ("author", author.map(J::Str).unwrap_or(J::Null)), ("data", J::Arr(vec![]))]);
    check(same_j(&g, &w), "the metadata does not describe the project");
    cover("metadata");
}
/// Frontmatter, JSON values and file names with characters that need escapes.
pub fn c16_text(n: usize) {
    let v = uni(n);
    for b in v.bytes() {
        assume(b != b'\n' && b != b'\r');
    }
    let k = choose(3);
    let md = if k == 0 { format!("---\nt: \"{}\"\nname: \"x\"\n---\n", v) } else { String::new() };
    let jt = if k == 1 {
        let mut t = String::from("{\"k\": \"");
        for c in v.chars() {
            match c {
                '"' => t.push_str("\\\""),
                '\\' => t.push_str("\\\\"),
                c if (c as u32) < 0x20 => {
                    t.push_str(match c {
                        '\t' => "\\t",
                        '\u{8}' => "\\b",
                        '\u{c}' => "\\f",
                        _ => {
                            assume(false);
                            ""
                        }
                    });
                }
                c => t.push(c),
            }
        }
        t.push_str("\"}");
        t
    } else {
        String::new()
    };
    let nm = if k == 2 {
        for b in v.bytes() {
            assume(b != b'/' && b != 0);
        }
        format!("f{}.css", v)
    } else {
        String::new()
    };
    let mut files: Vec<(&str, &[u8])> = vec![("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ end(\"m\") }}")];
    let rootj = |n: &str| o(&[("name", s(n)), ("type", s("file"))]);
    let last = match k {
        0 => {
            files.push(("p.md", md.as_bytes()));
            o(&[("name", s("p.html")), ("type", s("markdown")), ("value", o(&[("t", J::Str(v.clone())), ("name", s("x"))]))])
        }
        1 => {
            files.push(("d.json", jt.as_bytes()));
            o(&[("name", s("d.json")), ("type", s("json")), ("value", o(&[("k", J::Str(v.clone()))]))])
        }
        _ => {
            files.push((&nm, b"c"));
            rootj(&nm)
        }
    };
    site(&files);
    let cfg = Config { name: "n".into(), author: None, strip_extensions: true, save_data_files: false, save_metadata: true };
    let st = match build_with(cfg) {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    let g = meta_of(&st);
    let w = o(&[("name", s("n")), ("author", J::Null), ("data", J::Arr(vec![rootj("root.html"), rootj("md.html"), last]))]);
    check(same_j(&g, &w), "the metadata does not describe the output tree");
    cover(["markdown", "json", "name"][k]);
}
/// Trees of every shape, with static files merged in.
pub fn c16_tree(n: usize) {
    let mut left = n;
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ end(\"m\") }}")]);
    let mut want = vec![o(&[("name", s("root.html")), ("type", s("file"))]), o(&[("name", s("md.html")), ("type", s("file"))])];
    want.extend(meta_gen(&mut left, 2, ""));
    let on = flip();
    let cfg = Config { name: "n".into(), author: Some("a".into()), strip_extensions: flip(), save_data_files: flip(), save_metadata: on };
    let mut st = match build_with(cfg) {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    if flip() {
        fs().put("/w/static/sdir/x.json", b"[]");
        fs().put("/w/static/y.md", b"");
        if Node::new("/w/static", false).and_then(|n| st.merge_output(n)).is_err() {
            fail("static files cannot be merged");
        }
        want.push(o(&[("type", s("directory")), ("name", s("sdir")), ("children", J::Arr(vec![o(&[("name", s("x.json")), ("type", s("file"))])]))]));
        want.push(o(&[("name", s("y.md")), ("type", s("file"))]));
    }
    if !on {
        check(st.save_metadata(META).is_err(), "metadata is saved although it is switched off");
        check(!fs().exists(META), "metadata is written although it is switched off");
        cover("off");
        return;
    }
    let g = meta_of(&st);
    let w = o(&[("name", s("n")), ("author", s("a")), ("data", J::Arr(want))]);
    check(same_j(&g, &w), "the metadata does not describe the output tree");
    cover("tree");
}
pub fn meta_gen(left: &mut usize, depth: usize, pre: &str) -> Vec<J> {
    let mut v = Vec::new();
    let mut i = 0;
    while *left > 0 {
        let k = choose(if depth > 0 { 7 } else { 6 });
        if k == 0 {
            break;
        }
        *left -= 1;
        i += 1;
        let add = |n: String, c: &[u8]| {
            fs().put(&format!("/w/content/{}{}", pre, n), c);
        };
        match k {
            1 => {
                add(format!("{}.html", i), b"{{ begin(\"m\") }}{{ end(\"m\") }}");
                v.push(o(&[("name", s(&format!("{}.html", i))), ("type", s("file"))]));
            }
            2 => {
                add(format!("{}.md", i), b"---\na: \"1\"\ntype: \"2\"\n---\nx");
                v.push(o(&[("name", s(&format!("{}.html", i))), ("type", s("markdown")), ("value", o(&[("a", s("1")), ("type", s("2"))]))]));
            }
            3 => {
                add(format!("{}.md", i), b"no front");
                v.push(o(&[("name", s(&format!("{}.html", i))), ("type", s("markdown")), ("value", J::Obj(vec![]))]));
            }
            4 => {
                add(format!("{}.json", i), b"[1, -2.5, {\"k\": [null, true, \"s\"]}, false, \"\"]");
                let val = J::Arr(vec![J::Num(1.0), J::Num(-2.5), o(&[("k", J::Arr(vec![J::Null, J::Bool(true), s("s")]))]), J::Bool(false), s("")]);
                v.push(o(&[("name", s(&format!("{}.json", i))), ("type", s("json")), ("value", val)]));
            }
            5 => {
                add(format!("{}.css", i), b"x");
                v.push(o(&[("name", s(&format!("{}.css", i))), ("type", s("file"))]));
            }
            _ => {
                let p = format!("{}d{}/", pre, i);
                fs().put_dir(&format!("/w/content/{}", p));
                let c = meta_gen(left, depth - 1, &p);
                v.push(o(&[("type", s("directory")), ("name", s(&format!("d{}", i))), ("children", J::Arr(c))]));
            }
        }
    }
    v
}
/// Numbers at the limits of what a JSON number and a 64-bit float can hold.
pub fn c16_number(n: usize) {
    let t = match choose(2) {
        0 => {
            let e = [308, 309, 323, 324, 325, 999, 0, 21, 17][choose(9)];
            format!("{}{}e{}{}", pick(&["", "-"]), pick(&["1", "1.7976931348623157", "1.8", "4.9", "0"]), pick(&["", "-"]), e)
        }
        _ => pick(&["0", "-0", "0.1", "123456789012345678", "1e2", "1.5E+3", "NaN", "inf", "-inf", "nan", "infinity", "[1, [inf]]", "{\"a\": -NaN}", "5e-324"]).to_string(),
    };
    let _ = n;
    site(&[("d.json", t.as_bytes())]);
    let cfg = Config { name: "n".into(), author: None, strip_extensions: true, save_data_files: false, save_metadata: true };
    match build_with(cfg) {
        Ok(st) => {
            let g = meta_of(&st);
            let v = match read_json(t.as_bytes()) {
                Some(v) => v,
                None => return cover("lenient"),
            };
            let w = o(&[("name", s("n")), ("author", J::Null), ("data", J::Arr(vec![o(&[("name", s("d.json")), ("type", s("json")), ("value", v)])]))]);
            check(same_j(&g, &w), "the metadata does not hold the value of the file");
            cover("number");
        }
        Err(e) => {
            observe(p_err(&e).1.as_bytes());
            // beyond the range of a 64-bit float, or no JSON at all
            check(read_json(t.as_bytes()).map_or(true, |v| matches!(v, J::Num(x) if x.is_infinite())), "a JSON number is rejected");
            cover("rejected");
        }
    }
}
entries! {
    c16_number(n): h_c16_number = 0;
    c16_name(n): h_c16_name_2 = 2, h_c16_name_4 = 4;
    c16_text(n): h_c16_text_1 = 1, h_c16_text_2 = 2;
    c16_tree(n): h_c16_tree_2 = 2, h_c16_tree_3 = 3;
}
