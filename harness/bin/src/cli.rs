//! C18 (manifest), C22 (clean).
use crate::hcommon::*;

// ---- C18 ----
/// Every subset and value of the settings, in any position.
fn c18_settings(_n: usize) {
    let mut t = String::new();
    let mut set = String::new();
    let mut want = [true, false, false];
    let names = ["strip_extensions", "save_data_files", "save_metadata"];
    let present = choose(8);
    let swap = flip();
    for i in 0..3 {
        let i = if swap { 2 - i } else { i };
        if present >> i & 1 == 1 {
            let v = flip();
            want[i] = v;
            set.push_str(&format!("{} = {}\n", names[i], v));
        }
    }
    let author = flip();
    let site = format!("[site]\nname = \"N\"\n{}", if author { "author = \"A\"\n" } else { "" });
    let sec = if present != 0 || flip() { format!("[settings]\n{}", set) } else { String::new() };
    if flip() {
        t.push_str(&sec);
        t.push_str(&site);
    } else {
        t.push_str(&site);
        t.push_str(&sec);
    }
    match crate::config::load(&t) {
        Ok(raw) => {
            let c: Config = raw.into();
            eq(c.name.as_bytes(), b"N", "the name of the site differs");
            check(c.author.as_deref() == if author { Some("A") } else { None }, "the author of the site differs");
            check(c.strip_extensions == want[0], "strip_extensions differs from the manifest or its default");
            check(c.save_data_files == want[1], "save_data_files differs from the manifest or its default");
            check(c.save_metadata == want[2], "save_metadata differs from the manifest or its default");
            cover("loaded");
        }
        Err(_) => fail("a valid manifest is rejected"),
    }
}
/// A TOML string and what it denotes, in one of the notations.
fn toml_string(n: usize) -> (String, String) {
    let n = choose(n + 1);
    match choose(5) {
        0 => {
            let t = utf8(n);
            assume(t.bytes().all(|b| b != b'"' && b != b'\\' && b >= 32 && b != 127));
            (format!("\"{}\"", t), t)
        }
        1 => {
            let t = utf8(n);
            assume(t.bytes().all(|b| b != b'\'' && b >= 32 && b != 127));
            (format!("'{}'", t), t)
        }
        2 => {
            let (a, b) = pick(&[("\\\"", "\""), ("\\\\", "\\"), ("\\n", "\n"), ("\\t", "\t"), ("\\u00e9", "\u{e9}"), ("\\U0001f600", "\u{1f600}"), ("\\b", "\u{8}")]);
            let t = text_in(n, b"ab #=[]'");
            (format!("\"{}{}\"", t, a), format!("{}{}", t, b))
        }
        3 => {
            let t = text_in(n, b"a\"'\n #=[");
            assume(!t.contains("\"\"") && !t.starts_with('"') && !t.ends_with('"'));
            (format!("\"\"\"\n{}\"\"\"", t), t)
        }
        _ => {
            let t = text_in(n, b"a\"'\n\\#=[");
            assume(!t.contains("''") && !t.starts_with('\'') && !t.ends_with('\''));
            (format!("\'\'\'\n{}\'\'\'", t), t)
        }
    }
}
/// Any name and author, spelled in any way.
fn c18_names(n: usize) {
    let (s, name) = toml_string(n);
    let who = flip();
    let (a, author) = if flip() { ("\"A\"".to_string(), "A".to_string()) } else { (s.clone(), name.clone()) };
    let (s, name) = if who { ("\"N\"".to_string(), "N".to_string()) } else { (s, name) };
    let t = match choose(4) {
        0 => format!("[site]\nname = {}\nauthor = {}\n", s, a),
        1 => format!("# first\n\n[settings]\nsave_metadata = true\n\n[site] # the site\n  author={}\t# who\nname\t=\t{}", a, s),
        2 => format!("site = {{ name = {}, author = {} }}\r\n", s, a),
        _ => format!("site.name = {}\nsite.author = {}\n[dependencies]\n", s, a),
    };
    // an inline table is one line
    assume(!t.starts_with("site = ") || !(s.contains('\n') || a.contains('\n')));
    observe(t.as_bytes());
    match crate::config::load(&t) {
        Ok(raw) => {
            let c: Config = raw.into();
            eq(c.name.as_bytes(), name.as_bytes(), "the name of the site differs");
            match c.author {
                Some(x) => eq(x.as_bytes(), author.as_bytes(), "the author of the site differs"),
                None => fail("the author of the site differs"),
            }
            cover("loaded");
        }
        Err(_) => fail("a valid manifest is rejected"),
    }
}
/// Manifests which are none: nothing is built from them, and the error is one.
fn c18_wrong(_n: usize) {
    let key = choose(7);
    let wrong = |right: &str| -> String {
        let l = ["1", "1.5", "true", "\"s\"", "[]", "[\"s\"]", "{}", "1979-05-27", "[true]", "\"true\"", "0"];
        let v = pick(&l);
        let kind = |v: &str| match v.as_bytes()[0] {
            b't' => 'b',
            b'"' => 's',
            _ => 'x',
        };
        assume(kind(v) != kind(right));
        v.to_string()
    };
    let (mut name, mut author, mut sets) = ("name = \"N\"\n".to_string(), String::new(), String::new());
    let mut whole: Option<&[u8]> = None;
    let mut tail = String::new();
    match key {
        0 => name = format!("name = {}\n", wrong("\"")),
        1 => author = format!("author = {}\n", wrong("\"")),
        2 => sets = format!("{} = {}\n", pick(&["strip_extensions", "save_data_files", "save_metadata"]), wrong("true")),
        3 => name = if flip() { String::new() } else { "title = \"N\"\n".into() },
        4 => tail = format!("[dependencies]\np = {}\n", wrong("\"")),
        5 => {
            let l: &[&[u8]] = &[b"", b"site = 1", b"name = \"N\"", b"[site]\nname = \"N\"\n[site]\nname = \"N\"", b"[site]\nname = \"N\"\nname = \"M\"", b"[site\nname = \"N\"", b"[site]\nname = N", b"[site]\nname \"N\"", b"[site]\nname = \"N", b"[site]\nname = \"\xff\"", b"[[site]]\nname = 1", b"settings = true\n[site]\nname = \"N\"", b"[site]\nname = \"\\q\"", b"{\"site\": {\"name\": \"N\"}}"];
            whole = Some(pick(l));
        }
        _ => tail = ["[dependencies\n", "x\n", "= 1\n", "dependencies = 1\n[site]\n"][choose(4)].into(),
    }
    let t = match whole {
        Some(w) => w.to_vec(),
        None => format!("[site]\n{}{}[settings]\n{}{}", name, author, sets, tail).into_bytes(),
    };
    let f = fs();
    f.put("/w/p/stuart.toml", &t);
    f.put("/w/p/content/index.html", b"x");
    f.put("/w/p/content/root.html", b"x");
    f.chdir("/w/p");
    f.log.clear();
    observe(&t);
    let r = crate::build::StuartContext::init("stuart.toml", "dist", "production");
    check(f.log.is_empty(), "a manifest which is none changes files");
    match r {
        Ok(_) => fail("a manifest which is none is accepted"),
        Err(e) => {
            f.out.clear();
            e.print();
            let o = f.out.clone();
            let plain = String::from_utf8_lossy(&o).to_string();
            check(plain.contains("stuart.toml:") || plain.contains("manifest"), "the error does not name the manifest");
            cover("rejected");
        }
    }
}
entries! {
    c18_settings(n): h_c18_settings = 0;
    c18_names(n): h_c18_names_4 = 4, h_c18_names_6 = 6;
    c18_wrong(n): h_c18_wrong = 0;
}

// ---- C22 ----
fn c22_clean(_n: usize) {
    let f = fs();
    f.put("/w/p/content/index.html", b"x");
    f.put("/w/p/distx", b"x");
    f.put("/w/p/static/dist/a", b"x");
    f.put("/w/p/temp/metadata.json", b"x");
    f.put("/w/metadata.json", b"x");
    f.put("/w/dist/x", b"x");
    let project = flip();
    if project {
        f.put("/w/p/stuart.toml", b"");
    }
    let has = choose(8);
    let link = flip();
    if has & 1 == 1 {
        if link {
            f.put("/w/keep/a", b"x");
            f.put("/w/p/dist/a", b"x");
            f.put_kind("/w/p/dist/l", Kind::Link, b"/w/keep");
        } else {
            f.put("/w/p/dist/sub/a.html", b"x");
        }
    }
    if has & 2 == 2 {
        f.put("/w/p/_build/plugins/a", b"x");
    }
    if has & 4 == 4 {
        f.put("/w/p/metadata.json", b"x");
    }
    f.chdir("/w/p");
    let before = f.tree("/w");
    f.log.clear();
    let fault = choose(3);
    f.reads = 0;
    f.writes = 0;
    let k = byte();
    assume(k < 24);
    f.errno = pick(&[vrt::vfs::EIO, vrt::vfs::EACCES]);
    if fault == 1 {
        f.fail_write = k as usize;
    }
    if fault == 2 {
        f.fail_read = k as usize;
    }
    let r = crate::clean();
    f.fail_write = usize::MAX;
    f.fail_read = usize::MAX;
    let after = f.tree("/w");
    observe(f.listing("/w").as_bytes());
    let made = |p: &[u8]| -> bool { p == b"p/dist" || p.starts_with(b"p/dist/") || p == b"p/_build" || p.starts_with(b"p/_build/") || p == b"p/metadata.json" };
    for b in &before {
        if !project || !made(&b.0) {
            check(after.iter().any(|a| a == b), "clean removes something that is not a build product");
        }
    }
    for a in &after {
        check(before.iter().any(|b| a == b), "clean adds something");
    }
    for (i, p) in ["p/dist", "p/_build", "p/metadata.json"].iter().enumerate() {
        let n = |t: &[(Vec<u8>, Kind, usize)]| t.iter().filter(|x| x.0 == p.as_bytes() || (x.0.starts_with(p.as_bytes()) && x.0[p.len()] == b'/')).count();
        let (x, y) = (n(&before), n(&after));
        if has >> i & 1 == 0 || !project || r.is_err() {
            continue;
        }
        // nothing is claimed if the check for the presence of the entry itself fails
        check(y == 0 || (fault == 2 && f.failed && x == y), "a build product is left behind without an error");
    }
    if r.is_ok() {
        check(project, "clean succeeds outside a project");
        cover("cleaned");
    } else if !f.failed {
        check(!project, "clean fails without a fault");
        cover("not a project");
    } else {
        cover("fault reported");
    }
}
entries! {
    c22_clean(n): h_c22_clean = 0;
}
