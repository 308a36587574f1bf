//! The properties at sizes beyond the small ones.
use crate::errors::{located, nth_line, printed};
use crate::hcommon::*;
use crate::project::project;

use stuart_core::error::ParseError;
use vrt::proc::{exit, procs, Call};

const SIZES: [usize; 7] = [255, 256, 257, 4096, 65535, 65536, 70000];
const COUNTS: [usize; 6] = [17, 33, 127, 255, 256, 300];

/// A long name, or many lines and tables around it.
fn c18_large(_n: usize) {
    let n = pick(&SIZES);
    let c = text_in(2, b"a#= ]");
    let long = format!("{}{}", pick(&["x", "\u{e9}"]).repeat(n / 2), c);
    let (t, name, author) = match choose(4) {
        0 => (format!("[site]\nname = \"{}\"\nauthor = \"A\"\n", long), long, "A".to_string()),
        1 => (format!("[site]\nname = \"N\"\nauthor = '{}'\n", long), "N".to_string(), long),
        2 => (format!("{}[site]\nname = \"{}\"\nauthor = \"A\"\n", "# comment\n".repeat(n / 16), c), c.clone(), "A".to_string()),
        _ => {
            let d: String = (0..n / 16).map(|i| format!("p{} = \"x{}.js\"\n", i, i)).collect();
            (format!("[dependencies]\n{}\n[site]\nname = \"N\"\nauthor = \"{}\"\n[settings]\nsave_metadata = true\n", d, c), "N".to_string(), c.clone())
        }
    };
    match crate::config::load(&t) {
        Ok(raw) => {
            let c: Config = raw.into();
            eq(c.name.as_bytes(), name.as_bytes(), "the name of the site differs");
            eq(c.author.unwrap_or_default().as_bytes(), author.as_bytes(), "the author of the site differs");
            cover("loaded");
        }
        Err(_) => fail("a valid manifest is rejected"),
    }
}
/// Many files among the scripts, and one that prints much before it fails, or nothing.
fn c20_large(_n: usize) {
    project("");
    let f = fs();
    let (n, size) = (pick(&COUNTS), pick(&[0usize, 65536, 70000]));
    for i in 0..n {
        f.put(&format!("/w/p/scripts/helper{}.sh", i), b"x");
        if i == n / 2 {
            f.put("/w/p/scripts/onPreBuild.sh", b"x");
        }
    }
    f.put("/w/p/scripts/onPostBuild", b"x");
    f.rev = flip();
    let code = pick(&[0u8, 3, 255]);
    let (out, err) = (format!("{}<o>", "o\n".repeat(size / 2)), format!("{}<e>", "e".repeat(size)));
    let (o2, e2) = (out.clone(), err.clone());
    procs().on = Some(Box::new(move |c: &Call| {
        if c.argv[1].ends_with(b"/onPreBuild.sh") {
            exit(0, o2.as_bytes(), e2.as_bytes())
        } else {
            check(c.argv[1].ends_with(b"/onPostBuild"), "another file is run as a script");
            exit(code, o2.as_bytes(), e2.as_bytes())
        }
    }));
    let mut ctx = match crate::build::StuartContext::init("stuart.toml", "dist", "production") {
        Ok(c) => c,
        Err(_) => fail("the project is not loaded"),
    };
    let r = ctx.build();
    check(procs().calls.len() == 2, "a script is not run");
    check(fs().get("/w/p/dist/index.html") == Some(b"<i>"), "the site is not saved");
    match r {
        Ok(_) => {
            check(code == 0, "a script that fails does not fail the build");
            cover("built");
        }
        Err(e) => {
            check(code != 0, "a build fails although no script failed");
            fs().out.clear();
            e.print();
            let shown = &fs().out;
            check(shown.windows(out.len()).any(|w| w == out.as_bytes()) && shown.windows(err.len()).any(|w| w == err.as_bytes()), "the error does not give the output");
            cover("failed");
        }
    }
}
/// A name or an author as long as they may be.
fn c21_large(_n: usize) {
    let c = text_in(1, b"a. \"\\");
    match choose(2) {
        0 => {
            let name = format!("{}{}", "n".repeat(pick(&[100usize, 127, 253, 254])), c);
            crate::create::create(&name, &format!("/w/p/{}", name), None, None, flip(), 0)
        }
        _ => {
            let u = format!("{}{}.", "u".repeat(pick(&SIZES)), c);
            crate::create::create("n", "/w/p/n", Some(u.as_bytes()), Some(b"e@x"), true, 0)
        }
    }
    cover("created");
}
/// Products of many files, deep ones.
fn c22_large(_n: usize) {
    let f = fs();
    let (n, deep) = (pick(&COUNTS), pick(&[0usize, 1, 20]));
    let name = text_in(2, b"a.~");
    assume(name != "..");
    f.put("/w/p/stuart.toml", b"");
    f.put(&format!("/w/p/x{}", name), b"k");
    for i in 0..n {
        f.put(&format!("/w/p/content/{}", i), b"k");
        f.put(&format!("/w/p/dist/{}f{}", "d/".repeat(deep), i), b"x");
        f.put(&format!("/w/p/_build/{}x{}/f{}", "d/".repeat(deep), i, name), b"x");
    }
    f.put("/w/p/metadata.json", b"x");
    f.chdir("/w/p");
    let r = crate::clean();
    let f = fs();
    if r.is_err() {
        fail("clean fails without a fault");
    }
    let left = f.tree("/w/p").len();
    check(left == n + 3 && f.exists(&format!("/w/p/x{}", name)) && f.exists("/w/p/stuart.toml"), "clean removes something that is not a build product, or leaves one");
    cover("cleaned");
}
/// A line far down in a file, or a long one.
fn c23_large(_n: usize) {
    let n = pick(&SIZES);
    let c = text_in(1, b"x\t\r{");
    let t = match choose(3) {
        0 => format!("{}here{}.\nafter\n", "line\n".repeat(n), c),
        1 => format!("{}here{}", "\r\n".repeat(n), c),
        _ => format!("{}{}y\nafter", "\n".repeat(9), "x".repeat(n)),
    };
    let long = t.starts_with('\n');
    let line = if long { 10 } else { (n + choose(3)) as u32 };
    let column = pick(&[1u32, 255, 256, 65536]);
    fs().put("/w/p/content/a.html", t.as_bytes());
    fs().chdir("/w/p");
    let out = printed(Box::new(TracebackError { path: "/w/p/content/a.html".into(), line, column, kind: ParseError::GenericSyntaxError }));
    located(&out, "content/a.html", line, column, nth_line(t.as_bytes(), line), b"", "syntax");
}
/// Build commands over a site of many pages: all of them are there, and nothing else.
fn c31_large(_n: usize) {
    let n = pick(&COUNTS);
    project("");
    let f = fs();
    let c = text_in(1, b"abc");
    for i in 0..n {
        f.put(&format!("/w/p/content/p{}.html", i), format!("{{{{ begin(\"m\") }}}}{}{}{{{{ end(\"m\") }}}}", i, c).as_bytes());
        f.put(&format!("/w/p/static/s{}.css", i), c.as_bytes());
    }
    let mut ctx = match crate::build::StuartContext::init("stuart.toml", "dist", "production") {
        Ok(c) => c,
        Err(_) => fail("the project is not loaded"),
    };
    if ctx.build().is_err() {
        fail("the project does not build");
    }
    let gone = [0, n / 2, n - 1][choose(3)];
    let f = fs();
    f.del(&format!("/w/p/content/p{}.html", gone));
    f.del(&format!("/w/p/static/s{}.css", gone));
    f.set("/w/p/content/new.html", b"{{ begin(\"m\") }}new{{ end(\"m\") }}");
    if ctx.build().is_err() {
        fail("the project does not build");
    }
    for i in 0..n {
        let p = format!("/w/p/dist/p{}/index.html", i);
        let s = format!("/w/p/dist/s{}.css", i);
        if i == gone {
            check(!fs().exists(&p) && !fs().exists(&s), "the output depends on the builds before it");
        } else {
            eq(fs().get(&p).unwrap_or(b""), format!("<{}{}>", i, c).as_bytes(), "the output depends on the builds before it");
            check(fs().get(&s) == Some(c.as_bytes()), "the output depends on the builds before it");
        }
    }
    check(fs().get("/w/p/dist/new/index.html") == Some(b"<new>"), "the output depends on the builds before it");
    check(fs().tree("/w/p/dist").iter().filter(|x| x.1 == Kind::File).count() == 2 * n, "the output depends on the builds before it");
    cover("built");
}
entries! {
    c18_large(n): h_c18_large = 0;
    c20_large(n): h_c20_large = 0;
    c21_large(n): h_c21_large = 0;
    c22_large(n): h_c22_large = 0;
    c23_large(n): h_c23_large = 0;
    c31_large(n): h_c31_large = 0;
}
