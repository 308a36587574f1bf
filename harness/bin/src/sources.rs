//! C27 (plugin sources).
use crate::build::StuartContext;
use crate::hcommon::*;
use std::os::raw::c_void;
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawFunction};
use stuart_core::plugins::{NodeParser, NodeProcessor, Plugin};
use stuart_core::process::{ProcessError, ProcessOutput, Scope};
use stuart_core::Environment;
use vrt::dl::dl;
use vrt::proc::{exit, procs, Call, End};
use vrt::sys::{sys, Host};

/// Everything that comes out of library `0`: its code must be there while it is.
#[derive(Debug)]
struct Code(usize);
impl Code {
    fn used(&self) {
        check(dl().opened.iter().any(|o| o.lib == self.0 && !o.closed), "a plugin is used after its library was closed");
    }
}
impl Drop for Code {
    fn drop(&mut self) {
        self.used();
    }
}
impl FunctionParser for Code {
    fn name(&self) -> &str {
        "id"
    }
    fn parse(&self, _: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        self.used();
        Ok(Box::new(Code(self.0)))
    }
}
impl Function for Code {
    fn name(&self) -> &str {
        "id"
    }
    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        self.used();
        scope.output(["zero", "one", "two", "three"][self.0]).unwrap();
        Ok(())
    }
}
impl NodeParser for Code {
    fn extensions(&self) -> Vec<&'static str> {
        vec!["ext"]
    }
    fn parse(&self, _: &[u8], _: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        self.used();
        Ok(Box::new(Code(self.0)))
    }
}
impl NodeProcessor for Code {
    fn process(&self, _: &Stuart, _: Environment) -> Result<ProcessOutput, String> {
        self.used();
        Ok(ProcessOutput { new_contents: Some(vec![b'0' + self.0 as u8]), new_name: None })
    }
}
const PLUGS: [&str; 4] = ["p", "p", "p", "z"];
fn plugin(k: usize) -> *mut c_void {
    let p = Plugin { name: PLUGS[k].into(), version: format!("{}.0.0", k), functions: vec![Box::new(Code(k))], parsers: if k < 3 { vec![Box::new(Code(k))] } else { vec![] } };
    Box::into_raw(Box::new(p)) as *mut c_void
}
extern "C" fn init1() -> *mut c_void {
    plugin(1)
}
extern "C" fn init2() -> *mut c_void {
    plugin(2)
}
extern "C" fn init3() -> *mut c_void {
    plugin(3)
}
fn lib(k: usize) -> &'static [u8] {
    [&b"NOT"[..], b"LIB1", b"LIB2", b"LIB3"][k]
}

/// What happens in the world, chosen at the start.
struct World {
    /// Name of the dependency.
    name: &'static str,
    cargo: u8,
    pull: bool,
    calls: Vec<String>,
}
static mut WORLD: World = World { name: "", cargo: 0, pull: true, calls: Vec::new() };
#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { &mut WORLD }
}
fn text(v: &[u8]) -> &str {
    std::str::from_utf8(v).unwrap_or("?")
}
/// The contents of the remote repositories: (name of the project's directory, what it builds).
fn remote(url: &str) -> Option<(&'static str, usize)> {
    match url {
        "https://g/one.git" => Some(("", 1)),
        "https://g/two.git" => Some(("b/c/", 2)),
        "https://g/none.git" => Some(("", 0)),
        _ => None,
    }
}
fn project(dir: &str, name: &str, code: &[u8]) {
    fs().set(&format!("{}/Cargo.toml", dir), format!("[package]\nname = \"{}\"\nversion = \"1.0.0\"\n", name).as_bytes());
    fs().set(&format!("{}/src/lib.rs", dir), code);
}
fn check_out(url: &str, dir: &str, old: bool) {
    let (sub, k) = remote(url).unwrap();
    fs().set(&format!("{}/.git/url", dir), url.as_bytes());
    fs().set(&format!("{}/README.md", dir), b"r");
    project(&format!("{}/a", dir), "decoy", lib(3));
    fs().set(&format!("{}/aa/Cargo.toml", dir), b"[workspace]\n");
    fs().set(&format!("{}/ab/Cargo.toml", dir), b"not toml [");
    if k > 0 {
        let p = format!("{}/{}", dir, sub);
        project(p.trim_end_matches('/'), world().name, lib(if old { 3 - k } else { k }));
    }
}
fn run(c: &Call) -> Result<End, i32> {
    let w = world();
    let a: Vec<&str> = c.argv.iter().map(|a| text(a)).collect();
    w.calls.push(a.join(" "));
    let no = || exit(1, b"", b"no");
    match a[0] {
        "cargo" => {
            let m = match a.iter().position(|x| *x == "--manifest-path") {
                Some(i) => a[i + 1],
                None => fail("cargo is not told which project to build"),
            };
            if w.cargo == 2 {
                return Err(2);
            }
            let dir = m.strip_suffix("/Cargo.toml").unwrap_or("?");
            let code = fs().get(&format!("{}/src/lib.rs", dir)).map(|d| d.to_vec());
            let toml = fs().get(m).map(|d| d.to_vec()).unwrap_or_default();
            if w.cargo == 1 || !text(&toml).starts_with('[') {
                return exit(101, b"", b"error: x");
            }
            if let (Some(code), Some(n)) = (code, text(&toml).split('"').nth(1)) {
                if a.contains(&"--release") {
                    fs().set(&format!("{}/target/release/lib{}.so", dir, n.replace('-', "_")), &code);
                } else {
                    fs().set(&format!("{}/target/debug/lib{}.so", dir, n.replace('-', "_")), &code);
                }
            }
            exit(0, b"", b"Finished")
        }
        "git" => {
            let (dir, rest) = if a[1] == "-C" { (a[2], &a[3..]) } else { ("/w/p", &a[1..]) };
            let url = |d: &str| fs().get(&format!("{}/.git/url", d)).map(|u| text(u).to_string());
            match rest[0] {
                "ls-remote" => {
                    let u = rest[rest.len() - 1];
                    if remote(u).is_some() || u == "https://g/cut.git" {
                        exit(0, b"0123 HEAD\n", b"")
                    } else {
                        no()
                    }
                }
                "clone" => {
                    let p: Vec<&str> = rest[1..].iter().copied().filter(|x| !x.starts_with('-') && *x != "1").collect();
                    if p.len() != 2 || remote(p[0]).is_none() || !fs().tree(p[1]).is_empty() {
                        return no();
                    }
                    check_out(p[0], p[1], false);
                    exit(0, b"", b"")
                }
                "pull" => match url(dir) {
                    Some(u) if w.pull && remote(&u).is_some() => {
                        check_out(&u, dir, false);
                        exit(0, b"", b"")
                    }
                    _ => no(),
                },
                "config" | "remote" => match (rest.iter().any(|x| x.contains("user.")), url(dir)) {
                    (true, _) => no(),
                    (false, Some(u)) => exit(0, format!("{}\n", u).as_bytes(), b""),
                    // a directory within the project is in the project's own repository
                    (false, None) => exit(0, b"https://g/site.git\n", b""),
                },
                _ => no(),
            }
        }
        _ => no(),
    }
}
const DIR: &str = "/w/p/_build/plugins";
/// A source, and the library it gives.
fn source(k: usize) -> (&'static str, Option<usize>) {
    let w = world();
    let built = |n: usize| if w.cargo == 0 { Some(n) } else { None };
    match k {
        0 => ("one.so", Some(1)),
        1 => ("sub/two.so", Some(2)),
        2 => ("bad.so", None),
        3 => ("empty.so", None),
        4 => ("gone.so", None),
        5 => ("one.dll", None),
        6 => ("one.js", None),
        7 => ("/w/abs/two.so", Some(2)),
        8 => ("proj", built(1)),
        9 => ("my-proj", built(2)),
        10 => ("ws", None),
        11 => ("https://g/one.git", built(1)),
        12 => ("https://g/two.git", built(2)),
        13 => ("https://g/none.git", None),
        14 => ("https://g/cut.git", None),
        15 => ("http://h/x/two.so", Some(2)),
        16 => ("http://h/404.so", None),
        17 => ("http://refused/one.so", None),
        18 => ("http://unknown/one.so", None),
        19 => ("", None),
        20 => ("content", None),
        21 => ("one.mjs", None),
        22 => ("broken", None),
        _ => ("http://h/moved.so", Some(1)),
    }
}
const KINDS: usize = 24;
fn world_up() {
    let f = fs();
    f.put("/w/p/content/root.html", b"<{{ insert(\"m\") }}>");
    f.put("/w/p/content/index.html", b"{{ begin(\"m\") }}{{ p::id() }}{{ z::id() }}{{ end(\"m\") }}");
    f.put("/w/p/content/f.ext", b"f");
    f.put("/w/p/one.so", lib(1));
    f.put("/w/p/sub/two.so", lib(2));
    f.put("/w/abs/two.so", lib(2));
    f.put("/w/p/z.so", lib(3));
    f.put("/w/p/bad.so", b"BAD");
    f.put("/w/p/empty.so", b"EMPTY");
    f.put("/w/p/one.dll", lib(1));
    f.put("/w/p/one.js", lib(1));
    f.put("/w/p/one.mjs", lib(1));
    project("/w/p/proj", "proj", lib(1));
    project("/w/p/my-proj", "my-proj", lib(2));
    f.put("/w/p/ws/Cargo.toml", b"[workspace]\nmembers = []\n");
    f.put("/w/p/broken/Cargo.toml", b"oops");
    f.chdir("/w/p");
    set_env(&[(b"HOME", b"/root")]);
    let d = dl();
    d.symbol = b"_stuart_plugin_init";
    d.libs = vec![(lib(1), Some(init1)), (lib(2), Some(init2)), (lib(3), Some(init3)), (b"EMPTY", None)];
    // numbers of the model are positions in that list
    d.libs.insert(0, (b"\0none", None));
    procs().on = Some(Box::new(run));
    let answer = |req: &[u8]| -> Vec<u8> {
        let head: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\n";
        if req.starts_with(b"GET /x/two.so ") {
            [head, lib(2)].concat()
        } else if req.starts_with(b"GET /new/one.so ") {
            [head, lib(1)].concat()
        } else if req.starts_with(b"GET /moved.so ") {
            b"HTTP/1.1 302 Found\r\nLocation: /new/one.so\r\nContent-Length: 0\r\n\r\n".to_vec()
        } else {
            b"HTTP/1.1 404 Not Found\r\nContent-Length: 4\r\n\r\nnone".to_vec()
        }
    };
    sys().hosts = vec![Host { name: "h", answer: Some(Box::new(answer)) }, Host { name: "refused", answer: None }];
}
fn c27(n: usize) {
    let w = world();
    w.name = pick(&["plug", "my-plug"]);
    world_up();
    let mut used = Vec::new();
    let mut srcs: Vec<&str> = Vec::new();
    for _ in 0..n {
        used.push(choose(KINDS));
    }
    if used.iter().any(|k| (8..13).contains(k)) {
        w.cargo = choose(3) as u8;
    }
    let git = used.iter().any(|k| (11..15).contains(k));
    let dir = format!("{}/{}", DIR, w.name);
    if git || used.iter().any(|k| *k == 15) {
        // what an earlier build has left
        match choose(4) {
            0 => {}
            1 => check_out("https://g/one.git", &dir, true),
            2 => check_out("https://g/two.git", &dir, true),
            _ => fs().set(&format!("{}/two.so", dir), lib(1)),
        }
        if git {
            w.pull = flip();
        }
    }
    let left = fs().get(&format!("{}/.git/url", dir)).map(|u| text(u).to_string());
    let mut expect = None;
    let mut first = n;
    for (i, k) in used.iter().enumerate() {
        let (s, mut l) = source(*k);
        srcs.push(s);
        // whether the clone of this very source is still there after another was tried is not specified
        if (11..13).contains(k) && left.as_deref() == Some(s) && !w.pull && used[..i].iter().any(|j| (11..15).contains(j) && j != k) {
            return;
        }
        // a clone of the very source that cannot be brought up to date
        if (11..13).contains(k) && left.as_deref() == Some(s) && !w.pull {
            l = None;
        }
        // the same source again, cloned by now
        if (11..13).contains(k) && used[..i].contains(k) {
            l = expect;
        }
        if expect.is_none() && l.is_some() {
            expect = l;
            first = i;
        }
    }
    sys().seed = pick(&[0x5a, 0x11]);
    fs().put("/w/p/stuart.toml", format!("[site]\nname = \"N\"\nauthor = \"A\"\n\n[dependencies]\n{} = \"{}\"\nzed = \"gone;z.so\"\n", w.name, srcs.join(";")).as_bytes());
    let r = StuartContext::init("stuart.toml", "dist", "production");
    let mut o = Obs::new();
    for c in &w.calls {
        o.s(c);
    }
    for a in &dl().asked {
        o.s(text(a));
    }
    o.n(r.is_ok() as u64).done();
    check(!fs().exists("/w/p/dist"), "something is built before the plugins are loaded");
    // the sources after the one that is used are not touched
    for (i, s) in srcs.iter().enumerate() {
        if i > first && !s.is_empty() && !srcs[..=first].contains(s) && !(used[i] == 13 && git) {
            let url = s.starts_with("http");
            check(!w.calls.iter().any(|c| c.split(' ').any(|a| a == *s || (!url && a == format!("/w/p/{}/Cargo.toml", s)))), "a source after the one that loads is tried");
            check(!dl().asked.iter().any(|a| text(a) == Path::new("/w/p").join(s).to_string_lossy()), "a source after the one that loads is loaded");
        }
    }
    for a in &dl().asked {
        check(a.starts_with(b"/"), "a library is looked for elsewhere");
        check(!a.ends_with(b".dll") && !a.ends_with(b".js") && !a.ends_with(b".mjs"), "a file for another platform is loaded");
    }
    match (r, expect) {
        (Err(_), None) => cover("no source loads"),
        (Ok(_), None) => fail("the build goes on without the plugin"),
        (Err(_), Some(_)) => fail("a source that loads is not used"),
        (Ok(mut ctx), Some(l)) => {
            cover(if first == 0 { "first source" } else { "later source" });
            {
                let ps = match &ctx.stuart.plugins {
                    Some(m) => m.plugins(),
                    None => fail("no plugins"),
                };
                check(ps.len() == 2, "the number of plugins differs");
                for (name, k) in [("p", l), ("z", 3)] {
                    check(ps.iter().any(|p| p.name == name && p.version == format!("{}.0.0", k)), "another plugin is loaded");
                }
            }
            check(dl().opened.iter().all(|d| d.lib == 4 || !d.closed), "a library is closed early");
            check(ctx.build().is_ok(), "the build fails");
            eq(fs().get("/w/p/dist/index.html").unwrap_or(b"?"), ["", "<onethree>", "<twothree>"][l].as_bytes(), "the plugin's function is not used");
            eq(fs().get("/w/p/dist/f.ext").unwrap_or(b"?"), &[b'0' + l as u8], "the plugin's file type is not used");
            drop(ctx);
            cover("dropped");
        }
    }
}
/// Any text as the sources: each part that a file is named after loads it, unless its name says
/// that it is for another platform.
fn c27_text(n: usize) {
    let w = world();
    w.name = "plug";
    world_up();
    let t = text_in(n, b".dljsmo;");
    let mut expect = false;
    let mut parts = Vec::new();
    let mut start = 0;
    for i in 0..=n {
        if i == n || t.as_bytes()[i] == b';' {
            parts.push(&t[start..i]);
            start = i + 1;
        }
    }
    let there = flip();
    for p in &parts {
        if p.is_empty() || *p == "." || *p == ".." {
            continue;
        }
        let file = format!("/w/p/{}", p);
        if there {
            fs().put(&file, lib(1));
        } else {
            // the name of a directory does not say what its files are
            fs().put(&format!("{}/o", file), lib(1));
        }
        let skipped = p.ends_with(".dll") || p.ends_with(".js") || p.ends_with(".mjs");
        if skipped {
            cover("skipped");
        }
        expect |= !(there && skipped);
    }
    let mut list = t.clone();
    if !there {
        list = parts.iter().filter(|p| !p.is_empty() && **p != "." && **p != "..").map(|p| format!("{}/o", p)).collect::<Vec<_>>().join(";");
    }
    fs().put("/w/p/stuart.toml", format!("[site]\nname = \"N\"\nauthor = \"A\"\n\n[dependencies]\nplug = \"{}\"\nzed = \"z.so\"\n", list).as_bytes());
    let r = StuartContext::init("stuart.toml", "dist", "production");
    observe(&[r.is_ok() as u8]);
    cover(if expect { "loads" } else { "does not" });
    check(r.is_ok() == expect, if expect { "a source that loads is not used" } else { "the build goes on without the plugin" });
}
entries! {
    c27_text(n): h_c27_text_4 = 4, h_c27_text_5 = 5, h_c27_text_6 = 6;
    c27(n): h_c27_sources_1 = 1, h_c27_sources_2 = 2, h_c27_sources_3 = 3;
}
