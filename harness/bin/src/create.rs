//! C21 (`new`).
use crate::config;
use crate::hcommon::*;
use vrt::proc::{exit, procs, Call};

pub fn args(name: &str, no_git: bool) -> clap::ArgMatches {
    let mut v = vec!["stuart", "new", name];
    if no_git {
        v.push("--no-git");
    }
    match crate::app().try_get_matches_from(v) {
        Ok(m) => m.subcommand_matches("new").unwrap().clone(),
        Err(_) => fail("the command line is rejected"),
    }
}
pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).trim().to_string()
}
/// The files of the template that come with the program.
pub fn template(dir: &str) -> bool {
    let f = fs();
    let page = f.get(&format!("{}/content/index.html", dir));
    let root = f.get(&format!("{}/content/root.html", dir));
    let style = f.exists(&format!("{}/static/style.css", dir));
    page.is_some() && root.is_some() && style
}
/// What happens to a project of this name, with Git knowing this user.
pub fn create(name: &str, path: &str, user: Option<&[u8]>, email: Option<&[u8]>, no_git: bool, init: u8) {
    let f = fs();
    f.put("/w/o/keep", b"k");
    f.put_dir("/w/p");
    f.chdir("/w/p");
    let before = f.tree("/w");
    let (u, e) = (user.map(|b| b.to_vec()), email.map(|b| b.to_vec()));
    procs().on = Some(Box::new(move |c: &Call| {
        check(c.prog.as_slice() == b"git" && c.argv[0].as_slice() == b"git", "another program is run");
        let a: Vec<&[u8]> = c.argv[1..].iter().map(|a| a.as_slice()).collect();
        let get = |v: &Option<Vec<u8>>| match v {
            Some(v) => exit(0, &[&v[..], b"\n"].concat(), b""),
            None => exit(1, b"", b""),
        };
        if a.first() == Some(&&b"init"[..]) {
            return match init {
                0 => exit(0, b"Initialized", b""),
                1 => exit(128, b"", b"fatal"),
                _ => Err(2),
            };
        }
        check(a[0] == b"config", "Git is asked something else");
        if init == 2 {
            return Err(2);
        }
        if a.contains(&&b"user.name"[..]) {
            get(&u)
        } else {
            check(a.contains(&&b"user.email"[..]), "Git is asked something else");
            get(&e)
        }
    }));
    let r = crate::new::new(&args(name, no_git));
    observe(fs().listing("/w").as_bytes());
    if r.is_err() {
        fail("a project is not created");
    }
    let m = match fs().get(&format!("{}/stuart.toml", path)) {
        Some(m) => m.to_vec(),
        None => fail("the project has no manifest"),
    };
    observe(&m);
    let m = match String::from_utf8(m) {
        Ok(m) => m,
        Err(_) => fail("the manifest is not text"),
    };
    let c: Config = match config::load(&m) {
        Ok(c) => c.into(),
        Err(_) => fail("the manifest does not load"),
    };
    eq(c.name.as_bytes(), name.as_bytes(), "the name of the site differs");
    let author = match (user, email) {
        (Some(u), Some(e)) if init != 2 => Some(format!("{} <{}>", lossy(u), lossy(e))),
        _ => None,
    };
    check(c.author.is_some() == author.is_some(), "the author is there or not, wrongly");
    if let Some(a) = author {
        eq(c.author.unwrap().as_bytes(), a.as_bytes(), "the author differs");
        cover("author");
    }
    check(template(path), "a file of the template is missing");
    let calls = procs().calls.iter().filter(|c| c.argv.get(1).map(|a| a.as_slice()) == Some(b"init")).collect::<Vec<_>>();
    if no_git {
        check(calls.is_empty(), "a repository is made although it should not");
    } else {
        check(calls.len() == 1, "no repository is made");
        let to = calls[0].argv.last().unwrap();
        let (a, b) = (fs().lookup(std::str::from_utf8(to).unwrap_or("?")), fs().lookup(path));
        check(a.is_some() && a == b, "the repository is made elsewhere");
        cover("repository");
    }
    for x in fs().tree("/w") {
        let inside = x.0.starts_with(&path.as_bytes()[3..]);
        check(inside || before.iter().any(|b| *b == x), "something outside of the project is changed");
    }
    check(before.iter().all(|b| fs().tree("/w").iter().any(|x| x == b)), "something is removed");
}
/// Every name of n characters.
pub fn c21_name(n: usize) {
    let name = ascii(n);
    assume(name != "." && name != ".." && !name.starts_with('-') && name.bytes().all(|b| b != 0 && b != b'/'));
    let no_git = flip();
    create(&name, &format!("/w/p/{}", name), None, None, no_git, 0);
    cover("created");
}
/// Names beyond ASCII, of more than one component, or absolute.
pub fn c21_where(_n: usize) {
    let (name, path) = pick(&[
        ("\u{e9}", "/w/p/\u{e9}"),
        ("\u{1f600}\u{2028}", "/w/p/\u{1f600}\u{2028}"),
        ("a/", "/w/p/a"),
        ("./a", "/w/p/a"),
        ("../a", "/w/a"),
        ("../o/a", "/w/o/a"),
        ("/w/o/a", "/w/o/a"),
        ("a\"\"\"", "/w/p/a\"\"\""),
        ("'''", "/w/p/'''"),
        ("a\\\"b", "/w/p/a\\\"b"),
        ("stuart.toml", "/w/p/stuart.toml"),
    ]);
    let init = choose(3) as u8;
    create(name, path, Some(b"U"), Some(b"e@x"), flip(), init);
    cover("created");
}
/// Every user name and e-mail of n bytes.
pub fn c21_author(n: usize) {
    let which = choose(4);
    let t: Vec<u8> = (0..n).map(|_| byte()).collect();
    let fixed: &[u8] = pick(&[&b"x@y"[..], b"", b" Ann \"B\" \\"]);
    let (u, e): (Option<&[u8]>, Option<&[u8]>) = match which {
        0 => (Some(&t), Some(fixed)),
        1 => (Some(fixed), Some(&t)),
        2 => (Some(&t), None),
        _ => (None, Some(&t)),
    };
    create("n", "/w/p/n", u, e, true, 0);
    cover("created");
}
/// Something of that name is there already, or the directory cannot be made: nothing changes.
pub fn c21_exists(_n: usize) {
    let f = fs();
    f.put("/w/p/keep", b"k");
    f.chdir("/w/p");
    let name = match choose(7) {
        0 => {
            f.put_dir("/w/p/n");
            "n"
        }
        1 => {
            f.put("/w/p/n", b"file");
            "n"
        }
        2 => {
            f.put("/w/p/n/content/index.html", b"mine");
            f.put("/w/p/n/stuart.toml", b"mine");
            "n"
        }
        3 => {
            f.put_kind("/w/p/n", Kind::Link, b"/w/nowhere");
            "n"
        }
        4 => ".",
        5 => "none/n",
        _ => "keep/n",
    };
    let before = f.tree("/w");
    procs().on = Some(Box::new(|c: &Call| {
        check(c.argv[1].as_slice() == b"config", "a repository is made although the project is not");
        exit(0, b"x\n", b"")
    }));
    let r = crate::new::new(&args(name, flip()));
    let after = fs().tree("/w");
    observe(fs().listing("/w").as_bytes());
    check(r.is_err(), "a project that exists is created again");
    check(before == after, "a project that exists is changed");
    cover("refused");
}
/// A write that fails is reported.
pub fn c21_fault(_n: usize) {
    let f = fs();
    f.put_dir("/w/p");
    f.chdir("/w/p");
    procs().on = Some(Box::new(|_: &Call| exit(0, b"x\n", b"")));
    let k = byte();
    assume(k < 60);
    f.errno = pick(&[vrt::vfs::EIO, vrt::vfs::ENOSPC]);
    f.writes = 0;
    f.fail_write = k as usize;
    let r = crate::new::new(&args("n", flip()));
    let f = fs();
    observe(f.listing("/w").as_bytes());
    check(r.is_err() == f.failed, "a write that fails is not reported");
    cover(if f.failed { "reported" } else { "created" });
}
/// The project that is created is built by `stuart build`.
pub fn c21_build(_n: usize) {
    let f = fs();
    f.put_dir("/w/p");
    f.chdir("/w/p");
    set_env(&[]);
    procs().on = Some(Box::new(|_: &Call| exit(0, b"A \"B\"\n", b"")));
    let no_git = flip();
    if crate::new::new(&args("my site", no_git)).is_err() {
        fail("a project is not created");
    }
    let (manifest, elsewhere) = pick(&[("my site/stuart.toml", false), ("stuart.toml", true)]);
    if elsewhere {
        fs().chdir("/w/p/my site");
    }
    let r = crate::build::StuartContext::init(manifest, "dist", "production").and_then(|mut c| c.build());
    observe(fs().listing("/w").as_bytes());
    if r.is_err() {
        fail("the project that was created does not build");
    }
    check(fs().exists("/w/p/my site/dist/index.html") && fs().exists("/w/p/my site/dist/style.css"), "the project that was created is not built");
    cover("built");
}
entries! {
    c21_name(n): h_c21_name_1 = 1, h_c21_name_2 = 2, h_c21_name_3 = 3, h_c21_name_4 = 4;
    c21_where(n): h_c21_where = 0;
    c21_author(n): h_c21_author_1 = 1, h_c21_author_2 = 2, h_c21_author_3 = 3;
    c21_exists(n): h_c21_exists = 0;
    c21_fault(n): h_c21_fault = 0;
    c21_build(n): h_c21_build = 0;
}
