//! C20 (build scripts) and C13 (builds that fail), on whole projects.
use crate::build::StuartContext;
use crate::error::StuartError;
use crate::hcommon::*;
use vrt::proc::{exit, procs, Call, End};

const NAMES: [(&str, u8); 10] = [("onPreBuild", 1), ("onPreBuild.sh", 1), ("onPostBuild", 2), ("onPostBuild.sh", 2), ("onPreBuild.bat", 0), ("onprebuild.sh", 0), ("onPreBuild.sh.bak", 0), ("onPostBuild.sh~", 0), ("xonPostBuild", 0), ("build.sh", 0)];

pub fn project(settings: &str) {
    let f = fs();
    f.put("/w/p/stuart.toml", format!("[site]\nname = \"N\"\n{}", settings).as_bytes());
    f.put("/w/p/content/root.html", b"<{{ insert(\"m\") }}>");
    f.put("/w/p/content/index.html", b"{{ begin(\"m\") }}i{{ end(\"m\") }}");
    f.put("/w/other/keep", b"k");
    f.chdir("/w/p");
    set_env(&[(b"HOME", b"/root"), (b"STUART_ENV", b"nonsense"), (b"STUART_OUT_DIR", b"/nowhere")]);
}
/// The path a script was given, or a failure.
pub fn script_of(c: &Call) -> Vec<u8> {
    check(c.prog.as_slice() == b"sh" && c.argv.len() == 2 && c.argv[0].as_slice() == b"sh", "a script is not run by the shell");
    c.argv[1].clone()
}
/// Which phase the build is in, judged by what is on the disk.
pub fn written() -> bool {
    fs().exists("/w/p/dist/index.html")
}
/// Every way the four names can be there, how each script ends, and where the manifest and the output are.
pub fn c20_run(n: usize) {
    project("");
    let f = fs();
    let mut expect: Vec<(String, u8)> = Vec::new();
    for (i, (name, phase)) in NAMES.iter().enumerate() {
        let k = if i < 4 { choose(if i < n { 3 } else { 2 }) } else { 1 };
        let p = format!("/w/p/scripts/{}", name);
        if k == 1 {
            f.put(&p, b"exit");
            if *phase > 0 {
                expect.push((p, *phase));
            }
        } else if k == 2 {
            f.put_dir(&p);
            f.put(&format!("{}/onPreBuild", p), b"no");
        }
    }
    f.rev = flip();
    let envs = ["production", "development", "benchmark"];
    let env = pick(&envs);
    let (out, outdir) = pick(&[("dist", "/w/p/dist"), ("/w/q/out", "/w/q/out")]);
    let manifest = pick(&["stuart.toml", "/w/p/stuart.toml", "content/../stuart.toml"]);
    f.put_dir("/w/q");
    static mut SEEN: Vec<(Vec<u8>, bool, u8)> = Vec::new();
    static mut ENDS: Vec<u8> = Vec::new();
    #[allow(static_mut_refs)]
    let (seen, ends) = unsafe { (&mut SEEN, &mut ENDS) };
    // how the scripts end, in the order they are run: well, badly, by a signal or not at all
    for _ in 0..4 {
        ends.push(choose(5) as u8);
        if ends.last() != Some(&0) {
            break;
        }
    }
    let code = byte();
    assume(code > 0);
    let outs: &'static [u8] = b" out\n{";
    let dist = format!("{}/index.html", outdir);
    let ends2 = ends.clone();
    let seen_p: *mut Vec<(Vec<u8>, bool, u8)> = seen;
    procs().on = Some(Box::new(move |c: &Call| {
        let seen = unsafe { &mut *seen_p };
        let k = if seen.len() < ends2.len() { ends2[seen.len()] } else { 0 };
        seen.push((script_of(c), fs().exists(&dist), k));
        check(c.var("STUART_MANIFEST_PATH") == Some(b"/w/p/stuart.toml"), "STUART_MANIFEST_PATH differs");
        check(c.var("STUART_MANIFEST_DIR") == Some(b"/w/p"), "STUART_MANIFEST_DIR differs");
        check(c.var("STUART_TEMP_DIR") == Some(b"/w/p/temp"), "STUART_TEMP_DIR differs");
        check(c.var("STUART_OUT_DIR") == Some(outdir.as_bytes()), "STUART_OUT_DIR differs");
        check(c.var("STUART_ENV") == Some(env.as_bytes()), "STUART_ENV differs");
        check(c.var("HOME") == Some(b"/root"), "a script does not inherit the environment");
        for v in ["STUART_MANIFEST_PATH", "STUART_ENV", "STUART_OUT_DIR"] {
            check(c.env.iter().filter(|e| e.starts_with(v.as_bytes()) && e[v.len()] == b'=').count() == 1, "a variable is given twice");
        }
        match k {
            0 => exit(0, b"fine", b"warning"),
            1 => exit(code, outs, b"err"),
            2 => Ok(End { status: 9, out: outs.to_vec(), err: vec![] }),
            3 => Err(2),
            _ => Err(13),
        }
    }));
    let r = StuartContext::init(manifest, out, env);
    let mut ctx = match r {
        Ok(c) => c,
        Err(_) => fail("the project is not loaded"),
    };
    check(seen.is_empty(), "a script is run before the build");
    let r = ctx.build();
    let mut o = Obs::new();
    for s in seen.iter() {
        o.s(std::str::from_utf8(&s.0).unwrap_or("?"));
    }
    o.n(r.is_ok() as u64).done();
    let mut last_phase = 1;
    for (i, s) in seen.iter().enumerate() {
        let e = expect.iter().find(|e| e.0.as_bytes() == s.0.as_slice());
        let phase = match e {
            Some(e) => e.1,
            None => fail("another file is run as a script"),
        };
        check(seen[..i].iter().all(|t| t.0 != s.0), "a script is run twice");
        check(phase >= last_phase, "a script is run after those of a later phase");
        last_phase = phase;
        check(s.1 == (phase == 2), "a script is run at the wrong time of the build");
        if s.2 != 0 {
            check(i + 1 == seen.len(), "a script is run after one that failed");
        }
    }
    let failed = seen.last().map(|s| s.2).unwrap_or(0);
    if failed == 0 {
        check(seen.len() == expect.len(), "a script is not run");
    } else {
        // those of an earlier phase have all been run
        if last_phase == 2 {
            check(expect.iter().filter(|e| e.1 == 1).all(|e| seen.iter().any(|s| s.0.as_slice() == e.0.as_bytes())), "a script is not run");
        }
    }
    match r {
        Ok(_) => {
            check(failed == 0, "a script that fails does not fail the build");
            check(fs().exists(&format!("{}/index.html", outdir)), "the site is not saved");
            cover("built");
        }
        Err(e) => {
            check(failed != 0, "a build fails although no script failed");
            check((last_phase == 2) == fs().exists(&format!("{}/index.html", outdir)), "a failing script aborts the build at the wrong time");
            let name = seen.last().unwrap().0.rsplit(|c| *c == b'/').next().unwrap().to_vec();
            fs().out.clear();
            e.print();
            let shown = fs().out.clone();
            let has = |b: &[u8]| shown.windows(b.len()).any(|w| w == b);
            let quoted = [b"`", &name[..], b"`"].concat();
            check(has(&quoted), "the error does not name the script");
            if failed == 1 {
                check(has(format!("code {}\n", code).as_bytes()), "the error does not give the exit code");
                check(has(b"out\n{") && has(b"err"), "the error does not give the output");
                cover("exit code");
            } else if failed == 2 {
                check(has(b"out\n{"), "the error does not give the output");
                cover("signal");
            } else {
                cover("not started");
            }
        }
    }
}
/// No scripts directory, or something else of that name: nothing is run.
pub fn c20_none(_n: usize) {
    project("");
    match choose(4) {
        0 => {}
        1 => {
            fs().put("/w/p/scripts", b"file");
        }
        2 => {
            fs().put_dir("/w/p/scripts");
        }
        _ => {
            fs().put("/w/p/onPreBuild", b"x");
            fs().put("/w/p/content/onPreBuild.sh", b"x");
            fs().put("/w/p/scripts/sub/onPostBuild", b"x");
        }
    }
    procs().on = Some(Box::new(|_| fail("something is run")));
    let mut ctx = match StuartContext::init("stuart.toml", "dist", "production") {
        Ok(c) => c,
        Err(_) => fail("the project is not loaded"),
    };
    if ctx.build().is_err() {
        fail("a build without scripts fails");
    }
    check(procs().calls.is_empty(), "something is run");
    check(fs().get("/w/p/dist/index.html") == Some(b"<i>"), "the site is not built");
    cover("built");
}
entries! {
    c20_run(n): h_c20_run_1 = 1, h_c20_run_4 = 4;
    c20_none(n): h_c20_none = 0;
}

// ---- C13 ----
type Tree = Vec<(Vec<u8>, Kind, usize, Vec<u8>)>;
/// What is on the disk, contents included.
pub fn snap(p: &str) -> Tree {
    let f = fs();
    f.tree(p)
        .into_iter()
        .map(|(n, k, i)| {
            let d = f.get(&format!("{}/{}", p, String::from_utf8_lossy(&n))).map(|d| d.to_vec()).unwrap_or_default();
            (n, k, i, d)
        })
        .collect()
}
pub fn under(n: &[u8], d: &[u8]) -> bool {
    n == d || (n.starts_with(d) && n.get(d.len()) == Some(&b'/'))
}
/// Only the output directory, the metadata file and the temporary directory may be touched.
pub fn only_products(before: &Tree, after: &Tree) {
    for t in [before, after] {
        for x in t.iter() {
            if under(&x.0, b"p/dist") || under(&x.0, b"p/temp") || x.0.as_slice() == b"p/metadata.json" {
                continue;
            }
            check(before.iter().any(|b| b == x) && after.iter().any(|a| a == x), "a build changes something else than its products");
        }
    }
}
pub fn same_output(before: &Tree, after: &Tree) -> bool {
    let f = |t: &Tree| -> Tree { t.iter().filter(|x| under(&x.0, b"p/dist") || x.0.as_slice() == b"p/metadata.json").cloned().collect() };
    f(before) == f(after)
}
pub fn whole_site(meta: bool) {
    project(if meta { "[settings]\nsave_metadata = true\n" } else { "" });
    let f = fs();
    f.put("/w/p/content/a/b.md", b"---\nt: \"T\"\n---\nx");
    f.put("/w/p/content/md.html", b"{{ begin(\"m\") }}{{ $self.content }}{{ end(\"m\") }}");
    f.put("/w/p/content/d.json", b"[1]");
    f.put("/w/p/static/s.css", b"css");
    f.put("/w/p/static/sub/t.txt", b"txt");
    f.put("/w/p/scripts/onPreBuild", b"x");
    f.put("/w/p/scripts/onPostBuild.sh", b"x");
    f.put("/w/p/dist/old.html", b"old");
    f.put("/w/p/dist/index.html", b"old index");
    f.put("/w/p/metadata.json", b"old metadata");
}
pub fn complete(meta: bool, temp: Option<(&'static str, &'static [u8])>) -> bool {
    let f = fs();
    let mut want: Vec<(&str, &[u8])> = vec![("index.html", b"<i>"), ("a/b/index.html", b"<<p>x</p>\n>"), ("s.css", b"css"), ("sub/t.txt", b"txt")];
    if let Some(t) = temp {
        want.push(t);
    }
    let files = f.tree("/w/p/dist").iter().filter(|x| x.1 == Kind::File).count();
    let metadata = f.get("/w/p/metadata.json").unwrap_or(b"");
    files == want.len() && want.iter().all(|(n, d)| f.get(&format!("/w/p/dist/{}", n)) == Some(*d)) && if meta { metadata.windows(8).any(|w| w == b"\"b.html\"") } else { metadata == b"old metadata" }
}
/// A fault at any read or write, or a failing script; the output is as it was unless saving had begun.
pub fn c13_project(_n: usize) {
    let meta = flip();
    whole_site(meta);
    let temp = flip();
    let left = flip();
    if left {
        fs().put("/w/p/temp/old", b"left");
    }
    let extra: Option<(&'static str, &'static [u8])> = if temp {
        Some(("gen.txt", b"generated"))
    } else if left {
        Some(("old", b"left"))
    } else {
        None
    };
    let bad = choose(5);
    procs().on = Some(Box::new(move |c: &Call| {
        let s = script_of(c);
        if s.ends_with(b"onPreBuild") {
            if temp {
                // the script builds its directory anew
                let f = fs();
                if let Some(i) = f.lookup("/w/p/temp") {
                    f.nodes[i].ents.clear();
                }
                f.put("/w/p/temp/gen.txt", b"generated");
            }
            if bad == 1 {
                return exit(3, b"", b"");
            }
        } else if bad == 2 {
            return exit(3, b"", b"");
        }
        exit(0, b"", b"")
    }));
    if bad == 3 {
        fs().put("/w/p/content/bad.html", b"{{ begin(\"m\") }}{{ $nope }}{{ end(\"m\") }}");
    }
    if bad == 4 {
        fs().put("/w/p/static/index.html", b"conflict");
    }
    let fault = if bad == 0 { choose(3) } else { 0 };
    let f = fs();
    let k = u32();
    assume(k < 400);
    f.errno = pick(&[vrt::vfs::EIO, vrt::vfs::EACCES]);
    f.reads = 0;
    f.writes = 0;
    f.log.clear();
    if fault == 1 {
        f.fail_read = k as usize;
    }
    if fault == 2 {
        f.fail_write = k as usize;
    }
    let before = snap("/w");
    let r = StuartContext::init("stuart.toml", "dist", "production").and_then(|mut c| c.build());
    let f = fs();
    f.fail_read = usize::MAX;
    f.fail_write = usize::MAX;
    let (failed, at) = (f.failed, f.failed_at);
    let after = snap("/w");
    observe(f.listing("/w").as_bytes());
    only_products(&before, &after);
    // a change of the output or of the metadata before the fault
    let begun = f.log[..at.min(f.log.len())].iter().any(|(_, p)| under(p, b"/w/p/dist") || p.as_slice() == b"/w/p/metadata.json");
    match r {
        Ok(_) => {
            check(bad == 0, "a failing build is reported as success");
            check(complete(meta, extra), "a successful build leaves something out");
            check(failed || !fs().exists("/w/p/temp"), "the temporary directory is left behind");
            if failed {
                cover("tolerated");
            } else {
                cover("built");
            }
        }
        Err(_) => {
            check(bad != 0 || failed, "a build fails without a reason");
            if bad == 2 {
                check(complete(meta, extra), "a failing script after the build undoes it");
                cover("post-build script failed");
            } else if bad != 0 || !begun && fault == 1 {
                check(same_output(&before, &after), "a failing build changes the previous output");
                cover("output kept");
            } else {
                cover("failure while saving");
            }
        }
    }
}
entries! {
    c13_project(n): h_c13_project = 0;
}

// ---- C31 ----
/// One change of the project by its author.
pub fn edit(k: usize) {
    let f = fs();
    match k {
        0 => {
            let mut t = b"{{ begin(\"m\") }}".to_vec();
            t.push(byte_in(b"jk\\\n"));
            t.extend_from_slice(b"{{ end(\"m\") }}");
            f.set("/w/p/content/index.html", &t);
        }
        1 => f.set("/w/p/content/a/c.html", b"{{ begin(\"m\") }}c{{ end(\"m\") }}"),
        2 => f.del("/w/p/content/a/b.md"),
        3 => f.set("/w/p/content/root.html", b"({{ insert(\"m\") }})"),
        4 => f.set("/w/p/content/a/root.html", b"a{{ insert(\"m\") }}"),
        5 => f.set("/w/p/content/bad.html", b"{{ $nope }}"),
        6 => f.set("/w/p/content/bad.html", b"{{ end("),
        7 => f.del("/w/p/content/bad.html"),
        8 => f.set("/w/p/static/new.css", b"n"),
        9 => f.set("/w/p/static/index.html", b"conflict"),
        10 => f.del("/w/p/static"),
        11 => f.set("/w/p/content/d.json", if flip() { b"[\"2\"]" } else { b"[3" }),
        12 => f.set("/w/p/content/a/b.md", b"---\nt: \"U\"\nu: \"V\"\n---\ny"),
        13 => f.set("/w/p/content/md.html", b"{{ begin(\"m\") }}{{ $self.t }}{{ end(\"m\") }}"),
        14 => f.set("/w/p/temp/gen", b"g"),
        15 => f.del("/w/p/content/a"),
        16 => f.set("/w/p/dist/mine", b"m"),
        17 => f.del("/w/p/content/d.json"),
        18 => f.set("/w/p/content/q.md", b"---\ntitle: \"Q\"\n---\nw"),
        _ => {}
    }
}
pub fn shown(e: &Box<dyn StuartError>) -> Vec<u8> {
    fs().out.clear();
    e.print();
    fs().out.clone()
}
/// What is below a directory of /w, and the metadata.
pub fn products(d: &str) -> (Vec<(Vec<u8>, Kind, Vec<u8>)>, Vec<u8>) {
    let t = snap("/w").into_iter().filter(|x| under(&x.0, d.as_bytes())).map(|x| (x.0[d.len()..].to_vec(), x.1, x.3)).collect();
    (t, fs().get("/w/p/metadata.json").unwrap_or(b"").to_vec())
}
/// After any history of changes and builds, a build does what that of a new process does.
pub fn c31_rebuild(n: usize) {
    whole_site(true);
    let f = fs();
    f.set("/w/p/content/p.html", b"{{ begin(\"m\") }}{{ import($d, \"d.json\") }}{{ for($x, \"a/\") }}{{ $x.t }}{{ end(for) }}{{ for($y, $d) }}{{ $y }}{{ end(for) }}{{ end(\"m\") }}");
    f.set("/w/p/content/d.json", b"[\"1\"]");
    f.set("/w/p/content/q.md", b"---\ntitle: \"Q\"\n---\n{{ import($d, \"d.json\") }}{{ for($y, $d) }}{{ $y }}{{ end(for) }}{{ for($x, \"a/\") }}{{ $x.t }}{{ end(for) }}");
    f.del("/w/p/scripts");
    f.rev = flip();
    let mut c = match StuartContext::init("stuart.toml", "dist", "production") {
        Ok(c) => c,
        Err(_) => fail("the project is not loaded"),
    };
    let first = c.build();
    if let Err(e) = &first {
        observe(&shown(e));
        fail("the project does not build");
    }
    let mut last = Ok(());
    for i in 0..n {
        edit(choose(20));
        if i + 1 < n && flip() {
            continue;
        }
        // what the build leaves behind must not depend on what was there
        if i + 1 == n {
            let before = snap("/w");
            last = c.build().map(|_| ());
            let (mine, mine_m) = products("p/dist");
            restore(&before);
            let r = StuartContext::init("stuart.toml", "/w/fresh", "production").and_then(|mut c| c.build());
            observe(fs().listing("/w").as_bytes());
            let (fresh, fresh_m) = products("fresh");
            check(r.is_ok() == last.is_ok(), "whether a build succeeds depends on the builds before it");
            match (&last, &r) {
                (Ok(_), Ok(_)) => {
                    check(mine == fresh, "the output depends on the builds before it");
                    check(mine_m == fresh_m, "the metadata depends on the builds before it");
                    cover("built");
                }
                (Err(a), Err(b)) => {
                    let (a, b) = (shown(a), shown(b));
                    eq(&a, &b, "the error depends on the builds before it");
                    cover("failed");
                }
                _ => {}
            }
        } else {
            let _ = c.build();
        }
    }
    let _ = last;
}
/// Puts the files of the project back as they were.
pub fn restore(t: &Tree) {
    let f = fs();
    f.del("/w/p/temp");
    for x in t {
        let p = format!("/w/{}", String::from_utf8_lossy(&x.0));
        if under(&x.0, b"p/temp") || x.0.as_slice() == b"p/metadata.json" {
            if x.1 == Kind::Dir {
                f.put_dir(&p);
            } else {
                f.set(&p, &x.3);
            }
        }
    }
}
entries! {
    c31_rebuild(n): h_c31_rebuild_1 = 1, h_c31_rebuild_2 = 2, h_c31_rebuild_3 = 3;
}
