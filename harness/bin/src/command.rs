//! C32: the command line, from the arguments of the process to its exit status.
use crate::hcommon::*;
use vrt::proc::{exit as exits, procs, Call};

static mut AFTER: Option<Box<dyn FnOnce(i32)>> = None;
/// The program leaves.
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    #[allow(static_mut_refs)]
    match AFTER.take() {
        Some(f) => f(code),
        None => fail("the program exits twice"),
    }
    end()
}
/// Runs the program with the arguments; what is to hold afterwards gets its exit status.
fn run(args: &[&[u8]], after: Box<dyn FnOnce(i32)>) {
    let mut a: Vec<&[u8]> = vec![b"stuart"];
    a.extend_from_slice(args);
    for x in &a {
        observe(x);
    }
    set_args(&a);
    fs().out.clear();
    fs().log.clear();
    unsafe { AFTER = Some(after) };
    crate::stuart_main();
    #[allow(static_mut_refs)]
    match unsafe { AFTER.take() } {
        Some(f) => f(0),
        None => fail("the program goes on after its end"),
    }
}
fn has(b: &[u8]) -> bool {
    fs().out.windows(b.len()).any(|w| w == b)
}
/// How much is to be printed: nothing but errors, or what the program likes.
fn volume() -> (Option<&'static [u8]>, bool) {
    pick(&[(None, false), (Some(b"-q"), true), (Some(b"--quiet"), true), (Some(b"-v"), false), (Some(b"--verbose"), false)])
}
fn site() {
    let f = fs();
    f.put("/w/p/stuart.toml", b"[site]\nname = \"N\"\n");
    f.put("/w/p/other.toml", b"[site]\nname = \"O\"\n[settings]\nsave_metadata = true\n");
    f.put("/w/p/bad.toml", b"[site]\n");
    f.put("/w/p/content/root.html", b"<{{ insert(\"m\") }}>");
    f.put("/w/p/content/index.html", b"{{ begin(\"m\") }}i{{ end(\"m\") }}");
    f.put("/w/p/static/s", b"s");
    f.put("/w/keep", b"k");
    // of the same names as the output, elsewhere
    f.put("/w/dist/keep", b"d");
    f.put("/w/out/keep", b"o");
    procs().on = Some(Box::new(|_: &Call| exits(0, b"x\n", b"")));
}
/// What the end of the program shows: success or failure, and the output that goes with it.
fn ended(code: i32, good: bool, quiet: bool) {
    // (the output shows how long a build took)
    Obs::new().n(code as u64).n(fs().out.is_empty() as u64).n(has(b"error") as u64).done();
    if good {
        check(code == 0, "a command which succeeds exits with another status than 0");
        check(!quiet || fs().out.is_empty(), "something other than an error is printed in spite of -q");
        check(!has(b"error:"), "a command which succeeds prints an error");
        cover("success");
    } else {
        check(code != 0, "a command which fails exits with status 0");
        check(has(b"error"), "a command which fails prints no error");
        cover("failure");
    }
}
/// `build` with every way to name the manifest and the output, on good and on broken projects.
fn c32_build(_n: usize) {
    site();
    let f = fs();
    let broken = choose(5);
    match broken {
        1 => {
            f.set("/w/p/content/index.html", b"{{ begin(\"m\") }}{{ nope() }}{{ end(\"m\") }}");
        }
        2 => {
            f.put("/w/p/static/index.html", b"s");
        }
        3 => {
            f.put("/w/p/scripts/onPreBuild", b"");
            procs().on = Some(Box::new(|_: &Call| exits(3, b"out", b"bad")));
        }
        4 => {
            f.put("/w/p/scripts/onPostBuild", b"");
        }
        _ => (),
    }
    f.put("/w/p/dist/old", b"o");
    let (vol, quiet) = volume();
    // the arguments, the directory, and the manifest meant
    let (m, dir, name): (&[&[u8]], &str, Option<&str>) = pick(&[
        (&[] as &[&[u8]], "/w/p", Some("N")),
        (&[], "/w", None),
        (&[b"--manifest-path", b"p/stuart.toml"], "/w", Some("N")),
        (&[b"--manifest-path=/w/p/stuart.toml"], "/", Some("N")),
        (&[b"--manifest-path", b"other.toml"], "/w/p", Some("O")),
        (&[b"--manifest-path=../stuart.toml"], "/w/p/content", Some("N")),
        (&[b"--manifest-path", b"gone.toml"], "/w/p", None),
        (&[b"--manifest-path", b"bad.toml"], "/w/p", None),
        (&[b"--manifest-path", b"content"], "/w/p", None),
    ]);
    let (o, out): (&[&[u8]], &'static str) = pick(&[(&[] as &[&[u8]], "p/dist"), (&[b"-o", b"out"], "p/out"), (&[b"--output=out"], "p/out"), (&[b"--output", b"/w/abs"], "abs"), (&[b"-oout"], "p/out"), (&[b"-o", b"../up"], "up")]);
    let mut a: Vec<&[u8]> = vec![];
    a.extend(vol);
    a.push(b"build");
    if flip() {
        a.extend_from_slice(m);
        a.extend_from_slice(o);
    } else {
        a.extend_from_slice(o);
        a.extend_from_slice(m);
    }
    f.chdir(dir);
    let before = f.tree("/w");
    run(&a, Box::new(move |code| {
        let f = fs();
        let good = name.is_some() && (broken == 0 || broken == 4);
        ended(code, good, quiet);
        if !good {
            check(f.tree("/w") == before, "a build which fails changes files");
            return;
        }
        let at = |p: &str| f.get(&format!("/w/{}/{}", out, p)).map(|d| d.to_vec());
        check(at("index.html").as_deref() == Some(b"<i>") && at("s").as_deref() == Some(b"s"), "the output directory named does not hold the site");
        check(procs().calls.len() == (broken == 4) as usize, "the scripts are not run once");
        check(at("old").is_none(), "the output directory holds more than the site");
        let meta = f.get("/w/p/metadata.json").map(|d| d.to_vec());
        check(meta.is_some() == (name == Some("O")), "the settings are not those of the manifest named");
        for x in f.tree("/w") {
            let p = x.0.clone();
            let of = p == out.as_bytes() || (p.starts_with(out.as_bytes()) && p[out.len()] == b'/');
            check(of || p == b"p/metadata.json" || before.iter().any(|b| *b == x), "something outside of the output is changed");
        }
        check(before.iter().all(|b| (b.0.starts_with(b"p/dist") && out == "p/dist") || f.tree("/w").iter().any(|x| x == b)), "something outside of the output is removed");
    }));
}
/// Command lines which mean nothing, or ask for help.
fn c32_other(n: usize) {
    site();
    let f = fs();
    f.chdir("/w/p");
    let before = f.tree("/w");
    let l: &[(&[&[u8]], bool)] = &[
        (&[], false),
        (&[b"frob"], false),
        (&[b"Build"], false),
        (&[b"build", b"extra"], false),
        (&[b"build", b"--frob"], false),
        (&[b"build", b"-o"], false),
        (&[b"build", b"--manifest-path"], false),
        (&[b"-q", b"-v", b"build"], false),
        (&[b"-qv", b"clean"], false),
        (&[b"build", b"-o", b"a", b"-o", b"b"], false),
        (&[b"new"], false),
        (&[b"new", b"a", b"b"], false),
        (&[b"new", b"a", b"--git"], false),
        (&[b"new", b"content"], false),
        (&[b"bench", b"-i", b"x"], false),
        (&[b"bench", b"-i", b"-1"], false),
        (&[b"bench", b"--iters", b"1.5"], false),
        (&[b"bench", b"-i", b"99999999999999999999999"], false),
        (&[b"clean", b"x"], false),
        (&[b"build", b"-o", b"\xff"], false),
        (&[b"--frob", b"build"], false),
        (&[b"dev", b"extra"], false),
        (&[b"dev", b"-o"], false),
        (&[b"dev", b"--manifest-path", b"gone.toml"], false),
        (&[b"dev", b"--manifest-path=bad.toml"], false),
        (&[b"dev", b"--manifest-path", b"content"], false),
        (&[b"-q", b"dev", b"--manifest-path", b"bad.toml"], false),
        (&[b"--help"], true),
        (&[b"-h"], true),
        (&[b"--version"], true),
        (&[b"-V"], true),
        (&[b"help"], true),
        (&[b"help", b"build"], true),
        (&[b"build", b"--help"], true),
        (&[b"new", b"-h"], true),
    ];
    if n == 0 {
        let (a, good) = pick(l);
        run(a, Box::new(move |code| {
            ended(code, good, false);
            check(fs().tree("/w") == before, "a command line which means nothing changes files");
            check(!good || !fs().out.is_empty(), "the help is not printed");
        }));
    } else {
        // any other word instead of a command
        let w = ascii(n);
        assume(w.bytes().all(|b| b != 0) && !w.starts_with('-') && w != "dev");
        run(&[w.as_bytes()], Box::new(move |code| {
            ended(code, false, false);
            check(fs().tree("/w") == before, "a command line which means nothing changes files");
        }));
    }
}
/// The other commands, where they succeed and where they do not.
fn c32_command(_n: usize) {
    site();
    let f = fs();
    let (vol, quiet) = volume();
    let dir = pick(&["/w/p", "/w"]);
    f.put("/w/p/dist/old", b"o");
    f.chdir(dir);
    let inside = dir == "/w/p";
    let fault = flip();
    if fault {
        // the first change fails
        f.writes = 0;
        f.fail_write = 0;
        f.errno = vrt::vfs::EIO;
    }
    let before = f.tree("/w");
    let mut a: Vec<&[u8]> = vec![];
    a.extend(vol);
    match choose(3) {
        0 => {
            a.push(b"clean");
            run(&a, Box::new(move |code| {
                ended(code, inside && !fault, quiet);
                check(fs().exists("/w/p/dist") == !(inside && !fault), "the products of the build are not removed");
            }));
        }
        1 => {
            a.push(b"new");
            let no_git = flip();
            if no_git && flip() {
                a.push(b"--no-git");
                a.push(b"site");
            } else {
                a.push(b"site");
                if no_git {
                    a.push(b"--no-git");
                }
            }
            run(&a, Box::new(move |code| {
                ended(code, !fault, quiet);
                let p = if inside { "/w/p/site/stuart.toml" } else { "/w/site/stuart.toml" };
                check(fs().exists(p) == !fault, "the project is not created");
                let inits = procs().calls.iter().filter(|c| c.argv.get(1).map(|a| a.as_slice()) == Some(b"init")).count();
                check(fault || (inits == 1) == !no_git, "a repository is made or not, wrongly");
            }));
        }
        _ => {
            a.push(b"bench");
            let broken = flip();
            if broken {
                f.set("/w/p/content/index.html", b"{{ nope() }}");
            }
            // each build begins with the scripts
            f.put("/w/p/scripts/onPreBuild", b"");
            let late = choose(4);
            if late > 0 {
                // and the one of that number fails
                procs().on = Some(Box::new(move |_: &Call| if procs().calls.len() + 1 == late { exits(1, b"", b"bad") } else { exits(0, b"", b"") }));
            }
            let (i, times): (&[&[u8]], usize) = pick(&[(&[b"-i" as &[u8], b"1"] as &[&[u8]], 1), (&[b"--iters=3" as &[u8]], 3), (&[b"-i2" as &[u8]], 2), (&[], 10), (&[b"-i" as &[u8], b"0"], 0)]);
            a.extend_from_slice(i);
            run(&a, Box::new(move |code| {
                let good = inside && (times == 0 || (!broken && !fault)) && !(late > 0 && late <= times);
                ended(code, good, quiet);
                let n = procs().calls.len();
                check(n == if !inside { 0 } else if good { times } else if broken || fault { 1 } else { late }, "the site is not built as often as asked for");
                check(!good || times == 0 || fs().get("/w/p/dist/index.html").map(|d| d.to_vec()).as_deref() == Some(b"<i>"), "the site is not built");
                check(procs().calls.iter().all(|c| c.var("STUART_ENV") == Some(b"benchmark")), "STUART_ENV differs");
            }));
        }
    }
    let _ = before;
}
entries! {
    c32_build(n): h_c32_build = 0;
    c32_other(n): h_c32_other_0 = 0, h_c32_other_2 = 2, h_c32_other_3 = 3;
    c32_command(n): h_c32_command = 0;
}
