//! C28 (rebuilding on changes).
use crate::build::StuartContext;
use crate::hcommon::*;
use crate::project::products;
use crate::serve::h_inner::{watch, Clients};
use humphrey::stream::Stream;
use humphrey_ws::WebsocketStream;
use notify::{op, RawEvent};
use std::os::fd::FromRawFd;
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Mutex};
use vrt::proc::{exit, procs};
use vrt::sys::{socket, sys};

const RELOAD: &[u8] = &[0x81, 6, b'r', b'e', b'l', b'o', b'a', b'd'];
const INDEX: &str = "/w/p/content/index.html";

struct World {
    tx: Sender<RawEvent>,
    clients: Clients,
    /// Sockets of the clients, how many messages each must have had, and whether it is gone.
    socks: Vec<(usize, usize, bool)>,
    /// What the program has written since its events were last delivered is what the log has from here.
    seen: usize,
    /// Deliver the events of a build's own writes before it ends, or once the server waits.
    early: bool,
    builds: usize,
    /// Builds that there may be, and whether one must come.
    allowed: usize,
    due: bool,
    steps: usize,
    during: bool,
    lost: bool,
    out: &'static str,
}
static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}
fn send(path: Option<&str>, op: op::Op) {
    let _ = world().tx.send(RawEvent { path: path.map(PathBuf::from), op: Ok(op), cookie: None });
}
/// What the kernel reports for what the program itself has written below the project.
fn own() {
    let w = world();
    let log: Vec<(u8, Vec<u8>)> = fs().log[w.seen..].iter().map(|(k, p)| (*k as u8, p.clone())).collect();
    w.seen = fs().log.len();
    let mut last: Vec<u8> = Vec::new();
    for (_, p) in log {
        if p.starts_with(b"/w/p/") && p != last {
            send(std::str::from_utf8(&p).ok(), op::WRITE);
        }
        last = p;
    }
}
fn join() {
    let fd = socket();
    let w = world();
    let s = unsafe { std::net::TcpStream::from_raw_fd(fd) };
    w.clients.lock().unwrap().push(WebsocketStream::new(Stream::Tcp(s)));
    w.socks.push((sys().socks.len() - 1, 0, false));
}
/// A change made by the author, and its events.
fn change(k: usize) -> bool {
    let f = fs();
    let rebuild = match k {
        0 => {
            f.set(INDEX, &[b"{{ begin(\"m\") }}", &[b'a' + choose(2) as u8][..], b"{{ end(\"m\") }}"].concat());
            send(Some(INDEX), op::WRITE);
            if flip() {
                send(Some(INDEX), op::CLOSE_WRITE);
            }
            true
        }
        1 => {
            f.set("/w/p/content/bad.html", b"{{ $nope }}");
            send(Some("/w/p/content/bad.html"), op::CREATE);
            send(Some("/w/p/content/bad.html"), op::WRITE);
            true
        }
        2 => {
            f.del("/w/p/content/bad.html");
            send(Some("/w/p/content/bad.html"), op::REMOVE);
            true
        }
        3 => {
            send(Some("/w/p/stuart.toml"), op::WRITE);
            false
        }
        4 => {
            f.set("/w/p/content/stuart.toml", &[b'x', choose(2) as u8]);
            send(Some("/w/p/content/stuart.toml"), op::WRITE);
            true
        }
        5 => {
            f.set("/w/p/static/dist/s.css", &[b'x', choose(2) as u8]);
            send(Some("/w/p/static/dist/s.css"), op::WRITE);
            true
        }
        6 => {
            f.set("/w/p/content/temp/metadata.json", b"[]");
            send(Some("/w/p/content/temp/metadata.json"), op::WRITE);
            true
        }
        7 => {
            // the kernel's queue was full: something has changed
            f.set(INDEX, b"{{ begin(\"m\") }}z{{ end(\"m\") }}");
            send(None, op::RESCAN);
            true
        }
        8 => {
            // of a directory that is no longer watched
            send(None, op::WRITE);
            false
        }
        9 => {
            join();
            false
        }
        10 if world().socks.len() > 8 => {
            let (from, n) = (pick(&[0usize, 1, 15, 16]), pick(&[1usize, 2, 17]));
            for s in world().socks.iter_mut().skip(from).take(n) {
                s.2 = true;
                sys().socks[s.0].broken = true;
            }
            false
        }
        10 => {
            // any of the clients go away
            for s in world().socks.iter_mut().filter(|s| !s.2) {
                if flip() {
                    s.2 = true;
                    sys().socks[s.0].broken = true;
                }
            }
            false
        }
        11 => {
            f.set("/w/p/distant", &[choose(2) as u8]);
            send(Some("/w/p/distant"), op::WRITE);
            true
        }
        _ => {
            let w = world();
            let _ = w.tx.send(RawEvent { path: None, op: Err(notify::Error::Generic("x".into())), cookie: None });
            false
        }
    };
    world().seen = fs().log.len();
    rebuild
}
/// The state when the server waits for the next event.
fn settled() {
    let w = world();
    check(!w.due, "a change does not lead to a rebuild");
    check(w.builds <= w.allowed, "a rebuild happens without a change");
    for s in w.socks.iter() {
        let k = &sys().socks[s.0];
        if s.2 {
            continue;
        }
        check(!k.closed, "a client is dropped");
        let want: Vec<u8> = RELOAD.repeat(s.1);
        eq(&k.sent, &want, "a client is not told to reload, or told more than once");
    }
}
/// What is in the output is what a build of the current files gives.
fn current() {
    let w = world();
    let (mine, mine_m) = products(&w.out[3..]);
    procs().on = Some(Box::new(|_| exit(0, b"", b"")));
    let r = StuartContext::init("stuart.toml", "/w/fresh", "development").and_then(|mut c| c.build());
    if let Err(e) = &r {
        cover("failing project");
        let f = fs();
        let shown = std::mem::take(&mut f.out);
        e.print();
        let e = std::mem::take(&mut f.out);
        check(e.is_empty() || shown.windows(e.len()).any(|x| x == e), "the error of a failing build is not displayed");
        return;
    }
    let (fresh, fresh_m) = products("fresh");
    observe(fs().listing("/w").as_bytes());
    if w.lost {
        check(mine == fresh, "a change made while a build runs is lost");
    }
    check(mine == fresh, "the output is not that of the current files");
    check(mine_m == fresh_m, "the metadata is not that of the current files");
    cover("up to date");
}
fn blocked() {
    let w = world();
    if w.seen < fs().log.len() {
        // its own writes, reported late
        own();
        return;
    }
    settled();
    if w.steps == 0 {
        current();
        cover("settled");
        end();
    }
    w.steps -= 1;
    let before = fs().exists("/w/p/content/bad.html");
    let _ = before;
    let k = if w.socks.len() > 8 { pick(&[0, 9, 10]) } else { choose(13) };
    if change(k) {
        let w = world();
        w.due = true;
        w.allowed += 1;
    }
    world().early = flip();
}
fn hook(pre: bool) {
    let w = world();
    if pre {
        w.builds += 1;
        w.due = false;
        check(w.builds <= w.allowed, "a rebuild happens without a change");
    }
    if w.during && flip() {
        w.during = false;
        // from now on one more build may come
        let k = if pre { 0 } else { choose(2) * 5 };
        change(k);
        let w = world();
        w.allowed += 1;
        if !pre {
            w.lost = true;
        }
    }
    let w = world();
    if !pre {
        // the build is as good as done: every client there is will be told
        for s in w.socks.iter_mut() {
            s.1 += 1;
        }
        if w.early {
            own();
        }
    }
}
fn c28_run(steps: usize, during: bool, clients_n: usize) {
    let f = fs();
    let meta = flip();
    f.put("/w/p/stuart.toml", format!("[site]\nname = \"N\"\n[settings]\nsave_metadata = {}\n", meta).as_bytes());
    f.put("/w/p/content/root.html", b"<{{ insert(\"m\") }}>");
    f.put(INDEX, b"{{ begin(\"m\") }}i{{ end(\"m\") }}");
    f.put("/w/p/static/s.css", b"css");
    f.put("/w/p/scripts/onPreBuild", b"x");
    f.put("/w/p/scripts/onPostBuild", b"x");
    f.chdir("/w/p");
    set_env(&[]);
    crate::logger::Logger::new(crate::logger::LogLevel::Normal).register();
    let (out, outdir) = pick(&[("dist", "/w/p/dist"), ("out", "/w/p/out"), ("/w/q", "/w/q"), ("./build/site", "/w/p/build/site")]);
    if outdir == "/w/p/build/site" {
        f.put_dir("/w/p/build");
    }
    let mut ctx = match StuartContext::init("stuart.toml", out, "development") {
        Ok(c) => c,
        Err(_) => fail("the project is not loaded"),
    };
    procs().on = Some(Box::new(|_| exit(0, b"", b"")));
    if ctx.build().is_err() {
        fail("the project does not build");
    }
    let (tx, rx) = channel();
    let clients: Clients = Arc::new(Mutex::new(Vec::new()));
    unsafe {
        WORLD = Some(World { tx, clients: clients.clone(), socks: vec![], seen: fs().log.len(), early: false, builds: 0, allowed: 0, due: false, steps, during, lost: false, out: outdir });
    }
    for _ in 0..clients_n {
        join();
    }
    procs().on = Some(Box::new(|c| {
        hook(c.argv[1].ends_with(b"onPreBuild"));
        exit(0, b"", b"")
    }));
    sys().blocked = Some(Box::new(blocked));
    watch(rx, clients, PathBuf::from("/w/p"), ctx);
}
fn c28_history(n: usize) {
    c28_run(n, false, 3);
}
fn c28_during(n: usize) {
    c28_run(n, true, 3);
}
/// Many clients.
fn c28_many(n: usize) {
    c28_run(n, false, pick(&[17, 33]));
}
entries! {
    c28_many(n): h_c28_many_2 = 2, h_c28_many_3 = 3;
    c28_history(n): h_c28_history_1 = 1, h_c28_history_2 = 2, h_c28_history_3 = 3;
    c28_during(n): h_c28_during_1 = 1, h_c28_during_2 = 2;
}
