mod exec;
mod expr;
mod ll;
mod mem;
mod z3;

use exec::{Exec, State, Stop};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn getpid() -> i32;
    fn _exit(c: i32) -> !;
    fn getppid() -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

struct Shared {
    tokens: AtomicI64,
    paths: AtomicU64,
    viol: AtomicU64,
    stop: AtomicU64,
}

struct Cfg {
    out: String,
    deadline: f64,
    max_viol: u64,
    sample_every: u64,
    sample_max: u64,
    share_ms: u128,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Proc {
    file: Option<std::fs::File>,
    covers: BTreeSet<String>,
    vkeys: BTreeMap<String, u32>,
    inconc: BTreeMap<String, u64>,
    samples: u64,
    outcomes: BTreeMap<String, u64>,
    kids: Vec<i32>,
    left: u64,
    selfbad: u64,
}

impl Proc {
    fn new() -> Proc {
        Proc { file: None, covers: BTreeSet::new(), vkeys: BTreeMap::new(), inconc: BTreeMap::new(), samples: 0, outcomes: BTreeMap::new(), kids: vec![], left: 0, selfbad: 0 }
    }
    fn emit(&mut self, cfg: &Cfg, s: &str) {
        if self.file.is_none() {
            let p = format!("{}/{}.jsonl", cfg.out, unsafe { getpid() });
            self.file = Some(std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap());
        }
        self.file.as_mut().unwrap().write_all(format!("{}\n", s).as_bytes()).unwrap();
    }
}

fn record(ex: &mut Exec, st: &State, kind: &str, info: &str, label: &str) -> String {
    let ins: Vec<String> = ex.inputs(st).iter().map(|(w, v)| format!("[{},{}]", w, v)).collect();
    let obs: Vec<String> = ex
        .observed(st)
        .iter()
        .map(|o| {
            let h: String = o.iter().map(|b| format!("{:02x}", b)).collect();
            format!("\"{}\"", h)
        })
        .collect();
    let notes: Vec<String> = st.notes.iter().map(|n| js(n)).collect();
    format!("{{\"t\":{},\"kind\":{},\"label\":{},\"inputs\":[{}],\"obs\":[{}],\"notes\":[{}],\"steps\":{},\"forks\":{}}}", js(kind), js(info), js(label), ins.join(","), obs.join(","), notes.join(","), st.steps, st.forks)
}

fn report_viol(ex: &mut Exec, pr: &mut Proc, sh: &Shared, cfg: &Cfg, kind: &str, label: &str, st: &State, bt: &[String]) {
    let notes = st.notes.join("|");
    let key = format!("{}|{}|{}", kind, label, notes);
    let n = pr.vkeys.entry(key).or_insert(0);
    *n += 1;
    if *n <= 3 {
        let mut r = record(ex, st, "violation", kind, label);
        r.pop();
        let b: Vec<String> = bt.iter().take(12).map(|x| js(x)).collect();
        r.push_str(&format!(",\"bt\":[{}]}}", b.join(",")));
        pr.emit(cfg, &r);
    }
    if sh.viol.fetch_add(1, SeqCst) + 1 >= cfg.max_viol {
        sh.stop.store(1, SeqCst);
    }
}

fn work(ex: &mut Exec, pr: &mut Proc, sh: &Shared, cfg: &Cfg, t0: Instant) {
    let mut n = 0u64;
    // a process shares its work only after it has done some, or else forking takes all the time
    let mut since = Instant::now();
    while let Some(st) = ex.pending.pop() {
        if sh.stop.load(SeqCst) != 0 || t0.elapsed().as_secs_f64() > cfg.deadline {
            pr.left += 1 + ex.pending.len() as u64;
            ex.pending.clear();
            return;
        }
        ex.st = st;
        let stop = ex.run();
        let vs = std::mem::take(&mut ex.viol);
        for (k, l, st) in vs {
            report_viol(ex, pr, sh, cfg, &k, &l, &st, &[]);
        }
        let st = ex.st.clone();
        ex.stats.maxsteps = ex.stats.maxsteps.max(st.steps);
        pr.covers.extend(st.covers.iter().cloned());
        match stop {
            Stop::Silent => ex.stats.silent += 1,
            Stop::Done(s) => {
                ex.stats.paths += 1;
                sh.paths.fetch_add(1, SeqCst);
                *pr.outcomes.entry(s.clone()).or_insert(0) += 1;
                n += 1;
                if (n <= 2 || n % cfg.sample_every == 0) && pr.samples < cfg.sample_max {
                    pr.samples += 1;
                    let r = record(ex, &st, "path", &s, "");
                    pr.emit(cfg, &r);
                }
                if n % 16 == 1 && !ex.selfcheck(&st) {
                    pr.selfbad += 1;
                }
            }
            Stop::Violation(k, l) => {
                ex.stats.paths += 1;
                sh.paths.fetch_add(1, SeqCst);
                *pr.outcomes.entry(format!("violation {}", k)).or_insert(0) += 1;
                let bt = ex.backtrace();
                report_viol(ex, pr, sh, cfg, &k, &l, &st, &bt);
            }
            Stop::Inconclusive(s) => {
                let bt = ex.backtrace();
                let k = format!("{} in {}", s, bt.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
                *pr.inconc.entry(k).or_insert(0) += 1;
            }
        }
        // hand half of the pending work to an idle processor
        if ex.pending.len() >= 2 && sh.tokens.load(SeqCst) > 0 && since.elapsed().as_millis() >= cfg.share_ms {
            since = Instant::now();
            if sh.tokens.fetch_sub(1, SeqCst) <= 0 {
                sh.tokens.fetch_add(1, SeqCst);
            } else {
                let half = ex.pending.len().div_ceil(2);
                let me = unsafe { getpid() };
                let p = unsafe { fork() };
                if p == 0 {
                    unsafe { prctl(1, 9, 0, 0, 0) };
                    if unsafe { getppid() } != me {
                        unsafe { _exit(3) };
                    }
                    ex.pending.truncate(half);
                    ex.stats = Default::default();
                    ex.qlog.clear();
                    ex.z.queries = 0;
                    ex.z.sat = 0;
                    ex.z.unsat = 0;
                    ex.z.unknown = 0;
                    ex.z.secs = 0.0;
                    *pr = Proc::new();
                    work(ex, pr, sh, cfg, t0);
                    sh.tokens.fetch_add(1, SeqCst);
                    finish(ex, pr, cfg);
                    unsafe { _exit(0) };
                } else if p > 0 {
                    pr.kids.push(p);
                    ex.pending.drain(..half);
                } else {
                    sh.tokens.fetch_add(1, SeqCst);
                }
            }
        }
    }
}

fn finish(ex: &mut Exec, pr: &mut Proc, cfg: &Cfg) {
    let mut bad = 0;
    for k in pr.kids.clone() {
        let mut st = 0;
        unsafe { waitpid(k, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    let m = |b: &BTreeMap<String, u64>| b.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let fns: Vec<String> = (0..ex.executed.len()).filter(|i| ex.executed[*i]).map(|i| js(ex.fname(i as u32))).collect();
    let cov: Vec<String> = pr.covers.iter().map(|c| js(c)).collect();
    let s = &ex.stats;
    let r = format!(
        "{{\"t\":\"stats\",\"paths\":{},\"silent\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"checks_z3\":{},\"implied\":{},\"selfchecks\":{},\"selfbad\":{},\"maxdepth\":{},\"maxsyms\":{},\"maxsteps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"secs\":{:.3},\"left\":{},\"badkids\":{},\"inconclusive\":{{{}}},\"outcomes\":{{{}}},\"labels\":{{{}}},\"covers\":[{}],\"functions\":[{}]}}",
        s.paths, s.silent, s.forks, s.steps, s.checks, s.checks_z3, s.implied, s.selfchecks, pr.selfbad, s.maxdepth, s.maxsyms, s.maxsteps, ex.z.queries, ex.z.sat, ex.z.unsat, ex.z.unknown, ex.z.secs, pr.left, bad,
        m(&pr.inconc), m(&pr.outcomes), m(&ex.qlog), cov.join(","), fns.join(",")
    );
    pr.emit(cfg, &r);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut pos = vec![];
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            opt.insert(k.to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    if pos.len() < 2 {
        eprintln!("usage: symx MODULE.ll ENTRY --out DIR [--time S] [--procs N] [--steps N] [--maxviol N] [--rlimit N]");
        return 2;
    }
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&pos[0]).unwrap().into_boxed_str());
    let m = ll::Module::load(text);
    let mut ex = Exec::new(m, num("rlimit", 20_000_000) as u32);
    ex.lim.steps = num("steps", 100_000_000);
    ex.lim.depth = num("depth", 6000) as u32;
    ex.trace = opt.contains_key("trace");
    ex.sites = opt.contains_key("sites");
    if let Err(e) = ex.start(&pos[1]) {
        eprintln!("symx: {}", e);
        return 2;
    }
    let cfg = Cfg { out: opt.get("out").cloned().unwrap_or(".".into()), deadline: num("time", 600) as f64, max_viol: num("maxviol", 200), sample_every: num("sample-every", 50), sample_max: num("sample-max", 12), share_ms: num("share-ms", 60) as u128 };
    let sh: &Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.tokens.store(num("procs", 8) as i64 - 1, SeqCst);
    let st = ex.st.clone();
    ex.pending.push(st);
    let mut pr = Proc::new();
    work(&mut ex, &mut pr, sh, &cfg, t0);
    sh.tokens.fetch_add(1, SeqCst);
    finish(&mut ex, &mut pr, &cfg);
    0
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(2);
    std::process::exit(r);
}
