//! Symbolic interpreter over the LLVM IR of the program under check.

use crate::expr::{FOp, Store, E, N};
use crate::ll::*;
use crate::mem::{Mem, Obj};
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    W(Rc<u128>),
    Agg(Rc<Vec<Val>>),
}

pub struct Code {
    pub body: Body,
    pub kvals: Vec<Val>,
    pub kind: Vec<u8>,
}

#[derive(Clone)]
pub struct Frame {
    pub code: Rc<Code>,
    pub fi: u32,
    pub regs: Vec<Val>,
    pub ip: u32,
    pub blk: u32,
    pub sp0: u64,
}

pub struct Link {
    pub f: Frame,
    pub next: Option<Rc<Link>>,
}

impl Drop for Link {
    fn drop(&mut self) {
        let mut n = self.next.take();
        while let Some(r) = n {
            match Rc::try_unwrap(r) {
                Ok(mut l) => n = l.next.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub callers: Option<Rc<Link>>,
    pub depth: u32,
    pub mem: Mem,
    /// conditions over several variables (or wide ones)
    pub conds: Rc<Vec<E>>,
    /// domain of each small variable, by variable id
    pub doms: Rc<Vec<Option<[u64; 4]>>>,
    pub model: Rc<Vec<u64>>,
    /// variables in creation order
    pub syms: Rc<Vec<u32>>,
    pub steps: u64,
    pub forks: u32,
    pub obs: Rc<Vec<Vec<Val>>>,
    pub notes: Rc<Vec<String>>,
    pub covers: Rc<BTreeSet<String>>,
    pub nchecks: u32,
    /// the thread that runs (0 or 1), and the thread-local objects of thread 1
    pub tid: u64,
    /// the exception in flight
    pub exc: u64,
    pub tls: Rc<BTreeMap<u64, u64>>,
}

pub enum Stop {
    /// path finished normally
    Done(String),
    /// path ended without a verdict of its own (assumption failed / infeasible)
    Silent,
    Violation(String, String),
    Inconclusive(String),
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bi {
    None,
    Memcpy,
    Memset,
    Memcmp,
    Nop,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UCmp,
    SCmp,
    FToSi,
    FToUi,
    FAbs,
    FFloor,
    FCeil,
    FTrunc,
    Assume,
    IsConst,
    Expect,
    Trap,
    Ident,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Strlen,
    Memchr,
    Exit,
    Abort,
    Errno,
    Zero,
    One,
    MinusOne,
    Sysconf,
    Getrandom,
    Syscall,
    ClockGettime,
    WriteFd,
    VSym,
    VAssume,
    VCheck,
    VCover,
    VObserve,
    VConcretize,
    VNote,
    VFail,
    VDone,
    VThread,
    VArgs,
    TlsAddr,
    VIsSym,
    VRawWrite,
    Panic,
    /// a panic which cannot unwind
    Doom,
    Raise,
    CoreMemchr,
    CoreMemrchr,
    CrateMemchr,
    CrateMemchr2,
    CrateMemchr3,
    CrateMemrchr,
    CountChars,
    RustAlloc,
    RustAllocZ,
    RustDealloc,
    RustRealloc,
}

pub fn classify(n: &str, has_body: bool) -> Bi {
    // functions of the program replaced by the engine
    if has_body {
        if n.starts_with("_R") || n.starts_with("_ZN") {
            let t = [
                ("9panicking9panic_fmt", Bi::Panic),
                ("9panicking14panic_nounwind", Bi::Doom),
                ("9panicking18panic_nounwind_fmt", Bi::Doom),
                ("9panicking26panic_nounwind_nobacktrace", Bi::Doom),
                ("9panicking19panic_cannot_unwind", Bi::Doom),
                ("9panicking16panic_in_cleanup", Bi::Doom),
                ("17rust_begin_unwind", Bi::Panic),
                ("18handle_alloc_error", Bi::Doom),
                ("7raw_vec12handle_error", Bi::Panic),
                ("6memchr14memchr_aligned", Bi::CoreMemchr),
                ("5slice6memchr7memrchr", Bi::CoreMemrchr),
                ("6memchr10memchr_raw6detect", Bi::CrateMemchr),
                ("6memchr11memrchr_raw6detect", Bi::CrateMemrchr),
                ("6memchr11memchr2_raw6detect", Bi::CrateMemchr2),
                ("6memchr11memchr3_raw6detect", Bi::CrateMemchr3),
                ("3str5count14do_count_chars", Bi::CountChars),
            ];
            for (s, b) in t {
                if n.ends_with(s) {
                    return b;
                }
            }
            if n.contains("9panicking11begin_panic") && n.starts_with("_RINv") && !n.contains("drop_glue") && !n.contains("backtrace") {
                return Bi::Panic;
            }
        }
        return Bi::None;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let t = [
            ("memcpy.", Bi::Memcpy),
            ("memmove.", Bi::Memcpy),
            ("memset.", Bi::Memset),
            ("umax.", Bi::UMax),
            ("umin.", Bi::UMin),
            ("smax.", Bi::SMax),
            ("smin.", Bi::SMin),
            ("uadd.sat.", Bi::UAddSat),
            ("usub.sat.", Bi::USubSat),
            ("sadd.sat.", Bi::SAddSat),
            ("ssub.sat.", Bi::SSubSat),
            ("ctlz.", Bi::Ctlz),
            ("cttz.", Bi::Cttz),
            ("ctpop.", Bi::Ctpop),
            ("bswap.", Bi::Bswap),
            ("bitreverse.", Bi::Bitrev),
            ("fshl.", Bi::Fshl),
            ("fshr.", Bi::Fshr),
            ("abs.", Bi::Abs),
            ("uadd.with.overflow", Bi::UAddO),
            ("usub.with.overflow", Bi::USubO),
            ("umul.with.overflow", Bi::UMulO),
            ("sadd.with.overflow", Bi::SAddO),
            ("ssub.with.overflow", Bi::SSubO),
            ("smul.with.overflow", Bi::SMulO),
            ("ucmp.", Bi::UCmp),
            ("scmp.", Bi::SCmp),
            ("fptosi.sat", Bi::FToSi),
            ("fptoui.sat", Bi::FToUi),
            ("fabs.", Bi::FAbs),
            ("floor.", Bi::FFloor),
            ("ceil.", Bi::FCeil),
            ("trunc.", Bi::FTrunc),
            ("assume", Bi::Assume),
            ("is.constant", Bi::IsConst),
            ("expect.", Bi::Expect),
            ("trap", Bi::Trap),
            ("threadlocal.address", Bi::TlsAddr),
            ("ptrmask", Bi::None),
            ("lifetime", Bi::Nop),
            ("experimental.noalias", Bi::Nop),
            ("dbg.", Bi::Nop),
            ("x86.sse2.pause", Bi::Nop),
            ("donothing", Bi::Nop),
            ("invariant", Bi::Nop),
            ("prefetch", Bi::Nop),
        ];
        for (s, b) in t {
            if r.starts_with(s) {
                return b;
            }
        }
        return Bi::None;
    }
    if n.contains("___rust_alloc_zeroed") {
        return Bi::RustAllocZ;
    }
    if n.contains("___rust_no_alloc_shim_is_unstable") {
        return Bi::Nop;
    }
    match n {
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "memcmp" | "bcmp" => Bi::Memcmp,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "strlen" => Bi::Strlen,
        "memchr" => Bi::Memchr,
        "exit" | "_exit" => Bi::Exit,
        "abort" => Bi::Abort,
        "_Unwind_RaiseException" => Bi::Raise,
        "__errno_location" => Bi::Errno,
        "getenv" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "sigaction" | "sigaltstack" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "sched_yield" | "getauxval" | "signal" | "munmap" | "mprotect"
        | "pthread_attr_init" | "pthread_attr_destroy" | "nanosleep" | "clock_nanosleep" => Bi::Zero,
        "pthread_self" | "gettid" | "getpid" | "getuid" | "geteuid" => Bi::One,
        "isatty" => Bi::Zero,
        "sysconf" => Bi::Sysconf,
        "getrandom" => Bi::Getrandom,
        "syscall" => Bi::Syscall,
        "clock_gettime" => Bi::ClockGettime,
        "write" | "writev" => Bi::WriteFd,
        "vrt_sym" => Bi::VSym,
        "vrt_assume" => Bi::VAssume,
        "vrt_check" => Bi::VCheck,
        "vrt_cover" => Bi::VCover,
        "vrt_observe" => Bi::VObserve,
        "vrt_concretize" => Bi::VConcretize,
        "vrt_note" => Bi::VNote,
        "vrt_fail" => Bi::VFail,
        "vrt_done" => Bi::VDone,
        "vrt_thread" => Bi::VThread,
        "vrt_args" => Bi::VArgs,
        "vrt_is_sym" => Bi::VIsSym,
        "vrt_rawwrite" => Bi::VRawWrite,
        _ => Bi::None,
    }
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub silent: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_z3: u64,
    pub implied: u64,
    pub domain_splits: u64,
    pub selfchecks: u64,
    pub maxdepth: u64,
    pub maxsyms: u64,
    pub maxsteps: u64,
}

pub struct Limits {
    pub steps: u64,
    pub depth: u32,
}

pub struct Exec {
    pub m: Module,
    pub s: Store,
    pub z: Z3,
    pub code: Vec<Option<Rc<Code>>>,
    pub bi: Vec<Bi>,
    pub st: State,
    pub pending: Vec<State>,
    pub stats: Stats,
    pub lim: Limits,
    pub executed: Vec<bool>,
    pub errno_addr: u64,
    pub memo: HashMap<(Vec<E>, Vec<(u32, [u64; 4])>), Option<Vec<(u32, u64)>>>,
    hardmemo: HashMap<E, bool>,
    tabmemo: HashMap<(E, Vec<Vec<u64>>), E>,
    pub viol: Vec<(String, String, State)>,
    pub qlog: BTreeMap<String, u64>,
    /// Count where paths split and the solver is asked (for development).
    pub sites: bool,
    pub trace: bool,
}

fn trunc(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}

impl Exec {
    pub fn new(m: Module, rlimit: u32) -> Exec {
        let n = m.funcs.len();
        let bi: Vec<Bi> = m.funcs.iter().map(|f| classify(&f.name, f.body.is_some())).collect();
        let mut mem = Mem::new(m.first_free_obj());
        for (i, g) in m.globals.iter().enumerate() {
            let mut o = Obj { b: vec![0; g.size as usize], s: vec![], ro: g.constant };
            if let Some((ty, c)) = &g.init {
                write_const(&mut o.b, 0, ty, c);
            }
            mem.put(1 + i as u64, o);
        }
        let errno_addr = mem.alloc_heap(8);
        let dummy = Frame { code: Rc::new(Code { body: Body { code: vec![], block_start: vec![], phis: vec![], nregs: 0, consts: vec![], has_alloca: false }, kvals: vec![], kind: vec![] }), fi: 0, regs: vec![], ip: 0, blk: 0, sp0: mem.sp };
        let st = State {
            cur: dummy,
            callers: None,
            depth: 0,
            mem,
            conds: Rc::new(vec![]),
            doms: Rc::new(vec![]),
            model: Rc::new(vec![]),
            syms: Rc::new(vec![]),
            steps: 0,
            forks: 0,
            obs: Rc::new(vec![]),
            notes: Rc::new(vec![]),
            covers: Rc::new(BTreeSet::new()),
            nchecks: 0,
            tid: 0,
            exc: 0,
            tls: Rc::new(BTreeMap::new()),
        };
        Exec {
            m,
            s: Store::new(),
            z: Z3::new(rlimit),
            code: (0..n).map(|_| None).collect(),
            bi,
            st,
            pending: vec![],
            stats: Stats::default(),
            lim: Limits { steps: 400_000_000, depth: 6000 },
            executed: vec![false; n],
            errno_addr,
            memo: HashMap::new(),
            hardmemo: HashMap::new(),
            tabmemo: HashMap::new(),
            viol: vec![],
            qlog: BTreeMap::new(),
            sites: false,
            trace: false,
        }
    }

    fn kval(c: &Const) -> Val {
        match c {
            Const::Int(v) => Val::C(*v),
            Const::Wide(v) => Val::W(Rc::new(*v)),
            Const::Agg(v) => Val::Agg(Rc::new(v.iter().map(Self::kval).collect())),
        }
    }

    pub fn get_code(&mut self, fi: u32) -> Rc<Code> {
        if let Some(c) = &self.code[fi as usize] {
            return c.clone();
        }
        let body = self.m.parse_body(fi);
        let kvals = body.consts.iter().map(|(c, _)| Self::kval(c)).collect();
        let c = Rc::new(Code { body, kvals, kind: vec![] });
        self.code[fi as usize] = Some(c.clone());
        self.executed[fi as usize] = true;
        c
    }

    pub fn start(&mut self, name: &str) -> Result<(), String> {
        let fi = *self.m.fidx.get(name).ok_or(format!("no function {}", name))?;
        let code = self.get_code(fi);
        let n = code.body.nregs as usize;
        self.st.cur = Frame { code, fi, regs: vec![Val::C(0); n], ip: 0, blk: 0, sp0: self.st.mem.sp };
        Ok(())
    }

    // ---------------------------------------------------------------- values
    #[inline]
    fn op(&self, o: Op) -> Val {
        match o {
            Op::C(v) => Val::C(v),
            Op::R(r) => self.st.cur.regs[r as usize].clone(),
            Op::K(k) => self.st.cur.code.kvals[k as usize].clone(),
        }
    }
    #[inline]
    fn set(&mut self, d: u32, v: Val) {
        if d != u32::MAX {
            self.st.cur.regs[d as usize] = v;
        }
    }
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.s.c(*x as u128, w),
            Val::W(x) => self.s.c(**x, w),
            Val::S(e) => {
                debug_assert_eq!(self.s.w(*e), w);
                *e
            }
            Val::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.s.cst(e) {
            Some(x) => {
                if self.s.w(e) > 64 {
                    Val::W(Rc::new(x))
                } else {
                    Val::C(x as u64)
                }
            }
            None => Val::S(e),
        }
    }

    // ---------------------------------------------------------------- path condition
    /// Splits a conjunction into its parts.
    fn conj(s: &mut Store, c: E, out: &mut Vec<E>) {
        match s.n(c) {
            N::Bin(BinOp::And, a, b) if s.w(c) == 1 && small1(s, c).is_none() => {
                Self::conj(s, a, out);
                Self::conj(s, b, out);
            }
            N::Not(x) if small1(s, c).is_none() => match s.n(x) {
                N::Bin(BinOp::Or, a, b) => {
                    let na = s.not(a);
                    let nb = s.not(b);
                    Self::conj(s, na, out);
                    Self::conj(s, nb, out);
                }
                _ => out.push(c),
            },
            _ => out.push(c),
        }
    }

    /// Whether a term multiplies or divides.
    fn hard(&mut self, e: E) -> bool {
        if let Some(h) = self.hardmemo.get(&e) {
            return *h;
        }
        let h = match self.s.n(e) {
            N::Const(_) | N::Var(_) => false,
            N::Bin(op, a, b) => matches!(op, BinOp::Mul | BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) || self.hard(a) || self.hard(b),
            N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) | N::Table(_, a) => self.hard(a),
            N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Concat(a, b) => self.hard(a) || self.hard(b),
            N::Ite(c, a, b) => self.hard(c) || self.hard(a) || self.hard(b),
            N::F(..) => false,
        };
        self.hardmemo.insert(e, h);
        h
    }

    /// An equivalent (within the domains) of a condition with multiplications or divisions over
    /// few values: a decision tree over its variables, which is easy for the solver.
    fn tabulate(&mut self, c: E, nd: &BTreeMap<u32, [u64; 4]>) -> E {
        let vars: Vec<u32> = self.s.sup(c).iter().copied().collect();
        if vars.len() > 5 || vars.iter().any(|v| self.s.vars[*v as usize].w > 8) || !self.hard(c) {
            return c;
        }
        let sets: Vec<Vec<u64>> = vars
            .iter()
            .map(|v| {
                let d = nd.get(v).copied().unwrap_or_else(|| dom(&self.s, &self.st, *v));
                (0..1u64 << self.s.vars[*v as usize].w).filter(|x| has4(d, *x)).collect()
            })
            .collect();
        if sets.iter().any(|s| s.is_empty()) || sets.iter().map(|s| s.len()).product::<usize>() > 8192 {
            return c;
        }
        let key = (c, sets);
        if let Some(e) = self.tabmemo.get(&key) {
            return *e;
        }
        let mut m = vec![0u64; *vars.iter().max().unwrap_or(&0) as usize + 1];
        let e = self.tabulate_rec(c, &vars, &key.1, 0, &mut m);
        if self.tabmemo.len() > 20_000 {
            self.tabmemo.clear();
        }
        self.tabmemo.insert(key, e);
        e
    }
    fn tabulate_rec(&mut self, c: E, vars: &[u32], sets: &[Vec<u64>], i: usize, m: &mut Vec<u64>) -> E {
        if i == vars.len() {
            let v = self.evalm(c, m);
            return self.s.c(v, 1);
        }
        let (seq, w) = {
            let v = &self.s.vars[vars[i] as usize];
            (v.seq, v.w)
        };
        let var = self.s.var(seq, w).1;
        let mut out: Option<E> = None;
        for x in sets[i].iter().rev() {
            m[vars[i] as usize] = *x;
            let e = self.tabulate_rec(c, vars, sets, i + 1, m);
            out = Some(match out {
                None => e,
                Some(o) if o == e => o,
                Some(o) => {
                    let k = self.s.c(*x as u128, w);
                    let is = self.s.eq(var, k);
                    self.s.ite(is, e, o)
                }
            });
        }
        out.unwrap()
    }

    fn evalm(&mut self, c: E, m: &[u64]) -> u128 {
        self.s.eval(c, &|id| m.get(id as usize).copied().unwrap_or(0))
    }

    /// Adds a condition to a state (which must keep it satisfiable).
    fn add(s: &mut Store, st: &mut State, c: E) {
        let mut parts = vec![];
        Self::conj(s, c, &mut parts);
        for p in parts {
            if s.cst(p).is_some() {
                continue;
            }
            if let Some(v) = small1(s, p) {
                let t = s.truth(p);
                let d = dom(s, st, v);
                let doms = Rc::make_mut(&mut st.doms);
                if doms.len() <= v as usize {
                    doms.resize(v as usize + 1, None);
                }
                doms[v as usize] = Some(and4(d, t));
            } else if !st.conds.contains(&p) {
                Rc::make_mut(&mut st.conds).push(p);
            }
        }
    }

    /// Is `c` satisfiable together with the path condition?  Returns a model.
    fn feasible(&mut self, c: E, force_z3: bool) -> R<Option<Rc<Vec<u64>>>> {
        let mut parts = vec![];
        Self::conj(&mut self.s, c, &mut parts);
        let mut nd: BTreeMap<u32, [u64; 4]> = BTreeMap::new();
        let mut multi: Vec<E> = vec![];
        for p in parts {
            match self.s.cst(p) {
                Some(1) => continue,
                Some(_) => return Ok(None),
                None => (),
            }
            if let Some(v) = small1(&self.s, p) {
                let t = self.s.truth(p);
                let d = match nd.get(&v) {
                    Some(d) => *d,
                    None => dom(&self.s, &self.st, v),
                };
                let d = and4(d, t);
                if d == [0; 4] {
                    if !force_z3 {
                        return Ok(None);
                    }
                }
                nd.insert(v, d);
            } else {
                let np = self.s.not(p);
                if !force_z3 && self.st.conds.contains(&np) {
                    return Ok(None);
                }
                multi.push(p);
            }
        }
        // slice of the path condition
        let mut vars: BTreeSet<u32> = nd.keys().copied().collect();
        for p in &multi {
            vars.extend(self.s.sup(*p).iter());
        }
        let conds = self.st.conds.clone();
        let mut used = vec![false; conds.len()];
        loop {
            let mut changed = false;
            for (i, c) in conds.iter().enumerate() {
                if !used[i] && self.s.sup(*c).iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    changed = true;
                    vars.extend(self.s.sup(*c).iter());
                }
            }
            if !changed {
                break;
            }
        }
        let mut all: Vec<E> = conds.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        all.extend(multi.iter());
        let base = self.st.model.clone();
        if !force_z3 {
            // cheap attempts: patch the current model
            let mut m2 = (*base).clone();
            for (v, d) in &nd {
                if m2.len() <= *v as usize {
                    m2.resize(*v as usize + 1, 0);
                }
                if !has4(*d, m2[*v as usize]) {
                    m2[*v as usize] = first4(*d);
                }
            }
            if all.is_empty() {
                return Ok(Some(Rc::new(m2)));
            }
            let sat = |ex: &mut Exec, m: &[u64]| all.iter().all(|c| ex.evalm(*c, m) == 1);
            if sat(self, &m2) {
                return Ok(Some(Rc::new(m2)));
            }
            let tryvars: Vec<u32> = if nd.len() == 1 { nd.keys().copied().collect() } else if nd.is_empty() { vars.iter().copied().take(6).collect() } else { vec![] };
            for v in tryvars {
                if self.s.vars[v as usize].w > 8 {
                    continue;
                }
                let d = nd.get(&v).copied().unwrap_or_else(|| dom(&self.s, &self.st, v));
                let mut m3 = m2.clone();
                if m3.len() <= v as usize {
                    m3.resize(v as usize + 1, 0);
                }
                let mut tries = 0;
                for x in 0..(1u64 << self.s.vars[v as usize].w) {
                    if has4(d, x) {
                        tries += 1;
                        if tries > 24 {
                            break;
                        }
                        m3[v as usize] = x;
                        if sat(self, &m3) {
                            return Ok(Some(Rc::new(m3)));
                        }
                    }
                }
            }
        }
        if !force_z3 && vars.len() <= 4 && vars.iter().all(|v| self.s.vars[*v as usize].w <= 8) {
            // few values altogether: evaluate the terms for each
            let sets: Vec<(u32, Vec<u64>)> = vars
                .iter()
                .map(|v| {
                    let d = nd.get(v).copied().unwrap_or_else(|| dom(&self.s, &self.st, *v));
                    (*v, (0..1u64 << self.s.vars[*v as usize].w).filter(|x| has4(d, *x)).collect())
                })
                .collect();
            if sets.iter().map(|s| s.1.len()).product::<usize>() <= 1024 {
                let mut m = (*base).clone();
                let top = sets.iter().map(|s| s.0 as usize + 1).max().unwrap_or(0);
                if m.len() < top {
                    m.resize(top, 0);
                }
                let mut at = vec![0; sets.len()];
                if sets.iter().any(|s| s.1.is_empty()) {
                    return Ok(None);
                }
                loop {
                    for (i, s) in sets.iter().enumerate() {
                        m[s.0 as usize] = s.1[at[i]];
                    }
                    if all.iter().all(|c| self.evalm(*c, &m) == 1) {
                        return Ok(Some(Rc::new(m)));
                    }
                    let mut i = 0;
                    while i < at.len() {
                        at[i] += 1;
                        if at[i] < sets[i].1.len() {
                            break;
                        }
                        at[i] = 0;
                        i += 1;
                    }
                    if i == at.len() {
                        return Ok(None);
                    }
                }
            }
        }
        let mut doms = vec![];
        for v in &vars {
            let w = self.s.vars[*v as usize].w;
            if w <= 8 {
                let d = nd.get(v).copied().unwrap_or_else(|| dom(&self.s, &self.st, *v));
                if d != full_dom(w) {
                    doms.push((*v, d));
                }
            }
        }
        for c in all.iter_mut() {
            *c = self.tabulate(*c, &nd);
        }
        all.sort();
        all.dedup();
        let vv: Vec<u32> = vars.iter().copied().collect();
        let key = (all, doms);
        let hit = if force_z3 { None } else { self.memo.get(&key).cloned() };
        let r = match hit {
            Some(r) => r,
            None => {
                if self.sites {
                    let b = self.backtrace();
                    *self.qlog.entry(format!("query {}", b[..b.len().min(3)].join(" < "))).or_insert(0) += 1;
                }
                let r = match self.z.check(&self.s, &key.0, &key.1, &vv) {
                    Res::Sat(h) => {
                        let mut v: Vec<(u32, u64)> = h.into_iter().collect();
                        v.sort();
                        Some(v)
                    }
                    Res::Unsat => None,
                    Res::Unknown => return Err(Stop::Inconclusive("solver returned unknown".into())),
                };
                if self.memo.len() > 200_000 {
                    self.memo.clear();
                }
                self.memo.insert(key, r.clone());
                r
            }
        };
        match r {
            None => Ok(None),
            Some(h) => {
                let mut m = (*base).clone();
                for (v, x) in h {
                    if m.len() <= v as usize {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = x;
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }

    /// Chooses the branch to follow; the other one, if feasible, is left pending.
    fn decide(&mut self, c: E) -> R<bool> {
        if let Some(v) = self.s.cst(c) {
            return Ok(v == 1);
        }
        if let Some(v) = small1(&self.s, c) {
            let t = self.s.truth(c);
            let d = dom(&self.s, &self.st, v);
            if and4(d, t) == [0; 4] {
                self.stats.implied += 1;
                return Ok(false);
            }
            if and4(d, not4(t)) == [0; 4] {
                self.stats.implied += 1;
                return Ok(true);
            }
        } else if self.st.conds.contains(&c) {
            return Ok(true);
        }
        let model = self.st.model.clone();
        let b = self.evalm(c, &model) == 1;
        let (yes, no) = if b { (c, self.s.not(c)) } else { (self.s.not(c), c) };
        match self.feasible(no, false)? {
            None => {
                self.stats.implied += 1;
                Ok(b)
            }
            Some(m2) => {
                let mut st2 = self.st.clone();
                st2.model = m2;
                st2.forks += 1;
                Self::add(&mut self.s, &mut st2, no);
                if cfg!(debug_assertions) {
                    let m = st2.model.clone();
                    for c in st2.conds.clone().iter() {
                        assert!(self.evalm(*c, &m) == 1);
                    }
                }
                self.pending.push(st2);
                self.stats.forks += 1;
                if self.sites {
                    let b = self.backtrace();
                    *self.qlog.entry(format!("fork {}", b[..b.len().min(3)].join(" < "))).or_insert(0) += 1;
                }
                Self::add(&mut self.s, &mut self.st, yes);
                self.st.forks += 1;
                Ok(b)
            }
        }
    }

    fn assume(&mut self, c: E) -> R<()> {
        if let Some(v) = self.s.cst(c) {
            return if v == 1 { Ok(()) } else { Err(Stop::Silent) };
        }
        let model = self.st.model.clone();
        if self.evalm(c, &model) != 1 {
            match self.feasible(c, false)? {
                None => return Err(Stop::Silent),
                Some(m) => self.st.model = m,
            }
        }
        Self::add(&mut self.s, &mut self.st, c);
        Ok(())
    }

    fn check(&mut self, c: E, label: &str) -> R<()> {
        self.stats.checks += 1;
        self.st.nchecks += 1;
        match self.s.cst(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::Violation("check".into(), label.to_string())),
            None => (),
        }
        self.stats.checks_z3 += 1;
        *self.qlog.entry(label.to_string()).or_insert(0) += 1;
        let nc = self.s.not(c);
        match self.feasible(nc, true)? {
            None => Ok(()),
            Some(m) => {
                let mut st = self.st.clone();
                st.model = m;
                self.viol.push(("check".into(), label.to_string(), st));
                self.assume(c)
            }
        }
    }

    /// Forces a concrete value (forking over the alternatives).
    fn conc(&mut self, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::Agg(_) => Err(Stop::Inconclusive("concretize aggregate".into())),
            Val::S(e) => {
                let e = *e;
                let model = self.st.model.clone();
                let x = self.evalm(e, &model);
                let k = self.s.c(x, w);
                let c = self.s.eq(e, k);
                let b = self.decide(c)?;
                debug_assert!(b);
                Ok(x as u64)
            }
        }
    }

    fn truth(&mut self, v: &Val) -> R<bool> {
        match v {
            Val::C(x) => Ok(*x & 1 == 1),
            Val::S(e) => self.decide(*e),
            _ => Err(Stop::Inconclusive("branch on aggregate".into())),
        }
    }

    // ---------------------------------------------------------------- memory
    fn fault(&self, what: &str, a: u64, n: u64) -> Stop {
        Stop::Violation("memory".into(), format!("{} of {} bytes at {:x}", what, n, a))
    }
    fn obj(&self, a: u64, n: u64, what: &str) -> R<(&Rc<Obj>, usize)> {
        let off = (a & 0xffff_ffff) as usize;
        match self.st.mem.get(a >> 32) {
            Some(o) if off as u64 + n <= o.b.len() as u64 => Ok((o, off)),
            _ => Err(self.fault(what, a, n)),
        }
    }
    fn obj_mut(&mut self, a: u64, n: u64) -> R<(&mut Obj, usize)> {
        let off = (a & 0xffff_ffff) as usize;
        match self.st.mem.get(a >> 32) {
            Some(o) if off as u64 + n <= o.b.len() as u64 && !o.ro => (),
            _ => return Err(self.fault("write", a, n)),
        }
        Ok((self.st.mem.get_mut(a >> 32).unwrap(), off))
    }
    fn byte(&self, a: u64) -> R<Val> {
        let (o, off) = self.obj(a, 1, "read")?;
        if !o.s.is_empty() && o.s[off] != 0 {
            return Ok(Val::S(o.s[off]));
        }
        Ok(Val::C(o.b[off] as u64))
    }
    fn byte_e(&mut self, a: u64) -> R<E> {
        let v = self.byte(a)?;
        Ok(self.e(&v, 8))
    }
    pub fn load_bits(&mut self, a: u64, bits: u32) -> R<Val> {
        let n = (bits as u64).div_ceil(8);
        let (o, off) = self.obj(a, n, "read")?;
        let n = n as usize;
        if o.s.is_empty() || o.s[off..off + n].iter().all(|x| *x == 0) {
            if bits <= 64 {
                let mut v = 0u64;
                let b = &o.b[off..off + n];
                if n == 8 {
                    v = u64::from_le_bytes(b.try_into().unwrap());
                } else {
                    for (i, x) in b.iter().enumerate() {
                        v |= (*x as u64) << (8 * i);
                    }
                }
                return Ok(Val::C(trunc(v, bits)));
            }
            let mut v = 0u128;
            for (i, x) in o.b[off..off + n].iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            return Ok(Val::W(Rc::new(v & mask128(bits))));
        }
        if n > 16 {
            return Err(Stop::Inconclusive("wide symbolic load".into()));
        }
        let bytes: Vec<(u8, E)> = (0..n).map(|i| (o.b[off + i], o.s[off + i])).collect();
        let mut acc: Option<E> = None;
        for (b, s) in bytes {
            let x = if s != 0 { s } else { self.s.c(b as u128, 8) };
            acc = Some(match acc {
                None => x,
                Some(l) => self.s.concat(x, l),
            });
        }
        let mut e = acc.unwrap();
        if self.s.w(e) > bits {
            e = self.s.extract(e, 0, bits);
        }
        Ok(self.v(e))
    }
    pub fn load(&mut self, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => self.load_bits(a, ty.bits()),
            Ty::Vec(t, n) if t.bits() % 8 != 0 => Err(Stop::Inconclusive(format!("load of <{} x i{}>", n, t.bits()))),
            _ if ty.is_agg() => {
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    let o = ty.field_offset(i);
                    v.push(self.load(a + o, ty.field(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(Stop::Inconclusive("load type".into())),
        }
    }
    pub fn store_bits(&mut self, a: u64, v: &Val, bits: u32) -> R<()> {
        let n = (bits as u64).div_ceil(8);
        match v {
            Val::C(x) => {
                let x = *x;
                let (o, off) = self.obj_mut(a, n)?;
                if n == 8 {
                    o.b[off..off + 8].copy_from_slice(&x.to_le_bytes());
                } else {
                    for i in 0..n as usize {
                        o.b[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                    }
                }
                if !o.s.is_empty() {
                    for s in &mut o.s[off..off + n as usize] {
                        *s = 0;
                    }
                }
                Ok(())
            }
            Val::W(x) => {
                let x = **x;
                let (o, off) = self.obj_mut(a, n)?;
                for i in 0..n as usize {
                    o.b[off + i] = (x >> (8 * i)) as u8;
                    if !o.s.is_empty() {
                        o.s[off + i] = 0;
                    }
                }
                Ok(())
            }
            Val::S(e) => {
                let mut e = *e;
                let w = self.s.w(e);
                if (w as u64) < n * 8 {
                    e = self.s.zext(e, (n * 8) as u32);
                }
                let mut parts = vec![];
                for i in 0..n as u32 {
                    let p = self.s.extract(e, 8 * i, 8);
                    parts.push((p, self.s.cst(p)));
                }
                let (o, off) = self.obj_mut(a, n)?;
                if o.s.is_empty() {
                    o.s = vec![0; o.b.len()];
                }
                for (i, (p, c)) in parts.into_iter().enumerate() {
                    match c {
                        Some(v) => {
                            o.b[off + i] = v as u8;
                            o.s[off + i] = 0;
                        }
                        None => o.s[off + i] = p,
                    }
                }
                Ok(())
            }
            Val::Agg(_) => Err(Stop::Inconclusive("store aggregate bits".into())),
        }
    }
    pub fn store(&mut self, a: u64, v: &Val, ty: &Ty) -> R<()> {
        match v {
            Val::Agg(f) => {
                if let Ty::Vec(t, _) = ty {
                    if t.bits() % 8 != 0 {
                        return Err(Stop::Inconclusive("store of bit vector".into()));
                    }
                }
                let f = f.clone();
                for (i, x) in f.iter().enumerate() {
                    let o = ty.field_offset(i);
                    let t = ty.field(i).clone();
                    self.store(a + o, x, &t)?;
                }
                Ok(())
            }
            _ => self.store_bits(a, v, ty.bits()),
        }
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (so, soff) = self.obj(s, n, "read")?;
        let n = n as usize;
        let bytes = so.b[soff..soff + n].to_vec();
        let syms: Vec<E> = if so.s.is_empty() { vec![] } else { so.s[soff..soff + n].to_vec() };
        let (o, off) = self.obj_mut(d, n as u64)?;
        o.b[off..off + n].copy_from_slice(&bytes);
        if syms.iter().any(|x| *x != 0) {
            if o.s.is_empty() {
                o.s = vec![0; o.b.len()];
            }
            o.s[off..off + n].copy_from_slice(&syms);
        } else if !o.s.is_empty() {
            for x in &mut o.s[off..off + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    /// Address of a load / store; symbolic addresses are handled by the caller or concretized.
    fn addr(&mut self, v: &Val) -> R<u64> {
        self.conc(v, 64)
    }

    fn load_sym(&mut self, p: E, ty: &Ty) -> R<Val> {
        let bits = ty.bits();
        if bits == 0 || bits > 64 {
            return Err(Stop::Inconclusive("symbolic aggregate load".into()));
        }
        let n = (bits as u64).div_ceil(8);
        let model = self.st.model.clone();
        let a = self.evalm(p, &model) as u64;
        let base = a >> 32 << 32;
        let bk = self.s.c(base as u128, 64);
        let off = self.s.bin(BinOp::Sub, p, bk);
        let size = match self.st.mem.get(a >> 32) {
            Some(o) => o.b.len() as u64,
            None => return Err(self.fault("read", a, n)),
        };
        if size < n {
            return Err(self.fault("read", a, n));
        }
        let lim = self.s.c((size - n + 1) as u128, 64);
        let inb = self.s.ult(off, lim);
        if !self.decide(inb)? {
            return Err(Stop::Inconclusive("symbolic address leaves the object".into()));
        }
        // candidate offsets
        let o = self.st.mem.get(a >> 32).unwrap().clone();
        let stride = { self.s.kz(off).trailing_ones().min(12) };
        let maxoff = (self.s.umax(off) as u64).min(size - n);
        if o.s.iter().all(|x| *x == 0) && (maxoff >> stride) <= 4096 {
            let mut t = vec![];
            let mut x = 0;
            while x <= maxoff {
                let mut v = 0u64;
                for i in 0..n as usize {
                    v |= (o.b[x as usize + i] as u64) << (8 * i);
                }
                t.push(trunc(v, bits));
                x += 1 << stride;
            }
            let hi = 64 - (maxoff >> stride).leading_zeros();
            let idx = self.s.extract(off, stride, hi.max(1));
            let e = self.s.table(t, idx, bits);
            return Ok(self.v(e));
        }
        let x = self.conc(&Val::S(p), 64)?;
        self.load(x, ty)
    }

    // ---------------------------------------------------------------- execution
    fn jump(&mut self, to: u32) {
        let code = self.st.cur.code.clone();
        let from = self.st.cur.blk;
        let ph = &code.body.phis[to as usize];
        if !ph.is_empty() {
            let set = ph.iter().find(|s| s.pred == from).expect("phi predecessor");
            if set.moves.len() == 1 {
                let v = self.op(set.moves[0].1);
                self.st.cur.regs[set.moves[0].0 as usize] = v;
            } else {
                let vals: Vec<Val> = set.moves.iter().map(|(_, o)| self.op(*o)).collect();
                for ((r, _), v) in set.moves.iter().zip(vals) {
                    self.st.cur.regs[*r as usize] = v;
                }
            }
        }
        self.st.cur.blk = to;
        self.st.cur.ip = code.body.block_start[to as usize];
    }

    fn ret(&mut self, v: Option<Val>) -> R<()> {
        let sp0 = self.st.cur.sp0;
        if self.st.mem.sp != sp0 {
            self.st.mem.pop_stack(sp0);
        }
        let Some(l) = self.st.callers.take() else {
            return Err(Stop::Done("return".into()));
        };
        self.st.depth -= 1;
        match Rc::try_unwrap(l) {
            Ok(mut l) => {
                self.st.callers = l.next.take();
                self.st.cur = std::mem::replace(&mut l.f, Frame { code: self.st.cur.code.clone(), fi: 0, regs: vec![], ip: 0, blk: 0, sp0: 0 });
            }
            Err(l) => {
                self.st.callers = l.next.clone();
                self.st.cur = l.f.clone();
            }
        }
        self.finish_call(v)
    }

    /// Completes the call instruction at the current ip.
    fn finish_call(&mut self, v: Option<Val>) -> R<()> {
        let code = self.st.cur.code.clone();
        if let Inst::Call { dst, cont, .. } = &code.body.code[self.st.cur.ip as usize] {
            if let (Some(d), Some(v)) = (dst, v) {
                self.set(*d, v);
            }
            match cont {
                Some(b) => self.jump(*b),
                None => self.st.cur.ip += 1,
            }
        }
        Ok(())
    }

    /// Where a panic raised by the current frame is caught, if it is.
    fn catchable(&self) -> bool {
        let catches = |f: &Frame| match &f.code.body.code[f.ip as usize] {
            Inst::Call { unwind: Some(b), .. } => f.code.body.code[f.code.body.block_start[*b as usize] as usize..]
                .iter()
                .find_map(|i| match i {
                    Inst::LandingPad { catch, .. } => Some(*catch),
                    Inst::Nop => None,
                    _ => Some(false),
                })
                .unwrap_or(false),
            _ => false,
        };
        if catches(&self.st.cur) {
            return true;
        }
        let mut n = self.st.callers.as_ref();
        while let Some(l) = n {
            if catches(&l.f) {
                return true;
            }
            n = l.next.as_ref();
        }
        false
    }

    /// Unwinds from the call at the current ip.
    fn unwind_from_call(&mut self, exc: u64) -> R<()> {
        let code = self.st.cur.code.clone();
        if let Inst::Call { unwind: Some(b), .. } = &code.body.code[self.st.cur.ip as usize] {
            self.st.exc = exc;
            self.jump(*b);
            return Ok(());
        }
        self.unwind(exc)
    }

    /// Leaves frames until one has a landing pad for its current call.
    fn unwind(&mut self, exc: u64) -> R<()> {
        self.st.exc = exc;
        loop {
            let sp0 = self.st.cur.sp0;
            if self.st.mem.sp != sp0 {
                self.st.mem.pop_stack(sp0);
            }
            let Some(l) = self.st.callers.take() else {
                return Err(Stop::Violation("panic".into(), "unwound out of the harness".into()));
            };
            self.st.depth -= 1;
            self.st.callers = l.next.clone();
            self.st.cur = l.f.clone();
            let code = self.st.cur.code.clone();
            if let Inst::Call { unwind: Some(b), .. } = &code.body.code[self.st.cur.ip as usize] {
                self.jump(*b);
                return Ok(());
            }
        }
    }

    fn enter(&mut self, fi: u32, args: Vec<Val>) -> R<()> {
        if self.st.depth >= self.lim.depth {
            return Err(Stop::Violation("stack".into(), format!("call depth exceeds {}", self.lim.depth)));
        }
        let code = self.get_code(fi);
        let mut regs = args;
        let np = self.m.funcs[fi as usize].params.len();
        regs.truncate(np);
        regs.resize(code.body.nregs as usize, Val::C(0));
        let f = Frame { code, fi, regs, ip: 0, blk: 0, sp0: self.st.mem.sp };
        let old = std::mem::replace(&mut self.st.cur, f);
        let next = self.st.callers.take();
        self.st.callers = Some(Rc::new(Link { f: old, next }));
        self.st.depth += 1;
        self.stats.maxdepth = self.stats.maxdepth.max(self.st.depth as u64);
        Ok(())
    }

    pub fn fname(&self, fi: u32) -> &str {
        &self.m.funcs[fi as usize].name
    }
    pub fn backtrace(&self) -> Vec<String> {
        let mut v = vec![format!("{}@{}", self.fname(self.st.cur.fi), self.st.cur.ip)];
        let mut n = self.st.callers.clone();
        while let Some(l) = n {
            v.push(format!("{}@{}", self.fname(l.f.fi), l.f.ip));
            n = l.next.clone();
            if v.len() > 40 {
                break;
            }
        }
        v
    }

    pub fn bin(&mut self, op: BinOp, w: u32, x: &Val, y: &Val) -> R<Val> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            if w <= 64 {
                let (a, b) = (*a, *b);
                use BinOp::*;
                let r = match op {
                    Add => a.wrapping_add(b),
                    Sub => a.wrapping_sub(b),
                    Mul => a.wrapping_mul(b),
                    And => a & b,
                    Or => a | b,
                    Xor => a ^ b,
                    Shl => {
                        if b >= w as u64 {
                            0
                        } else {
                            a << b
                        }
                    }
                    LShr => {
                        if b >= w as u64 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    UDiv | URem | SDiv | SRem if b == 0 => return Err(Stop::Violation("ub".into(), "division by zero".into())),
                    UDiv => a / b,
                    URem => a % b,
                    _ => crate::expr::eval_bin(op, a as u128, b as u128, w) as u64,
                };
                return Ok(Val::C(trunc(r, w)));
            }
        }
        let a = self.e(x, w);
        let b = self.e(y, w);
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            let z = self.s.c(0, w);
            let c = self.s.eq(b, z);
            if self.decide(c)? {
                return Err(Stop::Violation("ub".into(), "division by zero".into()));
            }
        }
        if matches!(op, BinOp::Shl | BinOp::LShr | BinOp::AShr) && self.s.cst(b).is_none() && self.s.cst(a).is_some() && w <= 64 {
            // constant shifted by a small symbolic amount: a table
            let mb = self.s.umax(b);
            if mb < 256 {
                let av = self.s.cst(a).unwrap();
                let t: Vec<u64> = (0..=mb as u64).map(|i| crate::expr::eval_bin(op, av, i as u128, w) as u64).collect();
                let hw = (128 - mb.leading_zeros()).max(1);
                let idx = self.s.extract(b, 0, hw);
                let e = self.s.table(t, idx, w);
                return Ok(self.v(e));
            }
        }
        let r = self.s.bin(op, a, b);
        Ok(self.v(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, x: &Val, y: &Val) -> Val {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sext64(a, w), sext64(b, w));
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            };
            return Val::C(r as u64);
        }
        let a = self.e(x, w);
        let b = self.e(y, w);
        let r = match p {
            Pred::Eq => self.s.eq(a, b),
            Pred::Ne => {
                let e = self.s.eq(a, b);
                self.s.not(e)
            }
            Pred::Ult => self.s.ult(a, b),
            Pred::Ugt => self.s.ult(b, a),
            Pred::Ule => {
                let e = self.s.ult(b, a);
                self.s.not(e)
            }
            Pred::Uge => {
                let e = self.s.ult(a, b);
                self.s.not(e)
            }
            Pred::Slt => self.s.slt(a, b),
            Pred::Sgt => self.s.slt(b, a),
            Pred::Sle => {
                let e = self.s.slt(b, a);
                self.s.not(e)
            }
            Pred::Sge => {
                let e = self.s.slt(a, b);
                self.s.not(e)
            }
        };
        self.v(r)
    }

    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, a: Val) -> R<Val> {
        if let Val::Agg(f) = &a {
            if k == CastK::Bitcast {
                // vector to integer / other vector
                let ew = from.field(0).bits();
                let mut acc: Option<E> = None;
                for x in f.iter() {
                    let e = self.e(x, ew);
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.s.concat(e, l),
                    });
                }
                let e = acc.unwrap();
                if let Ty::Vec(t, n) = to {
                    let tw = t.bits();
                    let v = (0..*n as u32)
                        .map(|i| {
                            let x = self.s.extract(e, i * tw, tw);
                            self.v(x)
                        })
                        .collect();
                    return Ok(Val::Agg(Rc::new(v)));
                }
                return Ok(self.v(e));
            }
            let (ft, tt) = (from.field(0).clone(), to.field(0).clone());
            let mut v = vec![];
            for x in f.iter() {
                v.push(self.cast(k, &ft, &tt, x.clone())?);
            }
            return Ok(Val::Agg(Rc::new(v)));
        }
        if let (CastK::Bitcast, Ty::Vec(t, n)) = (k, to) {
            let tw = t.bits();
            let e = self.e(&a, from.bits());
            let v = (0..*n as u32)
                .map(|i| {
                    let x = self.s.extract(e, i * tw, tw);
                    self.v(x)
                })
                .collect();
            return Ok(Val::Agg(Rc::new(v)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Val::C(x) = a {
            if tw <= 64 {
                match k {
                    CastK::ZExt => return Ok(Val::C(x)),
                    CastK::SExt => return Ok(Val::C(trunc(sext64(x, fw) as u64, tw))),
                    CastK::Trunc => return Ok(Val::C(trunc(x, tw))),
                    CastK::Bitcast => return Ok(Val::C(x)),
                    _ => (),
                }
            }
        }
        let e = self.e(&a, fw);
        let r = match k {
            CastK::ZExt => self.s.zext(e, tw),
            CastK::SExt => self.s.sext(e, tw),
            CastK::Trunc => self.s.extract(e, 0, tw),
            CastK::Bitcast => e,
            CastK::FpToSi => self.s.f(FOp::ToSi, e, 0, tw),
            CastK::FpToUi => self.s.f(FOp::ToUi, e, 0, tw),
            CastK::SiToFp => self.s.f(FOp::FromSi, e, 0, tw),
            CastK::UiToFp => self.s.f(FOp::FromUi, e, 0, tw),
            CastK::FpExt => self.s.f(FOp::Ext, e, 0, tw),
            CastK::FpTrunc => self.s.f(FOp::Trunc, e, 0, tw),
        };
        Ok(self.v(r))
    }

    fn select(&mut self, c: &Val, a: Val, b: Val, ty: &Ty) -> R<Val> {
        match c {
            Val::C(x) => Ok(if x & 1 == 1 { a } else { b }),
            Val::S(ce) => {
                let ce = *ce;
                if let (Val::Agg(x), Val::Agg(y)) = (&a, &b) {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        let ft = ty.field(i).clone();
                        v.push(self.select(c, x[i].clone(), y[i].clone(), &ft)?);
                    }
                    return Ok(Val::Agg(Rc::new(v)));
                }
                // pointers: follow the branch rather than building symbolic addresses
                if *ty == Ty::Ptr {
                    let both = matches!((&a, &b), (Val::C(_), Val::C(_)));
                    if !both || true {
                        return Ok(if self.decide(ce)? { a } else { b });
                    }
                }
                let w = ty.bits();
                let x = self.e(&a, w);
                let y = self.e(&b, w);
                let r = self.s.ite(ce, x, y);
                Ok(self.v(r))
            }
            Val::Agg(cs) => {
                // vector select
                let (Val::Agg(x), Val::Agg(y)) = (&a, &b) else { return Err(Stop::Inconclusive("vector select".into())) };
                let ft = ty.field(0).clone();
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.select(&cs[i], x[i].clone(), y[i].clone(), &ft)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(Stop::Inconclusive("select".into())),
        }
    }

    fn path_get(v: &Val, path: &[u32]) -> R<Val> {
        let mut v = v.clone();
        for i in path {
            v = match &v {
                Val::Agg(f) => f[*i as usize].clone(),
                _ => return Err(Stop::Inconclusive("extractvalue of scalar".into())),
            };
        }
        Ok(v)
    }
    fn path_set(v: &Val, path: &[u32], x: Val) -> R<Val> {
        if path.is_empty() {
            return Ok(x);
        }
        match v {
            Val::Agg(f) => {
                let mut f = f.clone();
                let n = Self::path_set(&f[path[0] as usize], &path[1..], x)?;
                Rc::make_mut(&mut f)[path[0] as usize] = n;
                Ok(Val::Agg(f))
            }
            _ => Err(Stop::Inconclusive("insertvalue of scalar".into())),
        }
    }

    /// Runs the current state until it stops.
    pub fn run(&mut self) -> Stop {
        let mut budget = 0u32;
        loop {
            if let Err(s) = self.step() {
                self.stats.steps += budget as u64;
                return s;
            }
            budget += 1;
            if budget == 1 << 20 {
                self.stats.steps += budget as u64;
                budget = 0;
            }
            self.st.steps += 1;
            if self.st.steps > self.lim.steps {
                self.stats.steps += budget as u64;
                return Stop::Violation("steps".into(), format!("no end within {} instructions", self.lim.steps));
            }
        }
    }

    #[inline]
    fn next(&mut self) {
        self.st.cur.ip += 1;
    }

    fn step(&mut self) -> R<()> {
        let code = self.st.cur.code.clone();
        let inst = &code.body.code[self.st.cur.ip as usize];
        if self.trace {
            eprintln!("{} {} {:?}", self.fname(self.st.cur.fi), self.st.cur.ip, inst);
        }
        match inst {
            Inst::Bin { op, w, dst, a, b } => {
                let (x, y) = (self.op(*a), self.op(*b));
                let r = self.bin(*op, *w, &x, &y)?;
                self.set(*dst, r);
                self.next();
            }
            Inst::Icmp { p, w, dst, a, b } => {
                let (x, y) = (self.op(*a), self.op(*b));
                let r = self.icmp(*p, *w, &x, &y);
                self.set(*dst, r);
                self.next();
            }
            Inst::Load { dst, ty, p } => {
                let p = self.op(*p);
                let r = match &p {
                    Val::C(a) => self.load(*a, ty)?,
                    Val::S(e) if !ty.is_agg() => self.load_sym(*e, ty)?,
                    _ => {
                        let a = self.addr(&p)?;
                        self.load(a, ty)?
                    }
                };
                self.set(*dst, r);
                self.next();
            }
            Inst::Store { ty, v, p } => {
                let p = self.op(*p);
                let a = self.addr(&p)?;
                let v = self.op(*v);
                self.store(a, &v, ty)?;
                self.next();
            }
            Inst::Gep { dst, base, off, terms } => {
                let b = self.op(*base);
                let mut conc = true;
                let mut acc = *off as u64;
                if let Val::C(x) = &b {
                    acc = acc.wrapping_add(*x);
                } else {
                    conc = false;
                }
                let mut symt: Vec<(Val, u32, u64)> = vec![];
                for (o, w, sz) in terms.iter() {
                    let v = self.op(*o);
                    match v {
                        Val::C(x) => acc = acc.wrapping_add((sext64(x, *w) as u64).wrapping_mul(*sz)),
                        _ => {
                            conc = false;
                            symt.push((v, *w, *sz));
                        }
                    }
                }
                let r = if conc {
                    Val::C(acc)
                } else {
                    let mut e = self.s.c(acc as u128, 64);
                    if !matches!(b, Val::C(_)) {
                        if matches!(b, Val::Agg(_)) {
                            return Err(Stop::Inconclusive("vector gep".into()));
                        }
                        let be = self.e(&b, 64);
                        e = self.s.bin(BinOp::Add, e, be);
                    }
                    for (v, w, sz) in symt {
                        let x = self.e(&v, w);
                        let x = if w < 64 { self.s.sext(x, 64) } else { x };
                        let k = self.s.c(sz as u128, 64);
                        let t = self.s.bin(BinOp::Mul, x, k);
                        e = self.s.bin(BinOp::Add, t, e);
                    }
                    self.v(e)
                };
                self.set(*dst, r);
                self.next();
            }
            Inst::CondBr { c, t, f } => {
                let c = self.op(*c);
                let b = self.truth(&c)?;
                self.jump(if b { *t } else { *f });
            }
            Inst::Br { to } => self.jump(*to),
            Inst::Cast { k, from, to, dst, a } => {
                let a = self.op(*a);
                let r = self.cast(*k, from, to, a)?;
                self.set(*dst, r);
                self.next();
            }
            Inst::Select { dst, c, a, b, ty } => {
                let (c, a, b) = (self.op(*c), self.op(*a), self.op(*b));
                let r = self.select(&c, a, b, ty)?;
                self.set(*dst, r);
                self.next();
            }
            Inst::Alloca { dst, size } => match self.st.mem.alloc_stack(*size) {
                Some(a) => {
                    self.set(*dst, Val::C(a));
                    self.next();
                }
                None => return Err(Stop::Violation("stack".into(), "stack objects exhausted".into())),
            },
            Inst::Call { callee, args, argtys, ret, .. } => {
                let fi = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ind(o) => {
                        let p = self.op(*o);
                        let a = self.addr(&p)?;
                        match self.m.func_of_addr(a) {
                            Some(f) => f,
                            None => return Err(self.fault("call", a, 0)),
                        }
                    }
                    Callee::Asm(s) => {
                        if s.contains("asm sideeffect \"\"") || s.contains("asm \"\"") {
                            if args.len() == 1 && *ret != Ty::Void {
                                let v = self.op(args[0]);
                                return self.finish_call(Some(v));
                            }
                            return self.finish_call(None);
                        }
                        // The encoded machine is a baseline x86-64: cpuid reports no leaf, so
                        // feature detection picks the SSE2 code that every such machine runs.
                        if s.contains("cpuid") {
                            if let Ty::Struct(f, _) = ret {
                                return self.finish_call(Some(Val::Agg(Rc::new(vec![Val::C(0); f.len()]))));
                            }
                        }
                        return Err(Stop::Inconclusive(format!("inline asm {}", s)));
                    }
                };
                let bi = self.bi[fi as usize];
                if bi == Bi::Nop {
                    self.next();
                    if let Inst::Call { cont: Some(_), .. } = inst {
                        self.st.cur.ip -= 1;
                        return self.finish_call(None);
                    }
                    return Ok(());
                }
                let av: Vec<Val> = args.iter().map(|a| self.op(*a)).collect();
                if bi == Bi::Raise {
                    let x = self.addr(&av[0])?;
                    return self.unwind_from_call(x);
                }
                if bi == Bi::None || bi == Bi::Panic && self.m.funcs[fi as usize].body.is_some() && self.catchable() {
                    if self.m.funcs[fi as usize].body.is_none() {
                        return Err(Stop::Inconclusive(format!("external function {}", self.fname(fi))));
                    }
                    return self.enter(fi, av);
                }
                let v = self.builtin(bi, fi, av, argtys, ret)?;
                return self.finish_call(v);
            }
            Inst::Switch { w, v, default, cases } => {
                let v = self.op(*v);
                match v {
                    Val::C(x) => {
                        let t = cases.iter().find(|(c, _)| *c == x).map(|(_, l)| *l).unwrap_or(*default);
                        self.jump(t);
                    }
                    Val::S(e) => {
                        let model = self.st.model.clone();
                        let x = self.evalm(e, &model) as u64;
                        let t = cases.iter().find(|(c, _)| *c == x).map(|(_, l)| *l).unwrap_or(*default);
                        let mut cond = self.s.fls();
                        if t == *default {
                            for (c, l) in cases.iter() {
                                if *l != t {
                                    let k = self.s.c(*c as u128, *w);
                                    let q = self.s.eq(e, k);
                                    cond = self.s.or1(cond, q);
                                }
                            }
                            cond = self.s.not(cond);
                        } else {
                            for (c, l) in cases.iter() {
                                if *l == t {
                                    let k = self.s.c(*c as u128, *w);
                                    let q = self.s.eq(e, k);
                                    cond = self.s.or1(cond, q);
                                }
                            }
                        }
                        let b = self.decide(cond)?;
                        debug_assert!(b);
                        self.jump(t);
                    }
                    _ => return Err(Stop::Inconclusive("switch".into())),
                }
            }
            Inst::Ret { v } => {
                let v = v.map(|o| self.op(o));
                return self.ret(v);
            }
            Inst::Mov { dst, a } => {
                let v = self.op(*a);
                self.set(*dst, v);
                self.next();
            }
            Inst::Extract { dst, a, path } => {
                let v = match a {
                    Op::R(r) => Self::path_get(&self.st.cur.regs[*r as usize], path)?,
                    _ => Self::path_get(&self.op(*a), path)?,
                };
                self.set(*dst, v);
                self.next();
            }
            Inst::Insert { dst, a, v, path } => {
                let (a, v) = (self.op(*a), self.op(*v));
                let r = Self::path_set(&a, path, v)?;
                self.set(*dst, r);
                self.next();
            }
            Inst::Unreachable => return Err(Stop::Violation("ub".into(), "unreachable executed".into())),
            Inst::Nop => self.next(),
            Inst::LandingPad { dst, .. } => {
                let x = self.st.exc;
                if let Some(d) = dst {
                    self.set(*d, Val::Agg(Rc::new(vec![Val::C(x), Val::C(1)])));
                }
                self.next();
            }
            Inst::Resume { v } => {
                let v = self.op(*v);
                let x = match Self::path_get(&v, &[0])? {
                    Val::C(x) => x,
                    _ => return Err(Stop::Inconclusive("resume".into())),
                };
                return self.unwind(x);
            }
            Inst::VBin { op, ew, dst, a, b } => {
                let (Val::Agg(x), Val::Agg(y)) = (self.op(*a), self.op(*b)) else { return Err(Stop::Inconclusive("vbin".into())) };
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.bin(*op, *ew, &x[i], &y[i])?);
                }
                self.set(*dst, Val::Agg(Rc::new(v)));
                self.next();
            }
            Inst::VIcmp { p, ew, dst, a, b } => {
                let (Val::Agg(x), Val::Agg(y)) = (self.op(*a), self.op(*b)) else { return Err(Stop::Inconclusive("vicmp".into())) };
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.icmp(*p, *ew, &x[i], &y[i]));
                }
                self.set(*dst, Val::Agg(Rc::new(v)));
                self.next();
            }
            Inst::ExtractElt { dst, a, i } => {
                let iv = self.op(*i);
                let i = self.conc(&iv, 64)?;
                let v = Self::path_get(&self.op(*a), &[i as u32])?;
                self.set(*dst, v);
                self.next();
            }
            Inst::InsertElt { dst, a, v, i, .. } => {
                let iv = self.op(*i);
                let i = self.conc(&iv, 64)?;
                let (a, v) = (self.op(*a), self.op(*v));
                let r = Self::path_set(&a, &[i as u32], v)?;
                self.set(*dst, r);
                self.next();
            }
            Inst::Shuffle { dst, a, b, mask, n } => {
                let (Val::Agg(x), Val::Agg(y)) = (self.op(*a), self.op(*b)) else { return Err(Stop::Inconclusive("shuffle".into())) };
                let v = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            x[0].clone()
                        } else if (*m as u64) < *n {
                            x[*m as usize].clone()
                        } else {
                            y[*m as usize - *n as usize].clone()
                        }
                    })
                    .collect();
                self.set(*dst, Val::Agg(Rc::new(v)));
                self.next();
            }
            Inst::Fcmp { p, dst, a, b, dbl } => {
                let w = if *dbl { 64 } else { 32 };
                let (x, y) = (self.op(*a), self.op(*b));
                let (x, y) = (self.e(&x, w), self.e(&y, w));
                let r = self.s.f(FOp::Cmp(*p), x, y, 1);
                let r = self.v(r);
                self.set(*dst, r);
                self.next();
            }
            Inst::FBin { k, dst, a, b, dbl } => {
                let w = if *dbl { 64 } else { 32 };
                let (x, y) = (self.op(*a), self.op(*b));
                let (x, y) = (self.e(&x, w), self.e(&y, w));
                let op = match k {
                    FBinK::Add => FOp::Add,
                    FBinK::Sub => FOp::Sub,
                    FBinK::Mul => FOp::Mul,
                    FBinK::Div => FOp::Div,
                    FBinK::Rem => return Err(Stop::Inconclusive("frem".into())),
                };
                let r = self.s.f(op, x, y, w);
                let r = self.v(r);
                self.set(*dst, r);
                self.next();
            }
            Inst::FNeg { dst, a, dbl } => {
                let w = if *dbl { 64 } else { 32 };
                let x = self.op(*a);
                let k = Val::C(1u64 << (w - 1));
                let r = self.bin(BinOp::Xor, w, &x, &k)?;
                self.set(*dst, r);
                self.next();
            }
            Inst::Rmw { op, w, dst, p, v } => {
                let p = self.op(*p);
                let a = self.addr(&p)?;
                let old = self.load_bits(a, *w)?;
                let v = self.op(*v);
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.bin(BinOp::Add, *w, &old, &v)?,
                    "sub" => self.bin(BinOp::Sub, *w, &old, &v)?,
                    "and" => self.bin(BinOp::And, *w, &old, &v)?,
                    "or" => self.bin(BinOp::Or, *w, &old, &v)?,
                    "xor" => self.bin(BinOp::Xor, *w, &old, &v)?,
                    "umax" | "umin" => {
                        let c = self.icmp(Pred::Ult, *w, &old, &v);
                        let ty = Ty::Int(*w);
                        if &**op == "umax" {
                            self.select(&c, v, old.clone(), &ty)?
                        } else {
                            self.select(&c, old.clone(), v, &ty)?
                        }
                    }
                    o => return Err(Stop::Inconclusive(format!("atomicrmw {}", o))),
                };
                self.store_bits(a, &new, *w)?;
                self.set(*dst, old);
                self.next();
            }
            Inst::CmpXchg { w, dst, p, c, n } => {
                let p = self.op(*p);
                let a = self.addr(&p)?;
                let old = self.load_bits(a, *w)?;
                let c = self.op(*c);
                let eq = self.icmp(Pred::Eq, *w, &old, &c);
                let b = self.truth(&eq)?;
                if b {
                    let n = self.op(*n);
                    self.store_bits(a, &n, *w)?;
                }
                self.set(*dst, Val::Agg(Rc::new(vec![old, Val::C(b as u64)])));
                self.next();
            }
            Inst::Unsupported(s) => return Err(Stop::Inconclusive(format!("instruction {}", s))),
        }
        Ok(())
    }

    // ---------------------------------------------------------------- builtins
    pub fn cstr(&self, a: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n {
            match self.byte(a + i) {
                Ok(Val::C(x)) => v.push(x as u8),
                _ => v.push(b'?'),
            }
        }
        String::from_utf8_lossy(&v).to_string()
    }

    fn location(&mut self, av: &[Val]) -> String {
        // the last pointer argument is a &core::panic::Location
        for v in av.iter().rev() {
            if let Val::C(p) = v {
                let Ok(Val::C(f)) = self.load_bits(*p, 64) else { continue };
                let Ok(Val::C(n)) = self.load_bits(*p + 8, 64) else { continue };
                let Ok(Val::C(l)) = self.load_bits(*p + 16, 32) else { continue };
                if n < 400 && self.st.mem.get(f >> 32).is_some() {
                    return format!("{}:{}", self.cstr(f, n).trim_end_matches('\0'), l);
                }
            }
        }
        "?".into()
    }

    fn find_byte(&mut self, a: u64, n: u64, needles: &[Val], rev: bool) -> R<Option<u64>> {
        for k in 0..n {
            let i = if rev { n - 1 - k } else { k };
            let b = self.byte(a + i)?;
            let mut c = self.s.fls();
            for nd in needles {
                let r = self.icmp(Pred::Eq, 8, &b, nd);
                let e = self.e(&r, 1);
                c = self.s.or1(c, e);
            }
            if self.decide(c)? {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }

    fn builtin(&mut self, bi: Bi, fi: u32, av: Vec<Val>, tys: &Rc<[Ty]>, ret: &Ty) -> R<Option<Val>> {
        let w = tys.first().map(|t| t.bits()).unwrap_or(0);
        let rw = ret.bits();
        let veccall = matches!(av.first(), Some(Val::Agg(_))) && matches!(ret, Ty::Vec(..));
        if veccall {
            // elementwise
            let n = ret.nfields();
            let et = ret.field(0).clone();
            let ety: Rc<[Ty]> = tys.iter().map(|t| if t.is_agg() { t.field(0).clone() } else { t.clone() }).collect();
            let mut out = vec![];
            for i in 0..n {
                let a = av
                    .iter()
                    .map(|v| match v {
                        Val::Agg(f) => f[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                out.push(self.builtin(bi, fi, a, &ety, &et)?.unwrap());
            }
            return Ok(Some(Val::Agg(Rc::new(out))));
        }
        let minmax = |ex: &mut Exec, p: Pred| -> R<Option<Val>> {
            let c = ex.icmp(p, w, &av[0], &av[1]);
            let r = ex.select(&c, av[0].clone(), av[1].clone(), &Ty::Int(w))?;
            Ok(Some(r))
        };
        match bi {
            Bi::None | Bi::Nop => Ok(None),
            Bi::Memcpy => {
                let n = self.conc(&av[2], 64)?;
                if n == 0 {
                    return Ok(Some(av[0].clone()));
                }
                let d = self.addr(&av[0])?;
                let s = self.addr(&av[1])?;
                self.memcpy(d, s, n)?;
                Ok(Some(Val::C(d)))
            }
            Bi::Memset => {
                let n = self.conc(&av[2], 64)?;
                if n == 0 {
                    return Ok(Some(av[0].clone()));
                }
                let d = self.addr(&av[0])?;
                let bv = match &av[1] {
                    Val::S(e) if self.s.w(*e) > 8 => {
                        let x = self.s.extract(*e, 0, 8);
                        self.v(x)
                    }
                    Val::C(x) => Val::C(x & 0xff),
                    v => v.clone(),
                };
                match bv {
                    Val::C(x) => {
                        let (o, off) = self.obj_mut(d, n)?;
                        let n = n as usize;
                        o.b[off..off + n].fill(x as u8);
                        if !o.s.is_empty() {
                            o.s[off..off + n].fill(0);
                        }
                    }
                    v => {
                        for i in 0..n {
                            self.store_bits(d + i, &v, 8)?;
                        }
                    }
                }
                Ok(Some(Val::C(d)))
            }
            Bi::Memcmp => {
                let n = self.conc(&av[2], 64)?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let a = self.addr(&av[0])?;
                let b = self.addr(&av[1])?;
                let (oa, fa) = self.obj(a, n, "read")?;
                let (ob, fb) = self.obj(b, n, "read")?;
                let nn = n as usize;
                let conc = |o: &Obj, f: usize| o.s.is_empty() || o.s[f..f + nn].iter().all(|x| *x == 0);
                if conc(oa, fa) && conc(ob, fb) {
                    let r = oa.b[fa..fa + nn].cmp(&ob.b[fb..fb + nn]) as i32;
                    return Ok(Some(Val::C(r as u32 as u64)));
                }
                let eqonly = self.fname(fi) == "bcmp";
                if eqonly {
                    let mut all = self.s.tru();
                    for i in 0..n {
                        let x = self.byte_e(a + i)?;
                        let y = self.byte_e(b + i)?;
                        let e = self.s.eq(x, y);
                        if self.s.cst(e) == Some(0) {
                            return Ok(Some(Val::C(1)));
                        }
                        all = self.s.and1(all, e);
                    }
                    let z = self.s.c(0, 32);
                    let o = self.s.c(1, 32);
                    let r = self.s.ite(all, z, o);
                    return Ok(Some(self.v(r)));
                }
                let mut acc = self.s.c(0, 32);
                let lt = self.s.c(0xffff_ffff, 32);
                let gt = self.s.c(1, 32);
                for i in (0..n).rev() {
                    let x = self.byte_e(a + i)?;
                    let y = self.byte_e(b + i)?;
                    let l = self.s.ult(x, y);
                    let e = self.s.eq(x, y);
                    let d = self.s.ite(l, lt, gt);
                    acc = self.s.ite(e, acc, d);
                }
                Ok(Some(self.v(acc)))
            }
            Bi::UMax => minmax(self, Pred::Ugt),
            Bi::UMin => minmax(self, Pred::Ult),
            Bi::SMax => minmax(self, Pred::Sgt),
            Bi::SMin => minmax(self, Pred::Slt),
            Bi::UAddSat => {
                let r = self.bin(BinOp::Add, w, &av[0], &av[1])?;
                let c = self.icmp(Pred::Ult, w, &r, &av[0]);
                Ok(Some(self.select(&c, Val::C(trunc(!0, w)), r, &Ty::Int(w))?))
            }
            Bi::USubSat => {
                let c = self.icmp(Pred::Ult, w, &av[0], &av[1]);
                let r = self.bin(BinOp::Sub, w, &av[0], &av[1])?;
                Ok(Some(self.select(&c, Val::C(0), r, &Ty::Int(w))?))
            }
            Bi::SAddSat | Bi::SSubSat => {
                let op = if bi == Bi::SAddSat { BinOp::Add } else { BinOp::Sub };
                let x = self.e(&av[0], w);
                let y = self.e(&av[1], w);
                let (xx, yy) = (self.s.sext(x, w + 1), self.s.sext(y, w + 1));
                let r = self.s.bin(op, xx, yy);
                let lo = self.s.c(mask128(w + 1) << (w - 1) & mask128(w + 1), w + 1);
                let hi = self.s.c(mask128(w - 1), w + 1);
                let c1 = self.s.slt(r, lo);
                let c2 = self.s.slt(hi, r);
                let r = self.s.ite(c1, lo, r);
                let r = self.s.ite(c2, hi, r);
                let r = self.s.extract(r, 0, w);
                Ok(Some(self.v(r)))
            }
            Bi::Ctlz | Bi::Cttz | Bi::Ctpop => {
                if let Val::C(x) = av[0] {
                    let r = match bi {
                        Bi::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
                        Bi::Cttz => (x.trailing_zeros().min(w)) as u64,
                        _ => x.count_ones() as u64,
                    };
                    return Ok(Some(Val::C(r)));
                }
                let e = self.e(&av[0], w);
                let mut acc;
                match bi {
                    Bi::Ctpop => {
                        acc = self.s.c(0, w);
                        for i in 0..w {
                            let b = self.s.extract(e, i, 1);
                            let b = if w > 1 { self.s.zext(b, w) } else { b };
                            acc = self.s.bin(BinOp::Add, acc, b);
                        }
                    }
                    _ => {
                        acc = self.s.c(w as u128, w);
                        for i in 0..w {
                            // lowest priority first
                            let bit = if bi == Bi::Ctlz { i } else { w - 1 - i };
                            let cnt = if bi == Bi::Ctlz { w - 1 - i } else { w - 1 - i };
                            let b = self.s.extract(e, bit, 1);
                            let k = self.s.c(cnt as u128, w);
                            acc = self.s.ite(b, k, acc);
                        }
                    }
                }
                Ok(Some(self.v(acc)))
            }
            Bi::Bswap => {
                let e = self.e(&av[0], w);
                let n = w / 8;
                let mut acc = self.s.extract(e, w - 8, 8);
                for i in 1..n {
                    let b = self.s.extract(e, w - 8 - 8 * i, 8);
                    acc = self.s.concat(b, acc);
                }
                Ok(Some(self.v(acc)))
            }
            Bi::Bitrev => {
                let e = self.e(&av[0], w);
                let mut acc = self.s.extract(e, w - 1, 1);
                for i in 1..w {
                    let b = self.s.extract(e, w - 1 - i, 1);
                    acc = self.s.concat(b, acc);
                }
                Ok(Some(self.v(acc)))
            }
            Bi::Fshl | Bi::Fshr => {
                let k = (self.conc(&av[2], w)? % w as u64) as u32;
                let k = if bi == Bi::Fshl { k } else { (w - k) % w };
                let (hi, lo) = (self.e(&av[0], w), self.e(&av[1], w));
                if k == 0 {
                    let r = if bi == Bi::Fshl { hi } else { lo };
                    return Ok(Some(self.v(r)));
                }
                // fshl: (hi << k) | (lo >> (w-k)); fshr by s: (hi << (w-s)) | (lo >> s)
                let h = self.s.extract(hi, 0, w - k);
                let l = self.s.extract(lo, w - k, k);
                let r = self.s.concat(h, l);
                Ok(Some(self.v(r)))
            }
            Bi::Abs => {
                let neg = self.icmp(Pred::Slt, w, &av[0], &Val::C(0));
                let n = self.bin(BinOp::Sub, w, &Val::C(0), &av[0])?;
                Ok(Some(self.select(&neg, n, av[0].clone(), &Ty::Int(w))?))
            }
            Bi::UAddO | Bi::USubO | Bi::UMulO | Bi::SAddO | Bi::SSubO | Bi::SMulO => {
                let (op, signed) = match bi {
                    Bi::UAddO => (BinOp::Add, false),
                    Bi::USubO => (BinOp::Sub, false),
                    Bi::UMulO => (BinOp::Mul, false),
                    Bi::SAddO => (BinOp::Add, true),
                    Bi::SSubO => (BinOp::Sub, true),
                    _ => (BinOp::Mul, true),
                };
                let r = self.bin(op, w, &av[0], &av[1])?;
                let o = if let (Val::C(a), Val::C(b)) = (&av[0], &av[1]) {
                    let ov = if signed {
                        let (a, b) = (sext64(*a, w) as i128, sext64(*b, w) as i128);
                        let x = match op {
                            BinOp::Add => a + b,
                            BinOp::Sub => a - b,
                            _ => a * b,
                        };
                        x < -(1i128 << (w - 1)) || x >= 1i128 << (w - 1)
                    } else {
                        let (a, b) = (*a as u128, *b as u128);
                        match op {
                            BinOp::Add => a + b > mask128(w),
                            BinOp::Sub => a < b,
                            _ => a * b > mask128(w),
                        }
                    };
                    Val::C(ov as u64)
                } else if !signed && op == BinOp::Sub {
                    self.icmp(Pred::Ult, w, &av[0], &av[1])
                } else if !signed && op == BinOp::Add {
                    self.icmp(Pred::Ult, w, &r, &av[0])
                } else {
                    let ww = (if op == BinOp::Mul { 2 * w } else { w + 1 }).min(128);
                    let a = self.e(&av[0], w);
                    let b = self.e(&av[1], w);
                    let (a, b) = if signed { (self.s.sext(a, ww), self.s.sext(b, ww)) } else { (self.s.zext(a, ww), self.s.zext(b, ww)) };
                    let x = self.s.bin(op, a, b);
                    let re = self.e(&r, w);
                    let y = if signed { self.s.sext(re, ww) } else { self.s.zext(re, ww) };
                    let e = self.s.eq(x, y);
                    let e = self.s.not(e);
                    self.v(e)
                };
                Ok(Some(Val::Agg(Rc::new(vec![r, o]))))
            }
            Bi::UCmp | Bi::SCmp => {
                let p = if bi == Bi::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, &av[0], &av[1]);
                let eq = self.icmp(Pred::Eq, w, &av[0], &av[1]);
                let t = Ty::Int(rw);
                let r = self.select(&eq, Val::C(0), Val::C(1), &t)?;
                Ok(Some(self.select(&lt, Val::C(trunc(!0, rw)), r, &t)?))
            }
            Bi::FToSi | Bi::FToUi | Bi::FAbs | Bi::FFloor | Bi::FCeil | Bi::FTrunc => {
                let op = match bi {
                    Bi::FToSi => FOp::ToSi,
                    Bi::FToUi => FOp::ToUi,
                    Bi::FAbs => FOp::Abs,
                    Bi::FFloor => FOp::Floor,
                    Bi::FCeil => FOp::Ceil,
                    _ => FOp::RTrunc,
                };
                let e = self.e(&av[0], w);
                let r = self.s.f(op, e, 0, rw);
                Ok(Some(self.v(r)))
            }
            Bi::Assume => Ok(None),
            Bi::IsConst => Ok(Some(Val::C(0))),
            Bi::Expect | Bi::Ident => Ok(Some(av[0].clone())),
            Bi::Trap => Err(Stop::Violation("ub".into(), "trap".into())),
            Bi::Malloc => {
                let n = self.conc(&av[0], 64)?;
                Ok(Some(Val::C(self.alloc(n)?)))
            }
            Bi::Calloc => {
                let n = self.conc(&av[0], 64)?;
                let k = self.conc(&av[1], 64)?;
                Ok(Some(Val::C(self.alloc(n * k)?)))
            }
            Bi::Realloc => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[1], 64)?;
                let q = self.alloc(n)?;
                if p != 0 {
                    let old = self.st.mem.get(p >> 32).map(|o| o.b.len() as u64).unwrap_or(0);
                    self.memcpy(q, p, old.min(n))?;
                    self.st.mem.del(p >> 32);
                }
                Ok(Some(Val::C(q)))
            }
            Bi::Free => {
                let p = self.addr(&av[0])?;
                if p != 0 && !self.st.mem.del(p >> 32) {
                    return Err(self.fault("free", p, 0));
                }
                Ok(None)
            }
            Bi::PosixMemalign => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[2], 64)?;
                let q = self.alloc(n)?;
                self.store_bits(p, &Val::C(q), 64)?;
                Ok(Some(Val::C(0)))
            }
            Bi::RustAlloc | Bi::RustAllocZ => {
                let n = self.conc(&av[0], 64)?;
                Ok(Some(Val::C(self.alloc(n)?)))
            }
            Bi::RustDealloc => {
                let p = self.addr(&av[0])?;
                self.st.mem.del(p >> 32);
                Ok(None)
            }
            Bi::RustRealloc => Err(Stop::Inconclusive("rust_realloc".into())),
            Bi::Strlen => {
                let p = self.addr(&av[0])?;
                let mut i = 0;
                loop {
                    let b = self.byte(p + i)?;
                    let z = self.icmp(Pred::Eq, 8, &b, &Val::C(0));
                    if self.truth(&z)? {
                        return Ok(Some(Val::C(i)));
                    }
                    i += 1;
                }
            }
            Bi::Memchr => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[2], 64)?;
                let nd = match &av[1] {
                    Val::C(x) => Val::C(x & 255),
                    _ => return Err(Stop::Inconclusive("memchr needle".into())),
                };
                let r = self.find_byte(p, n, &[nd], false)?;
                Ok(Some(Val::C(r.map(|i| p + i).unwrap_or(0))))
            }
            Bi::CoreMemchr | Bi::CoreMemrchr => {
                // (needle: u8, ptr, len) -> Option<usize>
                let p = self.addr(&av[1])?;
                let n = self.conc(&av[2], 64)?;
                let r = self.find_byte(p, n, &[av[0].clone()], bi == Bi::CoreMemrchr)?;
                Ok(Some(Val::Agg(Rc::new(match r {
                    Some(i) => vec![Val::C(1), Val::C(i)],
                    None => vec![Val::C(0), Val::C(0)],
                }))))
            }
            Bi::CrateMemchr | Bi::CrateMemrchr | Bi::CrateMemchr2 | Bi::CrateMemchr3 => {
                // (needles.., start, end) -> Option<*const u8>
                let k = match bi {
                    Bi::CrateMemchr2 => 2,
                    Bi::CrateMemchr3 => 3,
                    _ => 1,
                };
                let p = self.addr(&av[k])?;
                let e = self.addr(&av[k + 1])?;
                let r = self.find_byte(p, e - p, &av[..k], bi == Bi::CrateMemrchr)?;
                Ok(Some(Val::Agg(Rc::new(match r {
                    Some(i) => vec![Val::C(1), Val::C(p + i)],
                    None => vec![Val::C(0), Val::C(0)],
                }))))
            }
            Bi::CountChars => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[1], 64)?;
                let mut acc = self.s.c(0, 64);
                for i in 0..n {
                    let b = self.byte_e(p + i)?;
                    let k = self.s.c(0xc0, 8);
                    let m = self.s.bin(BinOp::And, b, k);
                    let c8 = self.s.c(0x80, 8);
                    let e = self.s.eq(m, c8);
                    let e = self.s.not(e);
                    let z = self.s.zext(e, 64);
                    acc = self.s.bin(BinOp::Add, acc, z);
                }
                Ok(Some(self.v(acc)))
            }
            Bi::Exit => {
                let c = self.conc(&av[0], 32)?;
                Err(Stop::Done(format!("exit {}", c as i32)))
            }
            Bi::Abort => Err(Stop::Violation("panic".into(), "abort".into())),
            Bi::Panic | Bi::Doom => {
                let l = self.location(&av);
                Err(Stop::Violation("panic".into(), l))
            }
            Bi::Errno => Ok(Some(Val::C(self.errno_addr))),
            Bi::Zero => Ok(Some(Val::C(0))),
            Bi::One => Ok(Some(Val::C(1))),
            Bi::MinusOne => Ok(Some(Val::C(trunc(!0, rw)))),
            Bi::Sysconf => Ok(Some(Val::C(4096))),
            Bi::Getrandom => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[1], 64)?;
                for i in 0..n {
                    self.store_bits(p + i, &Val::C(0x5a ^ i), 8)?;
                }
                Ok(Some(Val::C(n)))
            }
            Bi::Syscall => {
                let k = self.conc(&av[0], 64)?;
                match k {
                    318 => {
                        let p = self.addr(&av[1])?;
                        let n = self.conc(&av[2], 64)?;
                        for i in 0..n {
                            self.store_bits(p + i, &Val::C(0x5a ^ i), 8)?;
                        }
                        Ok(Some(Val::C(n)))
                    }
                    202 => Ok(Some(Val::C(0))),
                    _ => {
                        // ENOSYS
                        let e = self.errno_addr;
                        self.store_bits(e, &Val::C(38), 32)?;
                        Ok(Some(Val::C(!0)))
                    }
                }
            }
            Bi::ClockGettime => {
                let p = self.addr(&av[1])?;
                self.store_bits(p, &Val::C(1_700_000_000), 64)?;
                self.store_bits(p + 8, &Val::C(0), 64)?;
                Ok(Some(Val::C(0)))
            }
            Bi::WriteFd => {
                if self.fname(fi) == "write" {
                    return Ok(Some(av[2].clone()));
                }
                // writev
                let p = self.addr(&av[1])?;
                let n = self.conc(&av[2], 32)?;
                let mut t = 0;
                for i in 0..n {
                    let l = self.load_bits(p + 16 * i + 8, 64)?;
                    t += self.conc(&l, 64)?;
                }
                Ok(Some(Val::C(t)))
            }
            Bi::VSym => {
                let w = self.conc(&av[0], 32)? as u32;
                let seq = self.st.syms.len() as u32;
                let (id, e) = self.s.var(seq, w);
                Rc::make_mut(&mut self.st.syms).push(id);
                self.stats.maxsyms = self.stats.maxsyms.max(seq as u64 + 1);
                let e = self.s.zext(e, 64);
                Ok(Some(self.v(e)))
            }
            Bi::VAssume => {
                let c = self.bool_arg(&av[0], w);
                self.assume(c)?;
                Ok(None)
            }
            Bi::VCheck => {
                let c = self.bool_arg(&av[0], w);
                let p = self.addr(&av[1])?;
                let n = self.conc(&av[2], 64)?;
                let l = self.cstr(p, n);
                self.check(c, &l)?;
                Ok(None)
            }
            Bi::VArgs => {
                // what the startup code does with the arguments of the program
                for (name, v) in [("3std3sys4args4unix3imp4ARGC", &av[0]), ("3std3sys4args4unix3imp4ARGV", &av[1])] {
                    let g = self.m.globals.iter().position(|g| g.name.contains(name) && !g.name.contains("ARGV_INIT"));
                    match g {
                        Some(g) => {
                            let a = (g as u64 + 1) << 32;
                            self.store_bits(a, v, 64)?;
                        }
                        None => return Err(Stop::Inconclusive("the program does not read its arguments".into())),
                    }
                }
                Ok(None)
            }
            Bi::VThread => {
                self.st.tid = self.conc(&av[0], 32)? & 1;
                Ok(None)
            }
            Bi::TlsAddr => {
                if self.st.tid == 0 {
                    return Ok(Some(av[0].clone()));
                }
                let a = self.conc(&av[0], 64)?;
                if let Some(b) = self.st.tls.get(&a) {
                    return Ok(Some(Val::C(*b)));
                }
                let g = (a >> 32) as usize;
                if g == 0 || g > self.m.globals.len() || a & 0xffff_ffff != 0 {
                    return Err(Stop::Inconclusive("thread-local address".into()));
                }
                let mut o = Obj { b: vec![0; self.m.globals[g - 1].size as usize], s: vec![], ro: false };
                if let Some((ty, c)) = &self.m.globals[g - 1].init {
                    write_const(&mut o.b, 0, ty, c);
                }
                let b = self.st.mem.alloc_heap(o.b.len() as u64);
                self.st.mem.put(b >> 32, o);
                Rc::make_mut(&mut self.st.tls).insert(a, b);
                Ok(Some(Val::C(b)))
            }
            Bi::VDone => Err(Stop::Done("return".into())),
            Bi::VFail => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[1], 64)?;
                let l = self.cstr(p, n);
                Err(Stop::Violation("check".into(), l))
            }
            Bi::VCover => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[1], 64)?;
                let l = self.cstr(p, n);
                if !self.st.covers.contains(&l) {
                    Rc::make_mut(&mut self.st.covers).insert(l);
                }
                Ok(None)
            }
            Bi::VNote => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[1], 64)?;
                let l = self.cstr(p, n);
                Rc::make_mut(&mut self.st.notes).push(l);
                Ok(None)
            }
            Bi::VObserve => {
                let p = self.addr(&av[0])?;
                let n = self.conc(&av[1], 64)?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.byte(p + i)?);
                }
                Rc::make_mut(&mut self.st.obs).push(v);
                Ok(None)
            }
            Bi::VConcretize => {
                let v = self.conc(&av[0], 64)?;
                Ok(Some(Val::C(v)))
            }
            Bi::VIsSym => Ok(Some(Val::C(1))),
            Bi::VRawWrite => Ok(Some(av[2].clone())),
            Bi::Raise => Err(Stop::Inconclusive("raise".into())),
        }
    }

    fn bool_arg(&mut self, v: &Val, w: u32) -> E {
        let e = self.e(v, w);
        if w == 1 {
            e
        } else {
            let z = self.s.c(0, w);
            let q = self.s.eq(e, z);
            self.s.not(q)
        }
    }

    fn alloc(&mut self, n: u64) -> R<u64> {
        if n > 1 << 28 {
            return Err(Stop::Inconclusive(format!("allocation of {} bytes", n)));
        }
        Ok(self.st.mem.alloc_heap(n))
    }

    /// Values of the symbolic inputs under the state's model, in creation order.
    pub fn inputs(&self, st: &State) -> Vec<(u32, u64)> {
        st.syms.iter().map(|id| (self.s.vars[*id as usize].w, st.model.get(*id as usize).copied().unwrap_or(0))).collect()
    }
    pub fn observed(&mut self, st: &State) -> Vec<Vec<u8>> {
        let m = st.model.clone();
        let mut out = vec![];
        for o in st.obs.iter() {
            let mut v = vec![];
            for b in o {
                v.push(match b {
                    Val::C(x) => *x as u8,
                    Val::S(e) => self.evalm(*e, &m) as u8,
                    _ => 0,
                });
            }
            out.push(v);
        }
        out
    }
    /// Asks the solver whether the whole path condition is satisfiable (engine self-check).
    pub fn selfcheck(&mut self, st: &State) -> bool {
        self.stats.selfchecks += 1;
        let mut doms = vec![];
        for (i, d) in st.doms.iter().enumerate() {
            if let Some(d) = d {
                doms.push((i as u32, *d));
            }
        }
        let m = st.model.clone();
        for c in st.conds.iter() {
            if self.evalm(*c, &m) != 1 {
                return false;
            }
        }
        for (v, d) in &doms {
            if !has4(*d, m.get(*v as usize).copied().unwrap_or(0)) {
                return false;
            }
        }
        !matches!(self.z.check(&self.s, &st.conds, &doms, &[]), Res::Unsat)
    }
}

fn small1(s: &Store, e: E) -> Option<u32> {
    let sp = s.sup(e);
    if sp.len() == 1 && s.vars[sp[0] as usize].w <= 8 {
        Some(sp[0])
    } else {
        None
    }
}
fn dom(s: &Store, st: &State, v: u32) -> [u64; 4] {
    if let Some(Some(d)) = st.doms.get(v as usize) {
        return *d;
    }
    full_dom(s.vars[v as usize].w)
}
fn full_dom(w: u32) -> [u64; 4] {
    let n = 1u32 << w;
    let mut d = [0u64; 4];
    for (i, x) in d.iter_mut().enumerate() {
        let lo = 64 * i as u32;
        if n >= lo + 64 {
            *x = !0;
        } else if n > lo {
            *x = (1u64 << (n - lo)) - 1;
        }
    }
    d
}
fn and4(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn not4(a: [u64; 4]) -> [u64; 4] {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn has4(a: [u64; 4], x: u64) -> bool {
    x < 256 && a[(x >> 6) as usize] >> (x & 63) & 1 == 1
}
fn first4(a: [u64; 4]) -> u64 {
    for i in 0..4 {
        if a[i] != 0 {
            return 64 * i as u64 + a[i].trailing_zeros() as u64;
        }
    }
    0
}

fn write_const(b: &mut [u8], off: u64, ty: &Ty, c: &Const) {
    match c {
        Const::Int(v) => {
            let n = ty.store_size();
            for i in 0..n.min(8) {
                b[(off + i) as usize] = (*v >> (8 * i)) as u8;
            }
        }
        Const::Wide(v) => {
            let n = ty.store_size();
            for i in 0..n.min(16) {
                b[(off + i) as usize] = (*v >> (8 * i)) as u8;
            }
        }
        Const::Agg(f) => {
            if let Ty::Array(t, _) = ty {
                if **t == Ty::Int(8) {
                    for (i, x) in f.iter().enumerate() {
                        if let Const::Int(v) = x {
                            b[off as usize + i] = *v as u8;
                        }
                    }
                    return;
                }
                let sz = t.size();
                for (i, x) in f.iter().enumerate() {
                    write_const(b, off + sz * i as u64, t, x);
                }
                return;
            }
            for (i, x) in f.iter().enumerate() {
                write_const(b, off + ty.field_offset(i), ty.field(i), x);
            }
        }
    }
}
