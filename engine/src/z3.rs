//! Minimal FFI to libz3 and translation of expressions.

use crate::expr::{FOp, Store, E, N};
use crate::ll::BinOp;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_gt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let s = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", s);
    }
    std::process::exit(2);
}

#[derive(PartialEq, Eq, Debug, Clone)]
pub enum Res {
    Sat(HashMap<u32, u64>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    /// as bit-vector (or Bool for width 1)
    cache: HashMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub rlimit: u32,
    uses: u32,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        let c = unsafe { Self::ctx() };
        Z3 { c, cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0, rlimit, uses: 0 }
    }
    unsafe fn ctx() -> P {
        let cfg = Z3_mk_config();
        let c = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(c, Some(on_err));
        c
    }

    fn bv(&mut self, st: &Store, e: E) -> P {
        let a = self.tr(st, e);
        if st.w(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                let one = Z3_mk_unsigned_int64(self.c, 1, s);
                let zero = Z3_mk_unsigned_int64(self.c, 0, s);
                Z3_mk_ite(self.c, a, one, zero)
            }
        } else {
            a
        }
    }

    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w))
            } else {
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w - 64));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }

    fn tr(&mut self, st: &Store, e: E) -> P {
        if let Some(p) = self.cache.get(&e) {
            return *p;
        }
        let w = st.w(e);
        let c = self.c;
        let r = unsafe {
            match st.n(e) {
                N::Const(v) => {
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(v, w)
                    }
                }
                N::Var(v) => {
                    let s = Z3_mk_int_symbol(c, v as c_int);
                    let k = Z3_mk_const(c, s, Z3_mk_bv_sort(c, w));
                    if w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, k, one)
                    } else {
                        k
                    }
                }
                N::Bin(op, a, b) => {
                    let x = self.tr(st, a);
                    let y = self.tr(st, b);
                    if w == 1 {
                        match op {
                            BinOp::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                            BinOp::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                            BinOp::Xor => Z3_mk_xor(c, x, y),
                            _ => {
                                let x = self.bv(st, a);
                                let y = self.bv(st, b);
                                let r = self.binop(op, x, y);
                                let one = self.num(1, 1);
                                Z3_mk_eq(c, r, one)
                            }
                        }
                    } else {
                        self.binop(op, x, y)
                    }
                }
                N::Not(a) => {
                    let x = self.tr(st, a);
                    if w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        Z3_mk_bvnot(c, x)
                    }
                }
                N::Eq(a, b) => {
                    let x = self.tr(st, a);
                    let y = self.tr(st, b);
                    Z3_mk_eq(c, x, y)
                }
                N::Ult(a, b) => {
                    let x = self.bv(st, a);
                    let y = self.bv(st, b);
                    Z3_mk_bvult(c, x, y)
                }
                N::Slt(a, b) => {
                    let x = self.bv(st, a);
                    let y = self.bv(st, b);
                    Z3_mk_bvslt(c, x, y)
                }
                N::Ite(k, a, b) => {
                    let z = self.tr(st, k);
                    let x = self.tr(st, a);
                    let y = self.tr(st, b);
                    Z3_mk_ite(c, z, x, y)
                }
                N::ZExt(a) => {
                    let x = self.bv(st, a);
                    Z3_mk_zero_ext(c, w - st.w(a), x)
                }
                N::SExt(a) => {
                    let x = self.bv(st, a);
                    Z3_mk_sign_ext(c, w - st.w(a), x)
                }
                N::Extract(a, lo) => {
                    let x = self.bv(st, a);
                    let r = Z3_mk_extract(c, lo + w - 1, lo, x);
                    if w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
                N::Concat(h, l) => {
                    let x = self.bv(st, h);
                    let y = self.bv(st, l);
                    Z3_mk_concat(c, x, y)
                }
                N::Table(t, i) => {
                    let x = self.bv(st, i);
                    let wi = st.w(i);
                    let t = st.tables[t as usize].clone();
                    // runs of equal values, as a chain of range tests from the top
                    let mut k = 0;
                    let mut runs = vec![];
                    while k < t.len() {
                        let s = k;
                        while k < t.len() && t[k] == t[s] {
                            k += 1;
                        }
                        runs.push((s, k, t[s]));
                    }
                    // beyond the table: zero, as before
                    let zero = if w == 1 { Z3_mk_false(c) } else { self.num(0, w) };
                    let mut leaves: Vec<(usize, P)> = vec![];
                    for (_, end, v) in runs.iter() {
                        let vv = if w == 1 {
                            if *v == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else {
                            self.num(*v as u128, w)
                        };
                        leaves.push((*end, vv));
                    }
                    if wi >= 64 || (t.len() as u64) < (1u64 << wi) {
                        leaves.push((usize::MAX, zero));
                    }
                    let acc = self.tree(&leaves, x, wi);
                    acc
                }
                N::F(op, a, b) => self.fop(st, op, a, b, w),
            }
        };
        self.cache.insert(e, r);
        r
    }

    /// Balanced choice among consecutive ranges `.. < end`.
    unsafe fn tree(&self, l: &[(usize, P)], x: P, wi: u32) -> P {
        if l.len() == 1 {
            return l[0].1;
        }
        let m = l.len() / 2;
        let a = self.tree(&l[..m], x, wi);
        let b = self.tree(&l[m..], x, wi);
        let en = self.num(l[m - 1].0 as u128, wi);
        Z3_mk_ite(self.c, Z3_mk_bvult(self.c, x, en), a, b)
    }

    unsafe fn binop(&self, op: BinOp, x: P, y: P) -> P {
        let c = self.c;
        match op {
            BinOp::Add => Z3_mk_bvadd(c, x, y),
            BinOp::Sub => Z3_mk_bvsub(c, x, y),
            BinOp::Mul => Z3_mk_bvmul(c, x, y),
            BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
            BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
            BinOp::URem => Z3_mk_bvurem(c, x, y),
            BinOp::SRem => Z3_mk_bvsrem(c, x, y),
            BinOp::Shl => Z3_mk_bvshl(c, x, y),
            BinOp::LShr => Z3_mk_bvlshr(c, x, y),
            BinOp::AShr => Z3_mk_bvashr(c, x, y),
            BinOp::And => Z3_mk_bvand(c, x, y),
            BinOp::Or => Z3_mk_bvor(c, x, y),
            BinOp::Xor => Z3_mk_bvxor(c, x, y),
        }
    }

    unsafe fn fsort(&self, w: u32) -> P {
        if w == 64 {
            Z3_mk_fpa_sort_64(self.c)
        } else {
            Z3_mk_fpa_sort_32(self.c)
        }
    }

    unsafe fn fop(&mut self, st: &Store, op: FOp, a: E, b: E, w: u32) -> P {
        let c = self.c;
        let wa = st.w(a);
        let x = self.bv(st, a);
        let rne = Z3_mk_fpa_rne(c);
        match op {
            FOp::FromSi => {
                let s = self.fsort(w);
                return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, x, s));
            }
            FOp::FromUi => {
                let s = self.fsort(w);
                return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, x, s));
            }
            _ => (),
        }
        let fs = self.fsort(wa);
        let fx = Z3_mk_fpa_to_fp_bv(c, x, fs);
        let fy = if b == 0 {
            fx
        } else {
            let y = self.bv(st, b);
            Z3_mk_fpa_to_fp_bv(c, y, fs)
        };
        let ib = |p: P| Z3_mk_fpa_to_ieee_bv(c, p);
        match op {
            FOp::Cmp(p) => {
                let mut v = vec![];
                if p & 1 != 0 {
                    v.push(Z3_mk_fpa_eq(c, fx, fy));
                }
                if p & 2 != 0 {
                    v.push(Z3_mk_fpa_gt(c, fx, fy));
                }
                if p & 4 != 0 {
                    v.push(Z3_mk_fpa_lt(c, fx, fy));
                }
                if p & 8 != 0 {
                    v.push(Z3_mk_fpa_is_nan(c, fx));
                    v.push(Z3_mk_fpa_is_nan(c, fy));
                }
                if v.is_empty() {
                    Z3_mk_false(c)
                } else {
                    Z3_mk_or(c, v.len() as c_uint, v.as_ptr())
                }
            }
            FOp::Add => ib(Z3_mk_fpa_add(c, rne, fx, fy)),
            FOp::Sub => ib(Z3_mk_fpa_sub(c, rne, fx, fy)),
            FOp::Mul => ib(Z3_mk_fpa_mul(c, rne, fx, fy)),
            FOp::Div => ib(Z3_mk_fpa_div(c, rne, fx, fy)),
            FOp::Neg => ib(Z3_mk_fpa_neg(c, fx)),
            FOp::Abs => ib(Z3_mk_fpa_abs(c, fx)),
            FOp::Floor => ib(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fx)),
            FOp::Ceil => ib(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fx)),
            FOp::RTrunc => ib(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), fx)),
            FOp::Ext => ib(Z3_mk_fpa_to_fp_float(c, rne, fx, Z3_mk_fpa_sort_64(c))),
            FOp::Trunc => ib(Z3_mk_fpa_to_fp_float(c, rne, fx, Z3_mk_fpa_sort_32(c))),
            FOp::ToSi | FOp::ToUi => {
                // saturating: compare against the bounds as floats
                let rtz = Z3_mk_fpa_rtz(c);
                let signed = op == FOp::ToSi;
                let (lo, hi): (f64, f64) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                let mkf = |z: &Z3, v: f64| {
                    let bits = if wa == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
                    Z3_mk_fpa_to_fp_bv(c, z.num(bits, wa), fs)
                };
                let flo = mkf(self, lo);
                let fhi = mkf(self, hi);
                let (minv, maxv) = if signed { (1u128 << (w - 1), (1u128 << (w - 1)) - 1) } else { (0, crate::ll::mask128(w)) };
                let vmin = self.num(minv, w);
                let vmax = self.num(maxv, w);
                let zero = self.num(0, w);
                let conv = if signed { Z3_mk_fpa_to_sbv(c, rtz, fx, w) } else { Z3_mk_fpa_to_ubv(c, rtz, fx, w) };
                let below = Z3_mk_fpa_lt(c, fx, flo);
                let notabove = Z3_mk_fpa_lt(c, fx, fhi);
                let r = Z3_mk_ite(c, notabove, conv, vmax);
                let r = Z3_mk_ite(c, below, vmin, r);
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, fx), zero, r)
            }
            _ => panic!("fop"),
        }
    }

    /// Checks the conjunction of `conds` together with the domains; returns values of `vars`.
    pub fn check(&mut self, st: &Store, conds: &[E], doms: &[(u32, [u64; 4])], vars: &[u32]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        self.uses += 1;
        if self.uses > 3000 {
            // fresh context now and then, so that the term cache does not grow without bound
            unsafe {
                Z3_del_context(self.c);
                self.c = Self::ctx();
            }
            self.cache.clear();
            self.uses = 0;
        }
        let has_f = conds.iter().any(|e| has_float(st, *e));
        let r = unsafe {
            let c = self.c;
            let s = if has_f { Z3_mk_solver(c) } else { Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for e in conds {
                let a = self.tr(st, *e);
                Z3_solver_assert(c, s, a);
            }
            for (v, d) in doms {
                let w = st.vars[*v as usize].w;
                let x = Z3_mk_const(c, Z3_mk_int_symbol(c, *v as c_int), Z3_mk_bv_sort(c, w));
                // ranges
                let n = 1u32 << w;
                let bit = |i: u32| d[(i >> 6) as usize] >> (i & 63) & 1 == 1;
                let mut i = 0;
                let mut alts = vec![];
                while i < n {
                    if bit(i) {
                        let s0 = i;
                        while i < n && bit(i) {
                            i += 1;
                        }
                        let e0 = i - 1;
                        if s0 == e0 {
                            alts.push(Z3_mk_eq(c, x, self.num(s0 as u128, w)));
                        } else {
                            let a = Z3_mk_bvule(c, self.num(s0 as u128, w), x);
                            let b = Z3_mk_bvule(c, x, self.num(e0 as u128, w));
                            alts.push(Z3_mk_and(c, 2, [a, b].as_ptr()));
                        }
                    } else {
                        i += 1;
                    }
                }
                let a = if alts.is_empty() { Z3_mk_false(c) } else { Z3_mk_or(c, alts.len() as c_uint, alts.as_ptr()) };
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            let res = if r == 1 {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut h = HashMap::new();
                for v in vars {
                    let w = st.vars[*v as usize].w;
                    let x = Z3_mk_const(c, Z3_mk_int_symbol(c, *v as c_int), Z3_mk_bv_sort(c, w));
                    let mut out: P = std::ptr::null_mut();
                    if Z3_model_eval(c, m, x, true, &mut out) {
                        let mut n = 0u64;
                        if Z3_get_numeral_uint64(c, out, &mut n) {
                            h.insert(*v, n);
                        }
                    }
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(h)
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_dec_ref(c, s);
            res
        };
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.secs += t0.elapsed().as_secs_f64();
        r
    }
}

fn has_float(st: &Store, e: E) -> bool {
    fn go(st: &Store, e: E, seen: &mut std::collections::HashSet<E>) -> bool {
        if !seen.insert(e) {
            return false;
        }
        match st.n(e) {
            N::F(..) => true,
            N::Const(_) | N::Var(_) => false,
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Concat(a, b) => go(st, a, seen) || go(st, b, seen),
            N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) | N::Table(_, a) => go(st, a, seen),
            N::Ite(c, a, b) => go(st, c, seen) || go(st, a, seen) || go(st, b, seen),
        }
    }
    go(st, e, &mut std::collections::HashSet::new())
}
