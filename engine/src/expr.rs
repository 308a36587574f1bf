//! Hash-consed bit-vector expressions with simplification.

use crate::ll::{mask128, BinOp};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    /// comparison, bitmask eq=1 gt=2 lt=4 unordered=8
    Cmp(u8),
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    /// float to signed / unsigned int, saturating, NaN -> 0
    ToSi,
    ToUi,
    FromSi,
    FromUi,
    Ext,
    Trunc,
    Abs,
    Floor,
    Ceil,
    RTrunc,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(BinOp, E, E),
    Not(E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u32),
    Concat(E, E),
    Table(u32, E),
    F(FOp, E, E),
}

pub struct Node {
    pub n: N,
    pub w: u32,
    pub kz: u128,
    pub sup: u32,
}

pub struct VarInfo {
    pub seq: u32,
    pub w: u32,
}

pub struct Store {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u32), E>,
    pub sups: Vec<Rc<[u32]>>,
    supmap: HashMap<Rc<[u32]>, u32>,
    supunion: HashMap<(u32, u32), u32>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<(u32, u32), u32>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tabmap: HashMap<Rc<Vec<u64>>, u32>,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
    truth: HashMap<E, [u64; 4]>,
}

pub fn is_small(w: u32) -> bool {
    w <= 8
}

impl Store {
    pub fn new() -> Store {
        let mut s = Store {
            nodes: vec![],
            map: HashMap::new(),
            sups: vec![],
            supmap: HashMap::new(),
            supunion: HashMap::new(),
            vars: vec![],
            varmap: HashMap::new(),
            tables: vec![],
            tabmap: HashMap::new(),
            memo_gen: vec![],
            memo_val: vec![],
            gen: 0,
            truth: HashMap::new(),
        };
        let e: Rc<[u32]> = Rc::from(vec![]);
        s.sups.push(e.clone());
        s.supmap.insert(e, 0);
        // node 0 is a dummy
        s.nodes.push(Node { n: N::Const(0), w: 0, kz: !0, sup: 0 });
        s.memo_gen.push(0);
        s.memo_val.push(0);
        s
    }

    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn cst(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].n {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn kz(&self, e: E) -> u128 {
        self.nodes[e as usize].kz
    }
    pub fn umax(&self, e: E) -> u128 {
        !self.kz(e) & mask128(self.w(e))
    }
    pub fn n(&self, e: E) -> N {
        self.nodes[e as usize].n.clone()
    }
    pub fn sup(&self, e: E) -> &Rc<[u32]> {
        &self.sups[self.nodes[e as usize].sup as usize]
    }

    fn intern_sup(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = Rc::from(v);
        if let Some(i) = self.supmap.get(&r) {
            return *i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(r.clone());
        self.supmap.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(i) = self.supunion.get(&k) {
            return *i;
        }
        let x = self.sups[a as usize].clone();
        let y = self.sups[b as usize].clone();
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.intern_sup(v);
        self.supunion.insert(k, r);
        r
    }

    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&(n.clone(), w)) {
            return *e;
        }
        let s = |st: &Store, e: E| st.nodes[e as usize].sup;
        let m = mask128(w);
        let (sup, kz) = match &n {
            N::Const(v) => (0, !*v),
            N::Var(v) => (self.intern_sup(vec![*v]), !m),
            N::Bin(op, a, b) => {
                let (a, b) = (*a, *b);
                let (ka, kb) = (self.kz(a), self.kz(b));
                let kz = match op {
                    BinOp::And => ka | kb,
                    BinOp::Or => ka & kb,
                    BinOp::Xor => ka & kb,
                    BinOp::Add => {
                        // leading zeros: result < 2^(max bits + 1)
                        let ha = 128 - (self.umax(a)).leading_zeros();
                        let hb = 128 - (self.umax(b)).leading_zeros();
                        let h = ha.max(hb) + 1;
                        if h < w {
                            !mask128(h)
                        } else {
                            !m
                        }
                    }
                    BinOp::Mul => {
                        let ha = 128 - (self.umax(a)).leading_zeros();
                        let hb = 128 - (self.umax(b)).leading_zeros();
                        let h = ha + hb;
                        if h < w {
                            !mask128(h)
                        } else {
                            !m
                        }
                    }
                    BinOp::UDiv | BinOp::LShr => {
                        let ha = 128 - (self.umax(a)).leading_zeros();
                        if *op == BinOp::UDiv && self.umax(b) == 0 {
                            !m
                        } else if *op == BinOp::UDiv && self.cst(b).is_none() {
                            !m // division by zero yields all ones in SMT-LIB
                        } else {
                            !mask128(ha)
                        }
                    }
                    BinOp::URem => {
                        if let Some(c) = self.cst(b) {
                            if c != 0 {
                                !mask128(128 - (c - 1).leading_zeros())
                            } else {
                                !m
                            }
                        } else {
                            !m
                        }
                    }
                    _ => !m,
                };
                (self.union(s(self, a), s(self, b)), kz | !m)
            }
            N::Not(a) => (s(self, *a), !m),
            N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => (self.union(s(self, *a), s(self, *b)), !m),
            N::Ite(c, a, b) => {
                let u = self.union(s(self, *a), s(self, *b));
                let u = self.union(u, s(self, *c));
                (u, self.kz(*a) & self.kz(*b))
            }
            N::ZExt(a) => (s(self, *a), self.kz(*a) | !mask128(self.w(*a))),
            N::SExt(a) => {
                let wa = self.w(*a);
                let k = self.kz(*a);
                let kz = if k >> (wa - 1) & 1 == 1 { k | !mask128(wa) } else { k & mask128(wa) | !m };
                (s(self, *a), kz)
            }
            N::Extract(a, lo) => (s(self, *a), (self.kz(*a) >> lo) | !m),
            N::Concat(h, l) => {
                let wl = self.w(*l);
                let k = (self.kz(*l) & mask128(wl)) | (self.kz(*h) << wl);
                (self.union(s(self, *h), s(self, *l)), k | !m)
            }
            N::Table(t, i) => {
                let mut o = 0u64;
                for v in self.tables[*t as usize].iter() {
                    o |= v;
                }
                (s(self, *i), !(o as u128) | !m)
            }
            N::F(_, a, b) => {
                let sb = if *b == 0 { 0 } else { s(self, *b) };
                (self.union(s(self, *a), sb), !m)
            }
        };
        let e = self.nodes.len() as u32;
        self.nodes.push(Node { n: n.clone(), w, kz, sup });
        self.memo_gen.push(0);
        self.memo_val.push(0);
        // whatever depends on one or two variables of up to 4 bits is the table of its values
        let vs = self.sups[sup as usize].clone();
        if w <= 64 && (vs.len() == 1 || vs.len() == 2) && vs.iter().all(|v| self.vars[*v as usize].w <= 4) {
            let var = |st: &Store, e: E| matches!(st.nodes[e as usize].n, N::Var(_));
            let key = |st: &Store, e: E| match st.nodes[e as usize].n {
                N::Var(_) => true,
                N::Concat(a, b) => var(st, a) && var(st, b) && a != b,
                _ => false,
            };
            let normal = match n {
                N::Var(_) | N::F(..) => true,
                N::Concat(..) => key(self, e),
                N::Table(_, i) => key(self, i),
                _ => false,
            };
            if !normal {
                let (w0, w1) = (self.vars[vs[0] as usize].w, if vs.len() == 2 { self.vars[vs[1] as usize].w } else { 0 });
                let v0 = vs[0];
                let t = (0..1u64 << (w0 + w1)).map(|x| self.eval(e, &|v| if v == v0 { x >> w1 } else { x & ((1 << w1) - 1) }) as u64).collect();
                let mut x = self.mk(N::Var(v0), w0);
                if w1 > 0 {
                    let y = self.mk(N::Var(vs[1]), w1);
                    x = self.mk(N::Concat(x, y), w0 + w1);
                }
                let r = self.table(t, x, w);
                self.map.insert((n, w), r);
                return r;
            }
        }
        self.map.insert((n, w), e);
        e
    }

    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(N::Const(v & mask128(w)), w)
    }
    pub fn tru(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn var(&mut self, seq: u32, w: u32) -> (u32, E) {
        let id = match self.varmap.get(&(seq, w)) {
            Some(i) => *i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(VarInfo { seq, w });
                self.varmap.insert((seq, w), i);
                i
            }
        };
        (id, self.mk(N::Var(id), w))
    }
    pub fn table(&mut self, t: Vec<u64>, idx: E, w: u32) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.c(t[0] as u128, w);
        }
        let t = Rc::new(t);
        let id = match self.tabmap.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(t.clone());
                self.tabmap.insert(t, i);
                i
            }
        };
        self.mk(N::Table(id, idx), w)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.n(a) {
            N::Const(v) => self.c(!v, w),
            N::Not(x) => x,
            _ => self.mk(N::Not(a), w),
        }
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, a, b)
    }

    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask128(w);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if !(y == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem)) {
                let v = eval_bin(op, x, y, w);
                return self.c(v, w);
            }
        }
        use BinOp::*;
        match op {
            Add | Mul | And | Or | Xor if ca.is_some() => return self.bin(op, b, a),
            _ => (),
        }
        if matches!(op, UDiv | URem | SDiv | SRem) && w > 1 && cb != Some(0) && cb.is_some() {
            // divide no wider than the values are
            let (ua, ub) = (self.umax(a), self.umax(b));
            let top = 1u128 << (w - 1);
            let signed = matches!(op, SDiv | SRem);
            if !signed || (ua < top && ub < top) {
                let uop = if matches!(op, UDiv | SDiv) { UDiv } else { URem };
                let k = 128 - ua.max(ub).leading_zeros();
                if k < w && k > 0 {
                    let x = self.extract(a, 0, k);
                    let y = self.c(cb.unwrap(), k);
                    let r = self.bin(uop, x, y);
                    return self.zext(r, w);
                } else if signed {
                    return self.bin(uop, a, b);
                }
            }
        }
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), N::Bin(Add, x, c1)) = (cb, self.n(a)) {
                    if let Some(z) = self.cst(c1) {
                        let k = self.c(y.wrapping_add(z), w);
                        return self.bin(Add, x, k);
                    }
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                // x + ite(c, 0, k) is left alone
            }
            Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    let k = self.c(y.wrapping_neg(), w);
                    return self.bin(Add, a, k);
                }
                // (x + c) - x, x - (x + c), (x+c1)-(x+c2)
                let (ba, oa) = self.split_add(a);
                let (bb, ob) = self.split_add(b);
                if ba == bb {
                    return self.c(oa.wrapping_sub(ob), w);
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                if ob != 0 {
                    let t = self.bin(Sub, a, bb);
                    let k = self.c(ob.wrapping_neg(), w);
                    return self.bin(Add, t, k);
                }
                if oa != 0 {
                    let t = self.bin(Sub, ba, b);
                    let k = self.c(oa, w);
                    return self.bin(Add, t, k);
                }
            }
            Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(Shl, a, k);
                    }
                }
            }
            UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(LShr, a, k);
                    }
                    if y > self.umax(a) {
                        return self.c(0, w);
                    }
                }
            }
            URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.c(y - 1, w);
                        return self.bin(And, a, k);
                    }
                    if y > self.umax(a) {
                        return a;
                    }
                }
            }
            Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    let y = y as u32;
                    let h = self.extract(a, 0, w - y);
                    let z = self.c(0, y);
                    return self.concat(h, z);
                }
            }
            LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    let y = y as u32;
                    let h = self.extract(a, y, w - y);
                    return self.zext(h, w);
                }
            }
            AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = y.min(w as u128 - 1) as u32;
                    let h = self.extract(a, y, w - y);
                    return self.sext(h, w);
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == m {
                        return a;
                    }
                    let possible = self.umax(a);
                    if possible & y == 0 {
                        return self.c(0, w);
                    }
                    if possible & !y == 0 {
                        return a;
                    }
                    // low mask
                    if (y & (y + 1)) == 0 {
                        let k = 128 - y.leading_zeros();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    // contiguous mask
                    let t = y.trailing_zeros();
                    let s = y >> t;
                    if (s & (s + 1)) == 0 && t > 0 {
                        let k = 128 - s.leading_zeros();
                        let x = self.extract(a, t, k);
                        let z = self.c(0, t);
                        let r = self.concat(x, z);
                        return self.zext(r, w);
                    }
                    if let N::Bin(And, x, c1) = self.n(a) {
                        if let Some(z) = self.cst(c1) {
                            let k = self.c(y & z, w);
                            return self.bin(And, x, k);
                        }
                    }
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.c(0, 1);
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.c(1, 1);
                    }
                } else {
                    let (pa, pb) = (self.umax(a), self.umax(b));
                    if pa & pb == 0 && pa != 0 && pb != 0 {
                        // one strictly above the other?
                        let (hi, lo) = if pa > pb { (a, b) } else { (b, a) };
                        let (ph, pl) = (pa.max(pb), pa.min(pb));
                        let k = 128 - pl.leading_zeros();
                        if ph.trailing_zeros() >= k {
                            let h = self.extract(hi, k, w - k);
                            let l = self.extract(lo, 0, k);
                            return self.concat(h, l);
                        }
                    }
                    // pieces at the byte boundary of a concat
                    if let (N::Concat(h, l), _) | (_, N::Concat(h, l)) = (self.n(a), self.n(b)) {
                        let wl = self.w(l);
                        let other = if matches!(self.n(a), N::Concat(..)) { b } else { a };
                        let oh = self.extract(other, wl, w - wl);
                        let ol = self.extract(other, 0, wl);
                        if self.cst(oh).is_some() || self.cst(ol).is_some() {
                            let h2 = self.bin(Or, h, oh);
                            let l2 = self.bin(Or, l, ol);
                            return self.concat(h2, l2);
                        }
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return self.not(a);
                }
                if w == 1 {
                    // xor of booleans: a ? !b : b
                    if let N::Not(x) = self.n(a) {
                        let r = self.bin(Xor, x, b);
                        return self.not(r);
                    }
                }
                if let (Some(y), N::Bin(Xor, x, c1)) = (cb, self.n(a)) {
                    if let Some(z) = self.cst(c1) {
                        let k = self.c(y ^ z, w);
                        return self.bin(Xor, x, k);
                    }
                }
            }
            _ => (),
        }
        if matches!(op, Add | Mul | And | Or | Xor) && cb.is_none() && a > b {
            return self.mk(N::Bin(op, b, a), w);
        }
        self.mk(N::Bin(op, a, b), w)
    }

    fn split_add(&self, a: E) -> (E, u128) {
        if let N::Bin(BinOp::Add, x, c) = self.n(a) {
            if let Some(v) = self.cst(c) {
                return (x, v);
            }
        }
        (a, 0)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x == y) as u128, 1);
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        if let Some(y) = cb {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            if y & self.kz(a) & mask128(w) != 0 {
                return self.fls();
            }
            match self.n(a) {
                N::ZExt(x) => {
                    let wx = self.w(x);
                    if y >> wx != 0 {
                        return self.fls();
                    }
                    let k = self.c(y, wx);
                    return self.eq(x, k);
                }
                N::SExt(x) => {
                    let wx = self.w(x);
                    let lo = y & mask128(wx);
                    let sx = eval_sext(lo, wx, w);
                    if sx != y {
                        return self.fls();
                    }
                    let k = self.c(lo, wx);
                    return self.eq(x, k);
                }
                N::Concat(h, l) => {
                    let wl = self.w(l);
                    let wh = self.w(h);
                    let kh = self.c(y >> wl, wh);
                    let kl = self.c(y, wl);
                    let e1 = self.eq(h, kh);
                    let e2 = self.eq(l, kl);
                    return self.and1(e1, e2);
                }
                N::Not(x) => {
                    let k = self.c(!y, w);
                    return self.eq(x, k);
                }
                N::Bin(BinOp::Add, x, c1) => {
                    if let Some(z) = self.cst(c1) {
                        let k = self.c(y.wrapping_sub(z), w);
                        return self.eq(x, k);
                    }
                }
                N::Bin(BinOp::Xor, x, c1) => {
                    if let Some(z) = self.cst(c1) {
                        let k = self.c(y ^ z, w);
                        return self.eq(x, k);
                    }
                    if y == 0 {
                        return self.eq(x, c1);
                    }
                }
                N::Bin(BinOp::Sub, x, z) if y == 0 => return self.eq(x, z),
                N::Bin(BinOp::Or, x, z) => {
                    if y == 0 {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(z, b);
                        return self.and1(e1, e2);
                    }
                    if let Some(k) = self.cst(z) {
                        if k & !y != 0 {
                            return self.fls();
                        }
                    }
                }
                N::Ite(c, x, z) => {
                    let (cx, cz) = (self.cst(x).is_some(), self.cst(z).is_some());
                    if cx || cz {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(z, b);
                        return self.ite(c, e1, e2);
                    }
                }
                _ => (),
            }
        } else {
            match (self.n(a), self.n(b)) {
                (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                (N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                (N::ZExt(x), N::ZExt(y)) => {
                    let wm = self.w(x).max(self.w(y));
                    let x = self.zext(x, wm);
                    let y = self.zext(y, wm);
                    return self.eq(x, y);
                }
                (N::Concat(h1, l1), N::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                    let e1 = self.eq(h1, h2);
                    let e2 = self.eq(l1, l2);
                    return self.and1(e1, e2);
                }
                (N::Concat(h, l), N::ZExt(_)) | (N::ZExt(_), N::Concat(h, l)) => {
                    let other = if matches!(self.n(a), N::Concat(..)) { b } else { a };
                    let wl = self.w(l);
                    let wh = self.w(h);
                    let oh = self.extract(other, wl, wh);
                    let ol = self.extract(other, 0, wl);
                    let e1 = self.eq(h, oh);
                    let e2 = self.eq(l, ol);
                    return self.and1(e1, e2);
                }
                _ => (),
            }
            if w == 1 {
                // a == b  <=> !(a ^ b)
                let x = self.bin(BinOp::Xor, a, b);
                return self.not(x);
            }
            let (ba, oa) = self.split_add(a);
            let (bb, ob) = self.split_add(b);
            if ba == bb {
                return self.c((oa == ob) as u128, 1);
            }
        }
        if cb.is_none() && a > b {
            return self.mk(N::Eq(b, a), 1);
        }
        self.mk(N::Eq(a, b), 1)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x < y) as u128, 1);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and1(na, b);
        }
        if let Some(y) = cb {
            if y == 0 {
                return self.fls();
            }
            if self.umax(a) < y {
                return self.tru();
            }
            if y == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            match self.n(a) {
                N::ZExt(x) => {
                    let wx = self.w(x);
                    let k = self.c(y, wx); // y <= umax(a) < 2^wx
                    return self.ult(x, k);
                }
                N::Ite(c, x, z) if self.cst(x).is_some() || self.cst(z).is_some() => {
                    let e1 = self.ult(x, b);
                    let e2 = self.ult(z, b);
                    return self.ite(c, e1, e2);
                }
                _ => (),
            }
        }
        if let Some(x) = ca {
            if x >= self.umax(b) {
                return self.fls();
            }
            if x == 0 {
                let z = self.c(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            match self.n(b) {
                N::ZExt(y) => {
                    let wy = self.w(y);
                    let k = self.c(x, wy);
                    return self.ult(k, y);
                }
                N::Ite(c, y, z) if self.cst(y).is_some() || self.cst(z).is_some() => {
                    let e1 = self.ult(a, y);
                    let e2 = self.ult(a, z);
                    return self.ite(c, e1, e2);
                }
                _ => (),
            }
            // canonical: const on the right:  x < b  <=>  !(b < x+1)
            let k = self.c(x + 1, w);
            let e = self.ult(b, k);
            return self.not(e);
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
            let wm = self.w(x).max(self.w(y));
            if wm < w {
                let x = self.zext(x, wm);
                let y = self.zext(y, wm);
                return self.ult(x, y);
            }
        }
        self.mk(N::Ult(a, b), 1)
    }

    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((eval_sext(x, w, 128) as i128) .lt(&(eval_sext(y, w, 128) as i128)) as u128, 1);
        }
        if w == 1 {
            return self.ult(b, a);
        }
        let sb = 1u128 << (w - 1);
        if self.kz(a) & sb != 0 && self.kz(b) & sb != 0 {
            return self.ult(a, b);
        }
        if cb == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if ca == Some(mask128(w)) {
            let e = self.extract(b, w - 1, 1);
            return self.not(e);
        }
        if let (Some(y), true) = (cb, self.kz(a) & sb != 0) {
            if y & sb != 0 {
                return self.fls();
            }
        }
        if let (Some(x), true) = (ca, self.kz(b) & sb != 0) {
            if x & sb != 0 {
                return self.tru();
            }
        }
        match (self.n(a), cb) {
            (N::SExt(x), Some(y)) => {
                let wx = self.w(x);
                let lo = y & mask128(wx);
                if eval_sext(lo, wx, w) == y {
                    let k = self.c(lo, wx);
                    return self.slt(x, k);
                }
            }
            (N::Ite(c, x, z), Some(_)) if self.cst(x).is_some() || self.cst(z).is_some() => {
                let e1 = self.slt(x, b);
                let e2 = self.slt(z, b);
                return self.ite(c, e1, e2);
            }
            _ => (),
        }
        match (ca, self.n(b)) {
            (Some(_), N::Ite(c, x, z)) if self.cst(x).is_some() || self.cst(z).is_some() => {
                let e1 = self.slt(a, x);
                let e2 = self.slt(a, z);
                return self.ite(c, e1, e2);
            }
            _ => (),
        }
        self.mk(N::Slt(a, b), 1)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.cst(c) {
            return if x == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or1(c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.and1(nc, b);
                }
                (_, Some(0)) => return self.and1(c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.or1(nc, a);
                }
                _ => (),
            }
        }
        // same condition nested
        let mut a = a;
        let mut b = b;
        if let N::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                a = x;
            }
        }
        if let N::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                b = y;
            }
        }
        if a == b {
            return a;
        }
        self.mk(N::Ite(c, a, b), w)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        match self.n(a) {
            N::Const(v) => self.c(v, w),
            N::ZExt(x) => self.zext(x, w),
            N::Ite(c, x, y) if self.cst(x).is_some() && self.cst(y).is_some() => {
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                self.ite(c, x, y)
            }
            _ => self.mk(N::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if self.kz(a) >> (wa - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        match self.n(a) {
            N::Const(v) => self.c(eval_sext(v, wa, w), w),
            N::SExt(x) => self.sext(x, w),
            N::Ite(c, x, y) if self.cst(x).is_some() && self.cst(y).is_some() => {
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                self.ite(c, x, y)
            }
            _ => self.mk(N::SExt(a), w),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        if lo == 0 && w == wa {
            return a;
        }
        // known zero?
        if (self.umax(a) >> lo) & mask128(w) == 0 {
            return self.c(0, w);
        }
        match self.n(a) {
            N::Const(v) => self.c(v >> lo, w),
            N::Extract(x, l2) => self.extract(x, lo + l2, w),
            N::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    self.extract(l, lo, w)
                } else if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else {
                    let ll = self.extract(l, lo, wl - lo);
                    let hh = self.extract(h, 0, lo + w - wl);
                    self.concat(hh, ll)
                }
            }
            N::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.c(0, w)
                } else if lo + w <= wx {
                    self.extract(x, lo, w)
                } else {
                    let e = self.extract(x, lo, wx - lo);
                    self.zext(e, w)
                }
            }
            N::SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            N::SExt(x) if lo == 0 => self.sext(x, w),
            N::Not(x) => {
                let e = self.extract(x, lo, w);
                self.not(e)
            }
            N::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.bin(op, ex, ey)
            }
            N::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
                let ex = self.extract(x, 0, w);
                let ey = self.extract(y, 0, w);
                self.bin(op, ex, ey)
            }
            N::Ite(c, x, y) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.ite(c, ex, ey)
            }
            _ => self.mk(N::Extract(a, lo), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        let (ch, cl) = (self.cst(h), self.cst(l));
        if let (Some(x), Some(y)) = (ch, cl) {
            return self.c(x << wl | y, w);
        }
        if ch == Some(0) {
            return self.zext(l, w);
        }
        match (self.n(h), self.n(l)) {
            (N::Extract(x, a), N::Extract(y, b)) if x == y && a == b + wl => return self.extract(x, b, w),
            (N::Extract(x, a), _) if x == l && a == wl => return self.extract(x, 0, w),
            (N::ZExt(x), _) => {
                let c = self.concat(x, l);
                return self.zext(c, w);
            }
            _ => (),
        }
        // concat(hi(x), concat(lo(x), rest)) merges
        if let N::Concat(l1, l2) = self.n(l) {
            if let (N::Extract(x, a), N::Extract(y, b)) = (self.n(h), self.n(l1)) {
                if x == y && a == b + self.w(l1) {
                    let m = self.extract(x, b, wh + self.w(l1));
                    return self.concat(m, l2);
                }
            }
            if let (Some(x), Some(y)) = (ch, self.cst(l1)) {
                let w1 = self.w(l1);
                let k = self.c(x << w1 | y, wh + w1);
                return self.concat(k, l2);
            }
        }
        self.mk(N::Concat(h, l), w)
    }
    pub fn f(&mut self, op: FOp, a: E, b: E, w: u32) -> E {
        let wa = self.w(a);
        let vb = if b == 0 { Some(0) } else { self.cst(b) };
        if let (Some(x), Some(y)) = (self.cst(a), vb) {
            let r = eval_f(op, x, y, wa, w);
            return self.c(r, w);
        }
        self.mk(N::F(op, a, b), w)
    }

    /// Evaluates under an assignment (indexed by variable id -> value).
    pub fn eval(&mut self, e: E, asg: &dyn Fn(u32) -> u64) -> u128 {
        self.gen += 1;
        self.eval_rec(e, asg)
    }
    pub fn eval_again(&mut self, e: E, asg: &dyn Fn(u32) -> u64) -> u128 {
        self.eval_rec(e, asg)
    }

    fn eval_rec(&mut self, e: E, asg: &dyn Fn(u32) -> u64) -> u128 {
        if let N::Const(v) = self.nodes[e as usize].n {
            return v;
        }
        if self.memo_gen[e as usize] == self.gen {
            return self.memo_val[e as usize];
        }
        let w = self.nodes[e as usize].w;
        let n = self.nodes[e as usize].n.clone();
        let m = mask128(w);
        let v = match n {
            N::Const(v) => v,
            N::Var(id) => asg(id) as u128 & m,
            N::Bin(op, a, b) => {
                let x = self.eval_rec(a, asg);
                let y = self.eval_rec(b, asg);
                eval_bin(op, x, y, w)
            }
            N::Not(a) => !self.eval_rec(a, asg) & m,
            N::Eq(a, b) => (self.eval_rec(a, asg) == self.eval_rec(b, asg)) as u128,
            N::Ult(a, b) => (self.eval_rec(a, asg) < self.eval_rec(b, asg)) as u128,
            N::Slt(a, b) => {
                let wa = self.w(a);
                let x = eval_sext(self.eval_rec(a, asg), wa, 128) as i128;
                let y = eval_sext(self.eval_rec(b, asg), wa, 128) as i128;
                (x < y) as u128
            }
            N::Ite(c, a, b) => {
                if self.eval_rec(c, asg) == 1 {
                    self.eval_rec(a, asg)
                } else {
                    self.eval_rec(b, asg)
                }
            }
            N::ZExt(a) => self.eval_rec(a, asg),
            N::SExt(a) => {
                let wa = self.w(a);
                eval_sext(self.eval_rec(a, asg), wa, w)
            }
            N::Extract(a, lo) => (self.eval_rec(a, asg) >> lo) & m,
            N::Concat(h, l) => {
                let wl = self.w(l);
                self.eval_rec(h, asg) << wl | self.eval_rec(l, asg)
            }
            N::Table(t, i) => {
                let i = self.eval_rec(i, asg);
                let t = &self.tables[t as usize];
                if i < t.len() as u128 {
                    t[i as usize] as u128
                } else {
                    0
                }
            }
            N::F(op, a, b) => {
                let wa = self.w(a);
                let x = self.eval_rec(a, asg);
                let y = if b == 0 { 0 } else { self.eval_rec(b, asg) };
                eval_f(op, x, y, wa, w)
            }
        };
        self.memo_gen[e as usize] = self.gen;
        self.memo_val[e as usize] = v;
        v
    }

    /// For a condition over a single small variable: the set of values making it true.
    pub fn truth(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let v = self.sup(e)[0];
        let w = self.vars[v as usize].w;
        let mut t = [0u64; 4];
        for x in 0..(1u64 << w) {
            if self.eval(e, &|_| x) == 1 {
                t[(x >> 6) as usize] |= 1 << (x & 63);
            }
        }
        self.truth.insert(e, t);
        t
    }

    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        let s = |x: E| self.show(x, d - 1);
        match self.n(e) {
            N::Const(v) => format!("{}:{}", v, self.w(e)),
            N::Var(v) => format!("v{}", self.vars[v as usize].seq),
            N::Bin(op, a, b) => format!("({:?} {} {})", op, s(a), s(b)),
            N::Not(a) => format!("!{}", s(a)),
            N::Eq(a, b) => format!("(= {} {})", s(a), s(b)),
            N::Ult(a, b) => format!("(u< {} {})", s(a), s(b)),
            N::Slt(a, b) => format!("(s< {} {})", s(a), s(b)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            N::ZExt(a) => format!("(zx{} {})", self.w(e), s(a)),
            N::SExt(a) => format!("(sx{} {})", self.w(e), s(a)),
            N::Extract(a, lo) => format!("{}[{}+{}]", s(a), lo, self.w(e)),
            N::Concat(a, b) => format!("({} ++ {})", s(a), s(b)),
            N::Table(t, i) => format!("T{}[{}]", t, s(i)),
            N::F(op, a, b) => format!("(f{:?} {} {})", op, s(a), if b == 0 { String::new() } else { s(b) }),
        }
    }
}

pub fn eval_sext(v: u128, from: u32, to: u32) -> u128 {
    let s = 128 - from;
    ((((v << s) as i128) >> s) as u128) & mask128(to)
}

pub fn eval_bin(op: BinOp, x: u128, y: u128, w: u32) -> u128 {
    let m = mask128(w);
    let sx = || eval_sext(x, w, 128) as i128;
    let sy = || eval_sext(y, w, 128) as i128;
    (match op {
        BinOp::Add => x.wrapping_add(y),
        BinOp::Sub => x.wrapping_sub(y),
        BinOp::Mul => x.wrapping_mul(y),
        BinOp::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        BinOp::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        BinOp::SDiv => {
            if y == 0 {
                if sx() < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx().wrapping_div(sy()) as u128
            }
        }
        BinOp::SRem => {
            if y == 0 {
                x
            } else {
                sx().wrapping_rem(sy()) as u128
            }
        }
        BinOp::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        BinOp::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        BinOp::AShr => (sx() >> y.min(w as u128 - 1).min(127)) as u128,
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
    }) & m
}

pub fn eval_f(op: FOp, x: u128, y: u128, wa: u32, w: u32) -> u128 {
    let m = mask128(w);
    if let FOp::FromSi | FOp::FromUi = op {
        let r = if op == FOp::FromSi {
            let v = eval_sext(x, wa, 128) as i128;
            if w == 64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        } else if w == 64 {
            (x as f64).to_bits() as u128
        } else {
            (x as f32).to_bits() as u128
        };
        return r & m;
    }
    if wa == 64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        let fb = |r: f64| r.to_bits() as u128;
        match op {
            FOp::Cmp(p) => {
                let k = if a.is_nan() || b.is_nan() {
                    8
                } else if a == b {
                    1
                } else if a > b {
                    2
                } else {
                    4
                };
                (p & k != 0) as u128
            }
            FOp::Add => fb(a + b),
            FOp::Sub => fb(a - b),
            FOp::Mul => fb(a * b),
            FOp::Div => fb(a / b),
            FOp::Neg => x ^ (1 << 63),
            FOp::Abs => x & !(1 << 63),
            FOp::Floor => fb(a.floor()),
            FOp::Ceil => fb(a.ceil()),
            FOp::RTrunc => fb(a.trunc()),
            FOp::ToSi => sat_si(a, w),
            FOp::ToUi => sat_ui(a, w),
            FOp::Trunc => (a as f32).to_bits() as u128,
            _ => panic!("eval_f {:?}", op),
        }
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let fb = |r: f32| r.to_bits() as u128;
        match op {
            FOp::Cmp(p) => {
                let k = if a.is_nan() || b.is_nan() {
                    8
                } else if a == b {
                    1
                } else if a > b {
                    2
                } else {
                    4
                };
                (p & k != 0) as u128
            }
            FOp::Add => fb(a + b),
            FOp::Sub => fb(a - b),
            FOp::Mul => fb(a * b),
            FOp::Div => fb(a / b),
            FOp::Neg => x ^ (1 << 31),
            FOp::Abs => x & !(1 << 31),
            FOp::Floor => fb(a.floor()),
            FOp::Ceil => fb(a.ceil()),
            FOp::RTrunc => fb(a.trunc()),
            FOp::ToSi => sat_si(a as f64, w),
            FOp::ToUi => sat_ui(a as f64, w),
            FOp::Ext => (a as f64).to_bits() as u128,
            _ => panic!("eval_f {:?}", op),
        }
    }
}

fn sat_si(a: f64, w: u32) -> u128 {
    let lo = -(1i128 << (w - 1));
    let hi = (1i128 << (w - 1)) - 1;
    let v = (a as i128).clamp(lo, hi);
    (v as u128) & mask128(w)
}
fn sat_ui(a: f64, w: u32) -> u128 {
    (a as u128).min(mask128(w))
}
