//! Parser for textual LLVM IR (the subset rustc emits after `scalarizer`).
//! Functions are parsed lazily, on first execution.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(Rc<Ty>, u64),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(Rc<Ty>, u64),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(t, _) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(_, _) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = (*n as u64).div_ceil(8);
                b.div_ceil(self.align()) * self.align()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(t, n) => t.size() * n,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*packed {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = o.div_ceil(a) * a;
                }
                o
            }
            Ty::Vec(t, n) => (t.bits() as u64 * n).div_ceil(8),
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Array(t, _) => t.size() * i as u64,
            Ty::Vec(t, _) => t.size() * i as u64,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => panic!("field_offset"),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Array(t, _) | Ty::Vec(t, _) => t,
            Ty::Struct(f, _) => &f[i],
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Array(_, n) | Ty::Vec(_, n) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Array(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u64),
    Wide(u128),
    Agg(Rc<Vec<Const>>),
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    ZExt,
    SExt,
    Trunc,
    Bitcast,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBinK {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Op),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, dst: u32, a: Op, b: Op },
    VBin { op: BinOp, ew: u32, dst: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u32, dst: u32, a: Op, b: Op },
    VIcmp { p: Pred, ew: u32, dst: u32, a: Op, b: Op },
    Cast { k: CastK, from: Ty, to: Ty, dst: u32, a: Op },
    Select { dst: u32, c: Op, a: Op, b: Op, ty: Ty },
    Load { dst: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { dst: u32, base: Op, off: i64, terms: Box<[(Op, u32, u64)]> },
    Alloca { dst: u32, size: u64 },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Box<[Op]>, argtys: Rc<[Ty]>, cont: Option<u32>, unwind: Option<u32> },
    Br { to: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, default: u32, cases: Rc<Vec<(u64, u32)>> },
    Ret { v: Option<Op> },
    Unreachable,
    Extract { dst: u32, a: Op, path: Box<[u32]> },
    Insert { dst: u32, a: Op, v: Op, path: Box<[u32]> },
    ExtractElt { dst: u32, a: Op, i: Op },
    InsertElt { dst: u32, a: Op, v: Op, i: Op, n: u64 },
    Shuffle { dst: u32, a: Op, b: Op, mask: Box<[i32]>, n: u64 },
    Fcmp { p: u8, dst: u32, a: Op, b: Op, dbl: bool },
    FBin { k: FBinK, dst: u32, a: Op, b: Op, dbl: bool },
    FNeg { dst: u32, a: Op, dbl: bool },
    Mov { dst: u32, a: Op },
    Rmw { op: Rc<str>, w: u32, dst: u32, p: Op, v: Op },
    CmpXchg { w: u32, dst: u32, p: Op, c: Op, n: Op },
    Nop,
    LandingPad { dst: Option<u32>, catch: bool },
    Resume { v: Op },
    Unsupported(Rc<str>),
}

pub struct PhiSet {
    pub pred: u32,
    pub moves: Vec<(u32, Op)>,
}

pub struct Body {
    pub code: Vec<Inst>,
    pub block_start: Vec<u32>,
    pub phis: Vec<Vec<PhiSet>>,
    pub nregs: u32,
    pub consts: Vec<(Const, Ty)>,
    pub has_alloca: bool,
}

pub struct FuncDecl {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub ret: Ty,
    pub body: Option<(usize, usize)>,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub init: Option<(Ty, Const)>,
    pub ty: Ty,
    pub init_src: Option<(usize, usize)>,
    pub external: bool,
}

pub struct Module {
    pub text: &'static str,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),
    Local(String),
    Global(String),
    Num(&'a str),
    CStr(Vec<u8>),
    QStr(Vec<u8>),
    P(u8),
    Meta,
    Attr,
    Dots,
    End,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn hexv(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 0,
    }
}

fn unquote(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
                i += 3;
            }
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}

pub struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    tok: Tok<'a>,
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), i: 0, tok: Tok::End };
        l.adv();
        l
    }
    fn name_after(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            String::from_utf8_lossy(&unquote(&self.s[st..j])).to_string()
        } else {
            let st = self.i;
            while self.i < self.s.len() && idch(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string()
        }
    }
    fn adv(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t' || self.s[self.i] == b'\r') {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        if self.i >= self.s.len() {
            self.tok = Tok::End;
            return;
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                self.tok = Tok::Local(self.name_after());
            }
            b'@' => {
                self.i += 1;
                self.tok = Tok::Global(self.name_after());
            }
            b'!' => {
                self.i += 1;
                while self.i < self.s.len() && (idch(self.s[self.i])) {
                    self.i += 1;
                }
                self.tok = Tok::Meta;
            }
            b'#' => {
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                self.tok = Tok::Attr;
            }
            b'"' => {
                let st = self.i + 1;
                let mut j = st;
                while self.s[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                self.tok = Tok::QStr(unquote(&self.s[st..j]));
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                let st = self.i + 2;
                let mut j = st;
                while self.s[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                self.tok = Tok::CStr(unquote(&self.s[st..j]));
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                self.tok = Tok::Dots;
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || ((self.s[self.i] == b'+' || self.s[self.i] == b'-') && (self.s[self.i - 1] == b'e'))) {
                    self.i += 1;
                }
                self.tok = Tok::Num(std::str::from_utf8(&self.s[st..self.i]).unwrap());
            }
            _ if idch(c) => {
                let st = self.i;
                while self.i < self.s.len() && idch(self.s[self.i]) {
                    self.i += 1;
                }
                self.tok = Tok::Id(std::str::from_utf8(&self.s[st..self.i]).unwrap());
            }
            _ => {
                self.i += 1;
                self.tok = Tok::P(c);
            }
        }
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.tok.clone();
        self.adv();
        t
    }
    fn is_p(&self, c: u8) -> bool {
        self.tok == Tok::P(c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("expected {:?} got {:?} at {:?}", c as char, self.tok, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(120);
        let b = (self.i + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).to_string()
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(&self.tok, Tok::Id(x) if *x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => panic!("unbalanced parens"),
                _ => (),
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match &self.tok {
            Tok::Id(s) => is_type_word(s),
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    /// Skips attribute words up to the start of a type.
    fn skip_to_type(&mut self) {
        while !self.is_type_start() {
            self.skip_attr();
        }
    }
    fn skip_attr(&mut self) {
        match self.next() {
            Tok::Id(s) => {
                if s == "align" && !self.is_p(b'(') {
                    self.adv();
                } else if self.is_p(b'(') {
                    self.skip_parens();
                }
            }
            Tok::QStr(_) => {
                if self.eat_p(b'=') {
                    self.adv();
                }
            }
            Tok::Attr | Tok::Num(_) | Tok::P(b'=') => (),
            t => panic!("unexpected attr token {:?} at {}", t, self.ctx()),
        }
    }
}

fn is_type_word(s: &str) -> bool {
    matches!(s, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token")
        || (s.len() > 1 && s.as_bytes()[0] == b'i' && s.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
}

fn parse_i128(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap()).wrapping_neg()
    } else if let Some(r) = s.strip_prefix("u0x") {
        u128::from_str_radix(r, 16).unwrap()
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s))
    }
}

pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

impl Module {
    pub fn fn_addr(&self, i: u32) -> u64 {
        (1 + self.globals.len() as u64 + i as u64) << 32
    }
    pub fn glob_addr(&self, i: u32) -> u64 {
        (1 + i as u64) << 32
    }
    pub fn first_free_obj(&self) -> u64 {
        1 + self.globals.len() as u64 + self.funcs.len() as u64
    }
    pub fn func_of_addr(&self, a: u64) -> Option<u32> {
        if a & 0xffff_ffff != 0 {
            return None;
        }
        let id = a >> 32;
        let lo = 1 + self.globals.len() as u64;
        if id >= lo && id < lo + self.funcs.len() as u64 {
            Some((id - lo) as u32)
        } else {
            None
        }
    }

    pub fn load(text: &'static str) -> Module {
        let mut m = Module { text, types: HashMap::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), aliases: HashMap::new() };
        // split into top-level lines
        let b = text.as_bytes();
        let mut pos = 0;
        let mut tydefs: Vec<(String, &str)> = vec![];
        while pos < b.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..e];
            let mut next = e + 1;
            if line.starts_with('%') {
                if let Some(k) = line.find(" = type ") {
                    let nm = line[1..k].trim_matches('"').to_string();
                    tydefs.push((nm, &line[k + 8..]));
                }
            } else if line.starts_with('@') {
                m.parse_global(pos, e);
            } else if line.starts_with("declare") {
                m.parse_header(line, None);
            } else if line.starts_with("define") {
                let fe = text[e..].find("\n}").map(|x| e + x).unwrap();
                m.parse_header(line, Some((e + 1, fe)));
                next = fe + 3;
            }
            pos = next;
        }
        for (n, t) in tydefs {
            let mut lx = Lex::new(t);
            let ty = m.parse_ty(&mut lx);
            m.types.insert(n, ty);
        }
        // initialisers (addresses of everything are known only now)
        for i in 0..m.globals.len() {
            if let Some((a, e)) = m.globals[i].init_src {
                let mut lx = Lex::new(&text[a..e]);
                let ty = m.parse_ty(&mut lx);
                let c = m.parse_const(&mut lx, &ty);
                m.globals[i].init = Some((ty, c));
            }
        }
        m
    }

    fn parse_global(&mut self, pos: usize, e: usize) {
        let line = &self.text[pos..e];
        let mut lx = Lex::new(line);
        let name = match lx.next() {
            Tok::Global(n) => n,
            t => panic!("global {:?}", t),
        };
        lx.exp(b'=');
        let mut external = false;
        let constant;
        loop {
            match lx.next() {
                Tok::Id("global") => {
                    constant = false;
                    break;
                }
                Tok::Id("constant") => {
                    constant = true;
                    break;
                }
                Tok::Id("alias") | Tok::Id("ifunc") => {
                    // @a = alias TY, ptr @b
                    loop {
                        match lx.next() {
                            Tok::Global(t) => {
                                self.aliases.insert(name, t);
                                return;
                            }
                            Tok::End => panic!("alias"),
                            _ => (),
                        }
                    }
                }
                Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                Tok::P(b'(') => {
                    while lx.next() != Tok::P(b')') {}
                }
                Tok::Id(_) | Tok::Num(_) => (),
                t => panic!("global {:?} in {}", t, line),
            }
        }
        // position of the type: recover the byte offset of current token start
        // re-find by scanning: the lexer has already lexed one token ahead
        let key = if constant { " constant " } else { " global " };
        let off = line.find(key).unwrap() + key.len();
        let mut l2 = Lex::new(&line[off..]);
        let ty = self.parse_ty(&mut l2);
        let size = ty.size();
        let idx = self.globals.len() as u32;
        self.gidx.insert(name.clone(), idx);
        self.globals.push(Global { name, size, constant, init: None, ty, init_src: if external { None } else { Some((pos + off, e)) }, external });
    }

    fn parse_header(&mut self, line: &str, body: Option<(usize, usize)>) {
        let mut lx = Lex::new(line);
        lx.adv();
        let mut weak = false;
        while !lx.is_type_start() {
            if lx.is_id("extern_weak") {
                weak = true;
            }
            lx.skip_attr();
        }
        let ret = self.parse_ty(&mut lx);
        let name = match lx.next() {
            Tok::Global(n) => n,
            t => panic!("fn name {:?} in {}", t, line),
        };
        lx.exp(b'(');
        let mut params = vec![];
        let mut un = 0;
        while !lx.eat_p(b')') {
            if lx.tok == Tok::Dots {
                lx.adv();
                continue;
            }
            let ty = self.parse_ty(&mut lx);
            loop {
                match &lx.tok {
                    Tok::Local(_) => break,
                    Tok::P(b',') | Tok::P(b')') => break,
                    _ => lx.skip_attr(),
                }
            }
            let nm = if let Tok::Local(n) = &lx.tok {
                let n = n.clone();
                lx.adv();
                n
            } else {
                let n = format!("{}", un);
                un += 1;
                n
            };
            params.push((nm, ty));
            lx.eat_p(b',');
        }
        let idx = self.funcs.len() as u32;
        self.fidx.insert(name.clone(), idx);
        self.funcs.push(FuncDecl { name, params, ret, body, weak });
    }

    fn parse_ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            Tok::Id(s) => match s {
                "void" => Ty::Void,
                "ptr" => {
                    if lx.is_id("addrspace") {
                        lx.adv();
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                s if is_type_word(s) => Ty::Int(s[1..].parse().unwrap()),
                s => panic!("type {} at {}", s, lx.ctx()),
            },
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            Tok::P(b'[') => {
                let n: u64 = match lx.next() {
                    Tok::Num(s) => s.parse().unwrap(),
                    t => panic!("array len {:?}", t),
                };
                assert!(lx.eat_id("x"));
                let t = self.parse_ty(lx);
                lx.exp(b']');
                Ty::Array(Rc::new(t), n)
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !lx.eat_p(b'}') {
                    v.push(self.parse_ty(lx));
                    lx.eat_p(b',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P(b'<') => {
                if lx.eat_p(b'{') {
                    let mut v = vec![];
                    while !lx.eat_p(b'}') {
                        v.push(self.parse_ty(lx));
                        lx.eat_p(b',');
                    }
                    lx.exp(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n: u64 = match lx.next() {
                        Tok::Num(s) => s.parse().unwrap(),
                        t => panic!("vec len {:?}", t),
                    };
                    assert!(lx.eat_id("x"));
                    let t = self.parse_ty(lx);
                    lx.exp(b'>');
                    Ty::Vec(Rc::new(t), n)
                }
            }
            t => panic!("type tok {:?} at {}", t, lx.ctx()),
        };
        t
    }

    fn zero(&self, ty: &Ty) -> Const {
        match ty {
            Ty::Struct(f, _) => Const::Agg(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Array(t, n) | Ty::Vec(t, n) => {
                let z = self.zero(t);
                Const::Agg(Rc::new((0..*n).map(|_| z.clone()).collect()))
            }
            Ty::Int(w) if *w > 64 => Const::Wide(0),
            _ => Const::Int(0),
        }
    }

    pub fn sym_addr(&self, n: &str) -> u64 {
        let mut n = n;
        let mut k = 0;
        while let Some(t) = self.aliases.get(n) {
            n = t;
            k += 1;
            assert!(k < 10);
        }
        if let Some(i) = self.gidx.get(n) {
            return self.glob_addr(*i);
        }
        if let Some(i) = self.fidx.get(n) {
            let f = &self.funcs[*i as usize];
            if f.weak && f.body.is_none() && f.name != "__cxa_thread_atexit_impl" {
                return 0;
            }
            return self.fn_addr(*i);
        }
        panic!("unknown symbol @{}", n)
    }

    fn mkint(v: u128, w: u32) -> Const {
        let v = v & mask128(w);
        if w > 64 {
            Const::Wide(v)
        } else {
            Const::Int(v as u64)
        }
    }

    fn as_u128(c: &Const) -> u128 {
        match c {
            Const::Int(v) => *v as u128,
            Const::Wide(v) => *v,
            _ => panic!("agg"),
        }
    }

    /// A decimal floating point literal, or LLVM's names for the special values.
    fn float(s: &str) -> f64 {
        let (neg, m) = match s.as_bytes()[0] {
            b'-' => (true, &s[1..]),
            b'+' => (false, &s[1..]),
            _ => (false, s),
        };
        let v = match m {
            "inf" => f64::INFINITY,
            "qnan" => f64::from_bits(0x7ff8000000000000),
            _ => match m.parse::<f64>() {
                Ok(v) => v,
                Err(_) => panic!("floating point literal {}", s),
            },
        };
        if neg {
            -v
        } else {
            v
        }
    }

    fn parse_const(&self, lx: &mut Lex, ty: &Ty) -> Const {
        match lx.next() {
            Tok::Num(s) => match ty {
                Ty::F64 => {
                    if let Some(h) = s.strip_prefix("0x") {
                        Const::Int(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        Const::Int(Self::float(s).to_bits())
                    }
                }
                Ty::F32 => {
                    if let Some(h) = s.strip_prefix("0x") {
                        Const::Int((f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64)
                    } else {
                        Const::Int((Self::float(s) as f32).to_bits() as u64)
                    }
                }
                _ => Self::mkint(parse_i128(s), ty.bits()),
            },
            Tok::Global(n) => Const::Int(self.sym_addr(&n)),
            Tok::CStr(b) => Const::Agg(Rc::new(b.into_iter().map(|x| Const::Int(x as u64)).collect())),
            // the bits of a floating point number of the type itself
            Tok::Id(s) if s.starts_with("f0x") => Const::Int(u64::from_str_radix(&s[3..], 16).unwrap()),
            Tok::Id(s) => match s {
                "true" => Const::Int(1),
                "false" | "null" | "none" => {
                    if ty.bits() > 64 {
                        Const::Wide(0)
                    } else {
                        Const::Int(0)
                    }
                }
                "zeroinitializer" | "undef" | "poison" => self.zero(ty),
                "splat" => {
                    lx.exp(b'(');
                    let et = self.parse_ty(lx);
                    let c = self.parse_const(lx, &et);
                    lx.exp(b')');
                    Const::Agg(Rc::new((0..ty.nfields()).map(|_| c.clone()).collect()))
                }
                "getelementptr" => {
                    while !lx.is_p(b'(') {
                        if lx.is_id("inrange") {
                            lx.adv();
                            lx.skip_parens();
                        } else {
                            lx.adv();
                        }
                    }
                    lx.exp(b'(');
                    let et = self.parse_ty(lx);
                    lx.exp(b',');
                    let bt = self.parse_ty(lx);
                    let mut a = Self::as_u128(&self.parse_const(lx, &bt)) as u64;
                    let mut cur = et;
                    let mut first = true;
                    while lx.eat_p(b',') {
                        let it = self.parse_ty(lx);
                        let iv = Self::as_u128(&self.parse_const(lx, &it)) as u64;
                        let iv = sext64(iv, it.bits());
                        if first {
                            a = a.wrapping_add((cur.size() as i64).wrapping_mul(iv) as u64);
                            first = false;
                        } else {
                            a = a.wrapping_add(cur.field_offset(iv as usize));
                            cur = cur.field(iv as usize).clone();
                        }
                    }
                    lx.exp(b')');
                    Const::Int(a)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    lx.exp(b'(');
                    let ft = self.parse_ty(lx);
                    let c = self.parse_const(lx, &ft);
                    assert!(lx.eat_id("to"));
                    let tt = self.parse_ty(lx);
                    lx.exp(b')');
                    Self::mkint(Self::as_u128(&c), tt.bits())
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                    while lx.is_id("nuw") || lx.is_id("nsw") {
                        lx.adv();
                    }
                    lx.exp(b'(');
                    let t1 = self.parse_ty(lx);
                    let a = Self::as_u128(&self.parse_const(lx, &t1));
                    lx.exp(b',');
                    let t2 = self.parse_ty(lx);
                    let b = Self::as_u128(&self.parse_const(lx, &t2));
                    lx.exp(b')');
                    let r = match s {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "mul" => a.wrapping_mul(b),
                        "shl" => a << b,
                        _ => a >> b,
                    };
                    Self::mkint(r, t1.bits())
                }
                s => panic!("const {} at {}", s, lx.ctx()),
            },
            Tok::P(b'{') => {
                let mut v = vec![];
                while !lx.eat_p(b'}') {
                    let t = self.parse_ty(lx);
                    v.push(self.parse_const(lx, &t));
                    lx.eat_p(b',');
                }
                Const::Agg(Rc::new(v))
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                while !lx.eat_p(b']') {
                    let t = self.parse_ty(lx);
                    v.push(self.parse_const(lx, &t));
                    lx.eat_p(b',');
                }
                Const::Agg(Rc::new(v))
            }
            Tok::P(b'<') => {
                let packed = lx.eat_p(b'{');
                let mut v = vec![];
                let close = if packed { b'}' } else { b'>' };
                while !lx.eat_p(close) {
                    let t = self.parse_ty(lx);
                    v.push(self.parse_const(lx, &t));
                    lx.eat_p(b',');
                }
                if packed {
                    lx.exp(b'>');
                }
                Const::Agg(Rc::new(v))
            }
            t => panic!("const tok {:?} at {}", t, lx.ctx()),
        }
    }

    pub fn parse_body(&self, fi: u32) -> Body {
        let f = &self.funcs[fi as usize];
        let (a, e) = f.body.unwrap();
        let text = &self.text[a..e];
        let mut p = BodyParser {
            m: self,
            regs: HashMap::new(),
            nregs: 0,
            consts: vec![],
            labels: HashMap::new(),
            phis: vec![],
            code: vec![],
            has_alloca: false,
        };
        let mut unnamed = 0usize;
        for (n, _) in &f.params {
            let r = p.nregs;
            p.nregs += 1;
            if n.as_bytes()[0].is_ascii_digit() && n.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            p.regs.insert(n.clone(), r);
        }
        // logical lines
        let mut blocks: Vec<Vec<String>> = vec![];
        let mut cur: Vec<String> = vec![];
        let mut started = false;
        let mut in_switch = false;
        for line in text.split('\n') {
            if line.is_empty() {
                continue;
            }
            let b = line.as_bytes();
            if b[0] != b' ' && b[0] != b';' {
                // label
                let lab = if b[0] == b'"' {
                    let q = line[1..].find('"').unwrap() + 1;
                    String::from_utf8_lossy(&unquote(&b[1..q])).to_string()
                } else {
                    line[..line.find(':').unwrap()].to_string()
                };
                if started {
                    blocks.push(std::mem::take(&mut cur));
                }
                started = true;
                p.labels.insert(lab, blocks.len() as u32);
                continue;
            }
            if b[0] == b';' {
                continue;
            }
            if !started {
                started = true;
                p.labels.insert(format!("{}", unnamed), 0);
            }
            if in_switch {
                let l = cur.last_mut().unwrap();
                l.push(' ');
                l.push_str(line.trim());
                if line.trim_start().starts_with(']') {
                    in_switch = false;
                }
                continue;
            }
            if line.starts_with("    ") && !cur.is_empty() {
                let l = cur.last_mut().unwrap();
                l.push(' ');
                l.push_str(line.trim());
                continue;
            }
            let t = line.trim();
            if t.starts_with("switch ") && !t.contains(']') {
                in_switch = true;
            } else if t.starts_with("switch ") && t.ends_with('[') {
                in_switch = true;
            }
            cur.push(t.to_string());
        }
        blocks.push(cur);
        let nb = blocks.len();
        p.phis = (0..nb).map(|_| vec![]).collect();
        let mut block_start = vec![0u32; nb];
        for (bi, lines) in blocks.iter().enumerate() {
            block_start[bi] = p.code.len() as u32;
            for l in lines {
                p.inst(l, bi);
            }
        }
        Body { code: p.code, block_start, phis: p.phis, nregs: p.nregs, consts: p.consts, has_alloca: p.has_alloca }
    }
}

pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

struct BodyParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    consts: Vec<(Const, Ty)>,
    labels: HashMap<String, u32>,
    phis: Vec<Vec<PhiSet>>,
    code: Vec<Inst>,
    has_alloca: bool,
}

impl<'m> BodyParser<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn operand(&mut self, lx: &mut Lex, ty: &Ty) -> Op {
        if let Tok::Local(n) = &lx.tok {
            let n = n.clone();
            lx.adv();
            return Op::R(self.reg(&n));
        }
        if *ty == Ty::Other {
            // metadata operands etc.
            while !lx.is_p(b',') && !lx.is_p(b')') && lx.tok != Tok::End {
                lx.adv();
            }
            return Op::C(0);
        }
        match self.m.parse_const(lx, ty) {
            Const::Int(v) => Op::C(v),
            c => {
                self.consts.push((c, ty.clone()));
                Op::K(self.consts.len() as u32 - 1)
            }
        }
    }
    fn tyop(&mut self, lx: &mut Lex) -> (Ty, Op) {
        let t = self.m.parse_ty(lx);
        let o = self.operand(lx, &t);
        (t, o)
    }
    fn label(&mut self, lx: &mut Lex) -> u32 {
        assert!(lx.eat_id("label"));
        match lx.next() {
            Tok::Local(n) => *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n)),
            t => panic!("label {:?}", t),
        }
    }
    fn skip_flags(&mut self, lx: &mut Lex) {
        while let Tok::Id(s) = &lx.tok {
            match *s {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => lx.adv(),
                "inrange" => {
                    lx.adv();
                    lx.skip_parens();
                }
                _ => break,
            }
        }
    }

    fn inst(&mut self, line: &str, bi: usize) {
        let mut lx = Lex::new(line);
        let lx = &mut lx;
        let mut dst: Option<u32> = None;
        if let Tok::Local(n) = &lx.tok {
            let n = n.clone();
            lx.adv();
            lx.exp(b'=');
            dst = Some(self.reg(&n));
        }
        let opc = match lx.next() {
            Tok::Id(s) => s,
            t => panic!("opcode {:?} in {}", t, line),
        };
        let d = dst.unwrap_or(u32::MAX);
        let bin = match opc {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(op) = bin {
            self.skip_flags(lx);
            let t = self.m.parse_ty(lx);
            let a = self.operand(lx, &t);
            lx.exp(b',');
            let b = self.operand(lx, &t);
            if let Ty::Vec(et, _) = &t {
                self.code.push(Inst::VBin { op, ew: et.bits(), dst: d, a, b });
            } else {
                self.code.push(Inst::Bin { op, w: t.bits(), dst: d, a, b });
            }
            return;
        }
        let i = match opc {
            "icmp" => {
                self.skip_flags(lx);
                let p = match lx.next() {
                    Tok::Id(s) => match s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred {}", s),
                    },
                    t => panic!("pred {:?}", t),
                };
                let t = self.m.parse_ty(lx);
                let a = self.operand(lx, &t);
                lx.exp(b',');
                let b = self.operand(lx, &t);
                if let Ty::Vec(et, _) = &t {
                    Inst::VIcmp { p, ew: et.bits(), dst: d, a, b }
                } else {
                    Inst::Icmp { p, w: t.bits(), dst: d, a, b }
                }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_flags(lx);
                let (from, a) = self.tyop(lx);
                assert!(lx.eat_id("to"), "{}", line);
                let to = self.m.parse_ty(lx);
                let k = match opc {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    "bitcast" | "addrspacecast" => CastK::Bitcast,
                    "fptosi" => CastK::FpToSi,
                    "fptoui" => CastK::FpToUi,
                    "sitofp" => CastK::SiToFp,
                    "uitofp" => CastK::UiToFp,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    _ => {
                        if from.bits() < to.bits() {
                            CastK::ZExt
                        } else if from.bits() > to.bits() {
                            CastK::Trunc
                        } else {
                            CastK::Bitcast
                        }
                    }
                };
                Inst::Cast { k, from, to, dst: d, a }
            }
            "select" => {
                self.skip_flags(lx);
                let (_, c) = self.tyop(lx);
                lx.exp(b',');
                let (ty, a) = self.tyop(lx);
                lx.exp(b',');
                let (_, b) = self.tyop(lx);
                Inst::Select { dst: d, c, a, b, ty }
            }
            "load" => {
                self.skip_flags(lx);
                let ty = self.m.parse_ty(lx);
                lx.exp(b',');
                let (_, p) = self.tyop(lx);
                Inst::Load { dst: d, ty, p }
            }
            "store" => {
                self.skip_flags(lx);
                let (ty, v) = self.tyop(lx);
                lx.exp(b',');
                let (_, p) = self.tyop(lx);
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                self.skip_flags(lx);
                let et = self.m.parse_ty(lx);
                lx.exp(b',');
                let (_, base) = self.tyop(lx);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while lx.eat_p(b',') {
                    if lx.tok == Tok::Meta {
                        break;
                    }
                    let (it, io) = self.tyop(lx);
                    if first {
                        let sz = cur.size();
                        match io {
                            Op::C(v) => off = off.wrapping_add((sz as i64).wrapping_mul(sext64(v, it.bits()))),
                            _ => terms.push((io, it.bits(), sz)),
                        }
                        first = false;
                    } else {
                        match io {
                            Op::C(v) => {
                                off = off.wrapping_add(cur.field_offset(v as usize) as i64);
                                cur = cur.field(if matches!(cur, Ty::Struct(..)) { v as usize } else { 0 }).clone();
                            }
                            _ => {
                                let e = cur.field(0).clone();
                                terms.push((io, it.bits(), e.size()));
                                cur = e;
                            }
                        }
                    }
                }
                Inst::Gep { dst: d, base, off, terms: terms.into_boxed_slice() }
            }
            "alloca" => {
                lx.eat_id("inalloca");
                let ty = self.m.parse_ty(lx);
                self.has_alloca = true;
                Inst::Alloca { dst: d, size: ty.size() }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if opc == "tail" || opc == "musttail" || opc == "notail" {
                    lx.adv();
                }
                self.skip_flags(lx);
                lx.skip_to_type();
                let ret = self.m.parse_ty(lx);
                if lx.is_p(b'(') {
                    lx.skip_parens();
                }
                let callee = match &lx.tok {
                    Tok::Global(n) => {
                        let n = n.clone();
                        lx.adv();
                        let mut k = n.as_str();
                        while let Some(t) = self.m.aliases.get(k) {
                            k = t;
                        }
                        Callee::Func(*self.m.fidx.get(k).unwrap_or_else(|| panic!("callee {}", n)))
                    }
                    Tok::Id("asm") => {
                        let s: Rc<str> = line.into();
                        while !lx.is_p(b'(') {
                            lx.adv();
                        }
                        Callee::Asm(s)
                    }
                    _ => {
                        let o = self.operand(lx, &Ty::Ptr);
                        Callee::Ind(o)
                    }
                };
                lx.exp(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                while !lx.eat_p(b')') {
                    let t = self.m.parse_ty(lx);
                    if t == Ty::Other {
                        // metadata argument
                        let mut dd = 0;
                        loop {
                            match &lx.tok {
                                Tok::P(b'(') | Tok::P(b'{') => dd += 1,
                                Tok::P(b')') if dd == 0 => break,
                                Tok::P(b')') | Tok::P(b'}') => dd -= 1,
                                Tok::P(b',') if dd == 0 => break,
                                Tok::End => break,
                                _ => (),
                            }
                            lx.adv();
                        }
                        args.push(Op::C(0));
                        tys.push(Ty::Other);
                        lx.eat_p(b',');
                        continue;
                    }
                    loop {
                        match &lx.tok {
                            Tok::Id(s) if !matches!(*s, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr") => lx.skip_attr(),
                            _ => break,
                        }
                    }
                    let o = self.operand(lx, &t);
                    args.push(o);
                    tys.push(t);
                    lx.eat_p(b',');
                }
                let (mut cont, mut unwind) = (None, None);
                if opc == "invoke" {
                    while !lx.is_id("to") {
                        if lx.tok == Tok::End {
                            panic!("invoke {}", line)
                        }
                        lx.adv();
                    }
                    lx.adv();
                    cont = Some(self.label(lx));
                    if lx.is_id("unwind") {
                        lx.adv();
                        unwind = Some(self.label(lx));
                    }
                }
                Inst::Call { dst: if ret == Ty::Void { None } else { dst }, ret, callee, args: args.into_boxed_slice(), argtys: tys.into(), cont, unwind }
            }
            "br" => {
                if lx.is_id("label") {
                    Inst::Br { to: self.label(lx) }
                } else {
                    let (_, c) = self.tyop(lx);
                    lx.exp(b',');
                    let t = self.label(lx);
                    lx.exp(b',');
                    let f = self.label(lx);
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tyop(lx);
                lx.exp(b',');
                let default = self.label(lx);
                lx.exp(b'[');
                let mut cases = vec![];
                while !lx.eat_p(b']') {
                    let t = self.m.parse_ty(lx);
                    let c = self.m.parse_const(lx, &t);
                    lx.exp(b',');
                    let l = self.label(lx);
                    cases.push((Module::as_u128(&c) as u64, l));
                }
                Inst::Switch { w: ty.bits(), v, default, cases: Rc::new(cases) }
            }
            "ret" => {
                let t = self.m.parse_ty(lx);
                if t == Ty::Void {
                    Inst::Ret { v: None }
                } else {
                    let v = self.operand(lx, &t);
                    Inst::Ret { v: Some(v) }
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                let (_, v) = self.tyop(lx);
                Inst::Resume { v }
            }
            "landingpad" => Inst::LandingPad { dst, catch: line.contains(" catch ptr null") },
            "fence" => Inst::Nop,
            "extractvalue" => {
                let (_, a) = self.tyop(lx);
                let mut path = vec![];
                while lx.eat_p(b',') {
                    match lx.next() {
                        Tok::Num(s) => path.push(s.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Extract { dst: d, a, path: path.into_boxed_slice() }
            }
            "insertvalue" => {
                let (_, a) = self.tyop(lx);
                lx.exp(b',');
                let (_, v) = self.tyop(lx);
                let mut path = vec![];
                while lx.eat_p(b',') {
                    match lx.next() {
                        Tok::Num(s) => path.push(s.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Insert { dst: d, a, v, path: path.into_boxed_slice() }
            }
            "extractelement" => {
                let (_, a) = self.tyop(lx);
                lx.exp(b',');
                let (_, i) = self.tyop(lx);
                Inst::ExtractElt { dst: d, a, i }
            }
            "insertelement" => {
                let (t, a) = self.tyop(lx);
                lx.exp(b',');
                let (_, v) = self.tyop(lx);
                lx.exp(b',');
                let (_, i) = self.tyop(lx);
                Inst::InsertElt { dst: d, a, v, i, n: t.nfields() as u64 }
            }
            "shufflevector" => {
                let (t, a) = self.tyop(lx);
                lx.exp(b',');
                let (_, b) = self.tyop(lx);
                lx.exp(b',');
                let mt = self.m.parse_ty(lx);
                let mc = self.m.parse_const(lx, &mt);
                let mask: Vec<i32> = match mc {
                    Const::Agg(v) => v.iter().map(|c| Module::as_u128(c) as i32).collect(),
                    _ => panic!(),
                };
                Inst::Shuffle { dst: d, a, b, mask: mask.into_boxed_slice(), n: t.nfields() as u64 }
            }
            "fcmp" => {
                self.skip_flags(lx);
                let p = match lx.next() {
                    Tok::Id(s) => match s {
                        // bit0: eq, bit1: gt, bit2: lt, bit3: unordered
                        "false" => 0,
                        "oeq" => 1,
                        "ogt" => 2,
                        "oge" => 3,
                        "olt" => 4,
                        "ole" => 5,
                        "one" => 6,
                        "ord" => 7,
                        "uno" => 8,
                        "ueq" => 9,
                        "ugt" => 10,
                        "uge" => 11,
                        "ult" => 12,
                        "ule" => 13,
                        "une" => 14,
                        "true" => 15,
                        _ => panic!("fcmp {}", s),
                    },
                    t => panic!("fcmp {:?}", t),
                };
                let t = self.m.parse_ty(lx);
                let a = self.operand(lx, &t);
                lx.exp(b',');
                let b = self.operand(lx, &t);
                if t.is_agg() {
                    Inst::Unsupported(line.into())
                } else {
                    Inst::Fcmp { p, dst: d, a, b, dbl: t == Ty::F64 }
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_flags(lx);
                let t = self.m.parse_ty(lx);
                let a = self.operand(lx, &t);
                lx.exp(b',');
                let b = self.operand(lx, &t);
                let k = match opc {
                    "fadd" => FBinK::Add,
                    "fsub" => FBinK::Sub,
                    "fmul" => FBinK::Mul,
                    "fdiv" => FBinK::Div,
                    _ => FBinK::Rem,
                };
                if t.is_agg() {
                    Inst::Unsupported(line.into())
                } else {
                    Inst::FBin { k, dst: d, a, b, dbl: t == Ty::F64 }
                }
            }
            "fneg" => {
                self.skip_flags(lx);
                let (t, a) = self.tyop(lx);
                Inst::FNeg { dst: d, a, dbl: t == Ty::F64 }
            }
            "freeze" => {
                let (_, a) = self.tyop(lx);
                Inst::Mov { dst: d, a }
            }
            "phi" => {
                self.skip_flags(lx);
                let t = self.m.parse_ty(lx);
                loop {
                    lx.exp(b'[');
                    let v = self.operand(lx, &t);
                    lx.exp(b',');
                    let l = match lx.next() {
                        Tok::Local(n) => *self.labels.get(&n).unwrap_or_else(|| panic!("phi label {} in {}", n, line)),
                        t => panic!("phi {:?}", t),
                    };
                    lx.exp(b']');
                    let set = &mut self.phis[bi];
                    match set.iter_mut().find(|s| s.pred == l) {
                        Some(s) => {
                            if !s.moves.iter().any(|(r, _)| *r == d) {
                                s.moves.push((d, v))
                            }
                        }
                        None => set.push(PhiSet { pred: l, moves: vec![(d, v)] }),
                    }
                    if !lx.eat_p(b',') || lx.tok == Tok::Meta {
                        break;
                    }
                }
                return;
            }
            "atomicrmw" => {
                self.skip_flags(lx);
                let op: Rc<str> = match lx.next() {
                    Tok::Id(s) => s.into(),
                    t => panic!("{:?}", t),
                };
                let (_, p) = self.tyop(lx);
                lx.exp(b',');
                let (t, v) = self.tyop(lx);
                Inst::Rmw { op, w: t.bits(), dst: d, p, v }
            }
            "cmpxchg" => {
                self.skip_flags(lx);
                let (_, p) = self.tyop(lx);
                lx.exp(b',');
                let (t, c) = self.tyop(lx);
                lx.exp(b',');
                let (_, n) = self.tyop(lx);
                Inst::CmpXchg { w: t.bits(), dst: d, p, c, n }
            }
            _ => Inst::Unsupported(line.into()),
        };
        self.code.push(i);
    }
}
