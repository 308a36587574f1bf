//! Reference semantics of the template language, over syntax trees built by the harnesses.
use crate::common::*;

/// A JSON value of the harness.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn js(s: &str) -> J {
    J::Str(s.to_string())
}
pub fn obj(f: &[(&str, J)]) -> J {
    J::Obj(f.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
impl J {
    pub fn text(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&n.to_string()),
            J::Str(s) => {
                o.push('"');
                o.push_str(s);
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.text(o);
                }
                o.push(']');
            }
            J::Obj(f) => {
                o.push('{');
                for (i, (k, x)) in f.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\": ");
                    x.text(o);
                }
                o.push('}');
            }
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::with_capacity(64);
        self.text(&mut o);
        o
    }
    pub fn value(&self) -> humphrey_json::Value {
        use humphrey_json::Value as V;
        match self {
            J::Null => V::Null,
            J::Bool(b) => V::Bool(*b),
            J::Num(n) => V::Number(*n),
            J::Str(s) => V::String(s.clone()),
            J::Arr(a) => V::Array(a.iter().map(|x| x.value()).collect()),
            J::Obj(f) => V::Object(f.iter().map(|(k, x)| (k.clone(), x.value())).collect()),
        }
    }
    /// One step of a path.
    pub fn step(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(f) => {
                for (n, v) in f {
                    if n.as_bytes() == k.as_bytes() {
                        return Some(v);
                    }
                }
                None
            }
            J::Arr(a) => {
                let b = k.as_bytes();
                if b.is_empty() || b.len() > 6 {
                    return None;
                }
                let mut i = 0usize;
                for c in b {
                    if !c.is_ascii_digit() {
                        return None;
                    }
                    i = i * 10 + (*c - b'0') as usize;
                }
                a.get(i)
            }
            _ => None,
        }
    }
}
pub fn split_dots(p: &str) -> Vec<String> {
    let mut o = vec![String::new()];
    for c in p.bytes() {
        if c == b'.' {
            o.push(String::new());
        } else {
            o.last_mut().unwrap().push(c as char);
        }
    }
    o
}

#[derive(Clone, Debug)]
pub enum A {
    Var(String),
    Str(String),
    Int(i32),
}
#[derive(Clone, Debug)]
pub enum Src {
    Json(String),
    Dir(String),
    Var(String),
}
#[derive(Clone, Debug)]
pub struct Lp {
    pub var: String,
    pub src: Src,
    pub skip: Option<u32>,
    pub limit: Option<u32>,
    pub sort: Option<String>,
    pub order: Option<bool>,
    pub body: Vec<T>,
}
#[derive(Clone, Debug)]
pub enum T {
    Raw(String),
    Var(String),
    If(usize, A, A, Vec<T>, Option<Vec<T>>),
    Def(String, Vec<T>, Option<Vec<T>>),
    For(Lp),
    Sec(String, Vec<T>),
    Ins(String),
    Imp(String, String),
}
pub const OPS: [&str; 6] = ["ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"];

fn arg(a: &A, o: &mut String) {
    match a {
        A::Var(v) => {
            o.push('$');
            o.push_str(v);
        }
        A::Str(s) => {
            o.push('"');
            o.push_str(s);
            o.push('"');
        }
        A::Int(i) => o.push_str(&i.to_string()),
    }
}
pub fn src_text(ts: &[T]) -> String {
    let mut o = String::with_capacity(256);
    write(ts, &mut o);
    o
}
pub fn write(ts: &[T], o: &mut String) {
    for t in ts {
        match t {
            T::Raw(s) => o.push_str(s),
            T::Var(v) => {
                o.push_str("{{ $");
                o.push_str(v);
                o.push_str(" }}");
            }
            T::If(op, a, b, x, y) => {
                o.push_str("{{ ");
                o.push_str(OPS[*op]);
                o.push('(');
                arg(a, o);
                o.push_str(", ");
                arg(b, o);
                o.push_str(") }}");
                write(x, o);
                if let Some(y) = y {
                    o.push_str("{{ else() }}");
                    write(y, o);
                }
                o.push_str("{{ end(");
                o.push_str(OPS[*op]);
                o.push_str(") }}");
            }
            T::Def(v, x, y) => {
                o.push_str("{{ ifdefined($");
                o.push_str(v);
                o.push_str(") }}");
                write(x, o);
                if let Some(y) = y {
                    o.push_str("{{ else() }}");
                    write(y, o);
                }
                o.push_str("{{ end(ifdefined) }}");
            }
            T::For(l) => {
                o.push_str("{{ for($");
                o.push_str(&l.var);
                o.push_str(", ");
                match &l.src {
                    Src::Json(f) | Src::Dir(f) => {
                        o.push('"');
                        o.push_str(f);
                        o.push('"');
                    }
                    Src::Var(v) => {
                        o.push('$');
                        o.push_str(v);
                    }
                }
                if let Some(n) = l.skip {
                    o.push_str(", skip=");
                    o.push_str(&n.to_string());
                }
                if let Some(n) = l.limit {
                    o.push_str(", limit=");
                    o.push_str(&n.to_string());
                }
                if let Some(s) = &l.sort {
                    o.push_str(", sortby=$");
                    o.push_str(s);
                }
                if let Some(d) = l.order {
                    o.push_str(if d { ", order=\"desc\"" } else { ", order=\"asc\"" });
                }
                o.push_str(") }}");
                write(&l.body, o);
                o.push_str("{{ end(for) }}");
            }
            T::Sec(l, x) => {
                o.push_str("{{ begin(\"");
                o.push_str(l);
                o.push_str("\") }}");
                write(x, o);
                o.push_str("{{ end(\"");
                o.push_str(l);
                o.push_str("\") }}");
            }
            T::Ins(l) => {
                o.push_str("{{ insert(\"");
                o.push_str(l);
                o.push_str("\") }}");
            }
            T::Imp(v, f) => {
                o.push_str("{{ import($");
                o.push_str(v);
                o.push_str(", \"");
                o.push_str(f);
                o.push_str("\") }}");
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Undefined(String),
    Null(String),
    Type(String),
    NotArray,
    NotFound(String),
    Exists(String),
    Section(String),
    /// An import of a file that is no JSON.
    NotJson,
}
pub struct World {
    pub json: Vec<(String, J)>,
    /// Markdown directories: path and pages in listing order.
    pub dirs: Vec<(String, Vec<J>)>,
    /// Files that are no JSON.
    pub other: Vec<String>,
}
impl World {
    pub fn new() -> World {
        World { json: vec![], dirs: vec![], other: vec![] }
    }
}
pub struct Ev<'a> {
    pub w: &'a World,
    /// Innermost last; the first is the base.
    pub frames: Vec<Vec<(String, J)>>,
    pub sections: Vec<(String, Vec<u8>)>,
}
impl<'a> Ev<'a> {
    pub fn new(w: &'a World, base: Vec<(String, J)>) -> Ev<'a> {
        Ev { w, frames: vec![base], sections: vec![] }
    }
    /// None: the name is not defined. Some(None): the path leads nowhere.
    pub fn look(&self, path: &str) -> Option<Option<J>> {
        let parts = split_dots(path);
        for f in self.frames.iter().rev() {
            for (n, v) in f {
                if n.as_bytes() == parts[0].as_bytes() {
                    let mut c = v;
                    for p in &parts[1..] {
                        match c.step(p) {
                            Some(x) => c = x,
                            None => return Some(None),
                        }
                    }
                    return Some(Some(c.clone()));
                }
            }
        }
        None
    }
    fn operand(&self, a: &A) -> Result<J, Bad> {
        match a {
            A::Str(s) => Ok(J::Str(s.clone())),
            A::Int(i) => Ok(J::Num(*i as f64)),
            A::Var(v) => match self.look(v) {
                Some(Some(x @ J::Str(_))) | Some(Some(x @ J::Num(_))) => Ok(x),
                _ => Err(Bad::Undefined(v.clone())),
            },
        }
    }
    pub fn run(&mut self, ts: &[T], o: &mut Vec<u8>) -> Result<(), Bad> {
        for t in ts {
            match t {
                T::Raw(s) => o.extend_from_slice(s.as_bytes()),
                T::Var(v) => match self.look(v) {
                    None => return Err(Bad::Undefined(v.clone())),
                    Some(None) | Some(Some(J::Null)) => return Err(Bad::Null(v.clone())),
                    Some(Some(J::Str(s))) => o.extend_from_slice(s.as_bytes()),
                    Some(Some(_)) => return Err(Bad::Type(v.clone())),
                },
                T::If(op, a, b, x, y) => {
                    let (a, b) = (self.operand(a)?, self.operand(b)?);
                    let c = holds(*op, &a, &b);
                    self.block(c, x, y, o)?;
                }
                T::Def(v, x, y) => {
                    let c = !matches!(self.look(v), None | Some(None) | Some(Some(J::Null)));
                    self.block(c, x, y, o)?;
                }
                T::For(l) => {
                    for item in self.items(l)? {
                        self.frames.push(vec![(l.var.clone(), item)]);
                        self.run(&l.body, o)?;
                        self.frames.pop();
                    }
                }
                T::Sec(l, x) => {
                    self.frames.push(vec![]);
                    let mut p = Vec::new();
                    self.run(x, &mut p)?;
                    self.frames.pop();
                    o.extend_from_slice(&p);
                    self.sections.push((l.clone(), p));
                }
                T::Ins(l) => match self.sections.iter().find(|(n, _)| n == l) {
                    Some((_, s)) => o.extend_from_slice(s),
                    None => return Err(Bad::Section(l.clone())),
                },
                T::Imp(v, f) => {
                    let j = match self.w.json.iter().find(|(n, _)| n == f) {
                        Some((_, j)) => j.clone(),
                        None if self.w.other.contains(f) => return Err(Bad::NotJson),
                        None => return Err(Bad::NotFound(f.clone())),
                    };
                    let fr = self.frames.last_mut().unwrap();
                    if fr.iter().any(|(n, _)| n == v) {
                        return Err(Bad::Exists(v.clone()));
                    }
                    fr.push((v.clone(), j));
                }
            }
        }
        Ok(())
    }
    fn block(&mut self, c: bool, x: &[T], y: &Option<Vec<T>>, o: &mut Vec<u8>) -> Result<(), Bad> {
        self.frames.push(vec![]);
        if c {
            self.run(x, o)?;
        } else if let Some(y) = y {
            self.run(y, o)?;
        }
        self.frames.pop();
        Ok(())
    }
    pub fn items(&self, l: &Lp) -> Result<Vec<J>, Bad> {
        let all = match &l.src {
            Src::Json(f) => match self.w.json.iter().find(|(n, _)| n == f) {
                Some((_, J::Arr(a))) => a.clone(),
                Some(_) => return Err(Bad::NotArray),
                None => return Err(Bad::NotFound(f.clone())),
            },
            Src::Dir(d) => match self.w.dirs.iter().find(|(n, _)| n == d) {
                Some((_, a)) => a.clone(),
                None => return Err(Bad::NotFound(d.clone())),
            },
            Src::Var(v) => match self.look(v) {
                Some(Some(J::Arr(a))) => a,
                _ => return Err(Bad::NotArray),
            },
        };
        let mut ix: Vec<(Vec<u8>, J)> = Vec::new();
        for item in all {
            let mut key = Vec::new();
            if let Some(s) = &l.sort {
                let parts = split_dots(s);
                let mut c = Some(&item);
                for p in &parts[1..] {
                    c = c.and_then(|c| c.step(p));
                }
                if let Some(J::Str(s)) = c {
                    key = s.as_bytes().to_vec();
                }
                // insertion sort, stable
                let mut at = ix.len();
                while at > 0 && less(&key, &ix[at - 1].0) {
                    at -= 1;
                }
                ix.insert(at, (key, item));
            } else {
                ix.push((key, item));
            }
        }
        let mut v: Vec<J> = ix.into_iter().map(|(_, j)| j).collect();
        if l.order == Some(true) {
            v.reverse();
        }
        if let Some(s) = l.skip {
            for _ in 0..s {
                if v.is_empty() {
                    break;
                }
                v.remove(0);
            }
        }
        if let Some(n) = l.limit {
            v.truncate(n as usize);
        }
        Ok(v)
    }
}
fn less(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    loop {
        if i >= b.len() {
            return false;
        }
        if i >= a.len() {
            return true;
        }
        if a[i] != b[i] {
            return a[i] < b[i];
        }
        i += 1;
    }
}
pub fn holds(op: usize, a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Num(x), J::Num(y)) => match op {
            0 => x == y,
            1 => x != y,
            2 => x > y,
            3 => x >= y,
            4 => x < y,
            _ => x <= y,
        },
        (J::Str(x), J::Str(y)) => {
            let same = x.len() == y.len() && x.as_bytes() == y.as_bytes();
            match op {
                0 => same,
                1 => !same,
                _ => false,
            }
        }
        // a number and a string: different
        _ => op == 1,
    }
}

/// Does the reported error say what the reference found?
pub fn same_error(e: &ProcessError, b: &Bad) -> bool {
    use ProcessError as P;
    match (e, b) {
        (P::UndefinedVariable(n), Bad::Undefined(m)) => n == m,
        (P::NullError(n), Bad::Null(m)) => n == m,
        (P::InvalidDataType { variable, .. }, Bad::Type(m)) => variable == m,
        (P::NotJsonArray, Bad::NotArray) => true,
        (P::NotFound(n), Bad::NotFound(m)) => n == m,
        (P::VariableAlreadyExists(n), Bad::Exists(m)) => n == m,
        (P::UndefinedSection(n), Bad::Section(m)) => n == m,
        (P::InvalidDataType { .. }, Bad::NotJson) => true,
        _ => false,
    }
}
pub use stuart_core::process::ProcessError;

/// Builds the site with page `p.html` made of `body` in section "m", root `[{{insert("m")}}]`
/// and the files of the world; compares with the reference.
pub fn agree(w: &World, body: &[T], root: &[T], labels: (&str, &str)) {
    let page = [T::Sec("m".into(), body.to_vec())];
    let mut files: Vec<(String, String)> = vec![("root.html".into(), src_text(root)), ("p.html".into(), src_text(&page))];
    for (n, j) in &w.json {
        files.push((n.clone(), j.json()));
    }
    for n in &w.other {
        files.push((n.clone(), "x".into()));
    }
    let fl: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_bytes())).collect();
    site(&fl);
    let mut ev = Ev::new(w, vec![]);
    let mut junk = Vec::new();
    let mut want = Vec::new();
    let mut r = ev.run(&page, &mut junk);
    if r.is_ok() {
        ev.frames = vec![vec![]];
        r = ev.run(root, &mut want);
    }
    judge(build(), r.map(|_| want), labels);
}
pub fn judge(got: Result<Stuart, Error>, want: Result<Vec<u8>, Bad>, labels: (&str, &str)) {
    let got = match got {
        Ok(s) => match page(&s, "p.html") {
            Some(v) => Ok(v),
            None => fail("the page is missing from the output"),
        },
        Err(e) => Err(e),
    };
    obs_result(&got);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            eq(&g, &w, labels.0);
            cover("rendered");
        }
        (Err(Error::Process(e)), Err(b)) => {
            check(same_error(&e.kind, &b), labels.1);
            cover("error");
        }
        (Err(_), Err(_)) => fail(labels.1),
        (Ok(_), Err(_)) => fail(labels.1),
        (Err(_), Ok(_)) => fail(labels.0),
    }
}
