//! C05-C10, C17: the template language.
use crate::common::*;
use crate::refi::*;
use humphrey_json::Value;

pub fn ins() -> [T; 3] {
    [T::Raw("[".into()), T::Ins("m".into()), T::Raw("]".into())]
}
pub fn raw(s: &str) -> T {
    T::Raw(s.into())
}
pub fn var(s: &str) -> T {
    T::Var(s.into())
}
pub fn lp(v: &str, src: Src, body: Vec<T>) -> Lp {
    Lp { var: v.into(), src, skip: None, limit: None, sort: None, order: None, body }
}
pub fn yes(c: bool) -> (A, A) {
    (A::Int(1), A::Int(if c { 1 } else { 2 }))
}
/// Bytes of a JSON string that need no escape.
pub fn plain_str(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        assume((b >= 32) & (b < 127) & (b != b'"') & (b != b'\\'));
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

// ---- C05 ----
pub fn data() -> J {
    obj(&[
        ("a", obj(&[("b", js("ab")), ("0", js("a0")), ("a", obj(&[("l", J::Arr(vec![js("aal0"), obj(&[("b", js("aal1b"))])]))])), ("n", J::Null), ("l", J::Arr(vec![]))])),
        ("l", J::Arr(vec![js("l0"), obj(&[("a", js("l1a")), ("1", js("l11"))]), J::Arr(vec![js("l20"), js("l21")]), J::Null, J::Num(7.0)])),
        ("n", J::Null),
        ("b", js("b")),
        ("t", J::Bool(false)),
        ("0", J::Num(1.0)),
    ])
}
/// Any dotted path into nested data.
pub fn c05_path(n: usize) {
    let mut w = World::new();
    w.json.push(("d.json".into(), data()));
    let head = pick(&["v", "v.l", "v.a", "v.l.1", "v.a.a.l"]);
    let p = format!("{}{}", head, text_in(n, b".abln013"));
    agree(&w, &[T::Imp("v".into(), "d.json".into()), var(&p)], &ins(), ("a variable does not give the value at its path", "a variable without a string value is not reported"));
}
/// Every string value is output verbatim.
pub fn c05_value(n: usize) {
    let t = utf8(n);
    for b in t.bytes() {
        assume((b != b'"') & (b != b'\\') & (b >= 32));
    }
    let d = format!("{{\"a\": [\"x\", \"{}\"]}}", t);
    let r = render_body(b"{{ import($v, \"d.json\") }}<{{ $v.a.1 }}>", &[("d.json", d.as_bytes())]);
    obs_result(&r);
    let mut want = b"[<".to_vec();
    want.extend_from_slice(t.as_bytes());
    want.extend_from_slice(b">]");
    match r {
        Ok(g) => {
            eq(&g, &want, "a variable does not give the value at its path");
            cover("rendered");
        }
        Err(_) => fail("a defined string variable is an error"),
    }
}
/// Names that resemble a defined one.
pub fn c05_name(n: usize) {
    let mut w = World::new();
    w.json.push(("d.json".into(), js("val")));
    let name = text_in(n, b"abAB_0");
    agree(&w, &[T::Imp("ab".into(), "d.json".into()), T::Imp("a".into(), "d.json".into()), var(&name)], &ins(), ("an undefined variable gives output", "an undefined variable is not reported"));
}
/// Nested definitions: every arrangement of up to n scoping constructs around uses of two names.
pub fn c05_scope(n: usize) {
    let mut w = World::new();
    w.json.push(("a.json".into(), obj(&[("k", js("A"))])));
    w.json.push(("b.json".into(), obj(&[("k", js("B")), ("l", J::Arr(vec![obj(&[("k", js("b0"))]), obj(&[("k", js("b1"))])]))])));
    w.json.push(("l.json".into(), J::Arr(vec![obj(&[("k", js("0")), ("l", J::Arr(vec![obj(&[("k", js("00"))])]))]), obj(&[("j", js("1"))])])));
    let mut left = n;
    let mut sec = 0;
    let mut body = scope_gen(&mut left, &mut sec, 0);
    body.push(var("x.k"));
    body.push(raw("."));
    agree(&w, &body, &ins(), ("a variable does not have its innermost value", "an undefined variable is not reported"));
}
pub fn scope_gen(left: &mut usize, sec: &mut usize, depth: usize) -> Vec<T> {
    let mut v = Vec::new();
    while *left > 0 {
        let k = choose(10);
        if k == 0 {
            if depth == 0 {
                *left = 0;
            }
            break;
        }
        *left -= 1;
        match k {
            1 => v.push(var("x.k")),
            2 => v.push(T::Imp("x".into(), "a.json".into())),
            3 => v.push(T::Imp("x".into(), "b.json".into())),
            4 => {
                let b = scope_gen(left, sec, depth + 1);
                v.push(T::For(lp("x", Src::Json("l.json".into()), b)));
            }
            5 => {
                let b = scope_gen(left, sec, depth + 1);
                v.push(T::For(lp("y", Src::Var("x.l".into()), b)));
            }
            6 => {
                let b = scope_gen(left, sec, depth + 1);
                *sec += 1;
                v.push(T::Sec(format!("s{}", sec), b));
            }
            7 => {
                let b = scope_gen(left, sec, depth + 1);
                let (p, q) = yes(true);
                v.push(T::If(0, p, q, b, None));
            }
            8 => {
                let b = scope_gen(left, sec, depth + 1);
                v.push(T::Def("x.k".into(), b, Some(vec![raw("n")])));
            }
            _ => v.push(var("y.k")),
        }
        v.push(raw(","));
    }
    v
}
entries! {
    c05_path(n): h_c05_path_3 = 3, h_c05_path_5 = 5;
    c05_value(n): h_c05_value_4 = 4, h_c05_value_7 = 7;
    c05_name(n): h_c05_name_3 = 3, h_c05_name_5 = 5;
    c05_scope(n): h_c05_scope_3 = 3, h_c05_scope_4 = 4;
}

// ---- C06 ----
pub fn num() -> f64 {
    let f = f64::from_bits(u64());
    assume(f == f);
    f
}
pub fn branch(r: &Result<Vec<u8>, TracebackError<ProcessError>>, want: bool) {
    obs_direct(r);
    match r {
        Ok(v) => {
            let is = v.len() == 3 && v[1] == b'T';
            let isn = v.len() == 3 && v[1] == b'F';
            check(is || isn, "a conditional does not render exactly one branch");
            check(is == want, "a conditional takes the wrong branch");
            cover("branch");
        }
        Err(_) => fail("a comparison of defined values is an error"),
    }
}
/// Any two numbers.
pub fn c06_num(_: usize) {
    let (x, y) = (num(), num());
    let op = choose(6);
    let body = format!("{{{{ import($a, \"a.json\") }}}}{{{{ import($b, \"b.json\") }}}}<{{{{ {}($a, $b.v) }}}}T{{{{ else() }}}}F{{{{ end({}) }}}}>", OPS[op], OPS[op]);
    let r = direct(vec![("a", Value::Number(x)), ("b", Value::Object(vec![("v".into(), Value::Number(y))]))], &body);
    branch(&r, holds(op, &J::Num(x), &J::Num(y)));
}
/// A number and an integer literal, either way round.
pub fn c06_lit(n: usize) {
    let x = num();
    let mut d = pick(&["", "-", "21474836", "-21474836"]).to_string();
    d.push_str(&text_in(n, b"0123456789"));
    let mut v: i64 = 0;
    for c in d.bytes() {
        if c != b'-' {
            v = v * 10 + (c - b'0') as i64;
        }
    }
    if d.starts_with('-') {
        v = -v;
    }
    assume((v >= i32::MIN as i64) & (v <= i32::MAX as i64));
    let op = choose(6);
    let swap = flip();
    let (p, q) = if swap { (d.as_str(), "$a") } else { ("$a", d.as_str()) };
    let body = format!("{{{{ import($a, \"a.json\") }}}}<{{{{ {}({}, {}) }}}}T{{{{ else() }}}}F{{{{ end({}) }}}}>", OPS[op], p, q, OPS[op]);
    let r = direct(vec![("a", Value::Number(x))], &body);
    let (a, b) = (J::Num(x), J::Num(v as f64));
    branch(&r, if swap { holds(op, &b, &a) } else { holds(op, &a, &b) });
}
/// Any two strings, literal or not, and mixtures with numbers.
pub fn c06_str(n: usize) {
    let (la, lb) = (choose(n + 1), choose(n + 1));
    let (a, b) = (plain_str(la), plain_str(lb));
    let op = choose(6);
    let kind = choose(5);
    let (p, q) = match kind {
        0 => ("$a".to_string(), "$b".to_string()),
        1 => (format!("\"{}\"", a), "$b".to_string()),
        2 => ("$a".to_string(), format!("\"{}\"", b)),
        3 => (format!("\"{}\"", a), format!("\"{}\"", b)),
        _ => (format!("\"{}\"", a), "$n".to_string()),
    };
    for t in [&a, &b] {
        for c in t.bytes() {
            // braces could end or open a tag inside a literal
            assume((c != b'{') & (c != b'}'));
        }
    }
    let body = format!("{{{{ import($a, \"a.json\") }}}}{{{{ import($b, \"b.json\") }}}}{{{{ import($n, \"n.json\") }}}}<{{{{ {}({}, {}) }}}}T{{{{ else() }}}}F{{{{ end({}) }}}}>", OPS[op], p, q, OPS[op]);
    let r = direct(vec![("a", Value::String(a.clone())), ("b", Value::String(b.clone())), ("n", Value::Number(1.0))], &body);
    let want = if kind == 4 { op == 1 } else { holds(op, &J::Str(a), &J::Str(b)) };
    branch(&r, want);
}
pub const OPERANDS: [&str; 11] = ["v.s", "v.e", "v.n", "v.f", "v.z", "v.t", "v.a", "v.o", "v.x", "w", "v.a.0"];
pub fn kinds() -> World {
    let mut w = World::new();
    w.json.push((
        "d.json".into(),
        obj(&[("s", js("1")), ("e", js("")), ("n", J::Num(1.0)), ("f", J::Num(1.5)), ("z", J::Null), ("t", J::Bool(true)), ("a", J::Arr(vec![js("1")])), ("o", obj(&[]))]),
    ));
    w
}
/// Operands of every kind.
pub fn c06_kinds(_: usize) {
    let op = choose(6);
    let mut ar = || match choose(OPERANDS.len() + 3) {
        0 => A::Str("1".into()),
        1 => A::Int(1),
        2 => A::Str("".into()),
        k => A::Var(OPERANDS[k - 3].into()),
    };
    let (a, b) = (ar(), ar());
    agree(&kinds(), &[T::Imp("v".into(), "d.json".into()), T::If(op, a, b, vec![raw("T")], Some(vec![raw("F")])), raw("z")], &ins(), ("a conditional takes the wrong branch", "a conditional over undefined values is not reported"));
}
pub fn c06_defined(_: usize) {
    let v = pick(&OPERANDS);
    let els = flip();
    agree(&kinds(), &[T::Imp("v".into(), "d.json".into()), T::Def(v.into(), vec![raw("T")], if els { Some(vec![raw("F")]) } else { None }), raw("z")], &ins(), ("ifdefined takes the wrong branch", "ifdefined fails"));
}
/// Every nesting of up to n blocks with and without else, taken or not.
pub fn c06_nest(n: usize) {
    let mut w = World::new();
    w.json.push(("l.json".into(), J::Arr(vec![js("i"), js("j")])));
    w.json.push(("e.json".into(), J::Arr(vec![])));
    let mut left = n;
    let mut id = 0;
    let mut body = nest_gen(&mut left, &mut id, 0, true);
    body.push(raw("$"));
    agree(&w, &body, &ins(), ("the branch not taken has an effect, or output resumes elsewhere than after the end", "the branch not taken has an effect, or output resumes elsewhere than after the end"));
}
pub fn nest_gen(left: &mut usize, id: &mut usize, depth: usize, live: bool) -> Vec<T> {
    let mut v = Vec::new();
    *id += 1;
    v.push(T::Raw(((b'a' + (*id % 26) as u8) as char).to_string()));
    if !live {
        // has an effect if it is executed
        v.push(var("undefined"));
    }
    while *left > 0 {
        let k = choose(9);
        if k == 0 {
            if depth == 0 {
                *left = 0;
            }
            break;
        }
        *left -= 1;
        match k {
            1..=4 => {
                let c = k % 2 == 1;
                let els = k > 2;
                let op = [0usize, 3, 5][(*id + depth) % 3];
                let x = nest_gen(left, id, depth + 1, live && c);
                let y = if els { Some(nest_gen(left, id, depth + 1, live && !c)) } else { None };
                let (p, q) = match (op, c) {
                    (3, false) => (A::Int(1), A::Int(2)),
                    (5, false) => (A::Int(2), A::Int(1)),
                    (_, c) => yes(c),
                };
                v.push(T::If(op, p, q, x, y));
            }
            5 => {
                let x = nest_gen(left, id, depth + 1, false);
                let y = nest_gen(left, id, depth + 1, live);
                v.push(T::Def("nope".into(), x, Some(y)));
            }
            6 => {
                let b = nest_gen(left, id, depth + 1, live);
                v.push(T::For(lp("x", Src::Json("l.json".into()), b)));
            }
            7 => {
                let b = nest_gen(left, id, depth + 1, false);
                v.push(T::For(lp("x", Src::Json("e.json".into()), b)));
            }
            _ => {
                let b = nest_gen(left, id, depth + 1, live);
                v.push(T::Sec(format!("s{}", id), b));
            }
        }
        *id += 1;
        v.push(T::Raw(((b'a' + (*id % 26) as u8) as char).to_string()));
    }
    v
}
entries! {
    c06_num(n): h_c06_num = 0;
    c06_lit(n): h_c06_lit_1 = 1, h_c06_lit_2 = 2;
    c06_str(n): h_c06_str_2 = 2, h_c06_str_3 = 3;
    c06_kinds(n): h_c06_kinds = 0;
    c06_defined(n): h_c06_defined = 0;
    c06_nest(n): h_c06_nest_3 = 3, h_c06_nest_4 = 4, h_c06_nest_5 = 5;
}

// ---- C07 ----
pub fn bound(n: usize) -> Option<u32> {
    match choose(n + 3) {
        0 => None,
        1 => Some(2147483647),
        k => Some(k as u32 - 2),
    }
}
pub fn md_page(i: usize, date: &str) -> J {
    obj(&[("id", js(&i.to_string())), ("date", js(date))])
}
/// Number of items, skip, limit, order and source.
pub fn c07_select(n: usize) {
    let mut w = World::new();
    let cnt = choose(n + 1);
    let items: Vec<J> = (0..cnt).map(|i| md_page(i, "d")).collect();
    let mut l = lp("x", Src::Json("l.json".into()), vec![var("x.id"), raw(",")]);
    let src = choose(3);
    match src {
        0 => w.json.push(("l.json".into(), J::Arr(items.clone()))),
        1 => {
            w.json.push(("o.json".into(), obj(&[("l", J::Arr(items.clone()))])));
            l.src = Src::Var("o.l".into());
        }
        _ => {
            w.dirs.push(("posts/".into(), items.clone()));
            l.src = Src::Dir("posts/".into());
        }
    }
    l.skip = bound(n + 1);
    l.limit = bound(n + 1);
    l.order = pick(&[None, Some(false), Some(true)]);
    let mut body = vec![];
    if src == 1 {
        body.push(T::Imp("o".into(), "o.json".into()));
    }
    body.push(T::For(l));
    body.push(raw("z"));
    loop_agree(&w, &body);
}
/// Like `agree`, with the directories of markdown pages as well.
pub fn loop_agree(w: &World, body: &[T]) {
    let page = [T::Sec("m".into(), body.to_vec())];
    site(&[("root.html", src_text(&ins()).as_bytes()), ("p.html", src_text(&page).as_bytes()), ("md.html", b"{{ begin(\"m\") }}{{ $self.content }}{{ end(\"m\") }}")]);
    for (n, j) in &w.json {
        fs().put(&format!("{}/{}", CONTENT, n), j.json().as_bytes());
    }
    for (d, pages) in &w.dirs {
        let d = d.trim_end_matches('/');
        fs().put_dir(&format!("{}/{}", CONTENT, d));
        for (i, p) in pages.iter().enumerate() {
            let mut t = String::from("---\n");
            if let J::Obj(f) = p {
                for (k, v) in f {
                    if let J::Str(s) = v {
                        t.push_str(k);
                        t.push_str(": \"");
                        t.push_str(s);
                        t.push_str("\"\n");
                    }
                }
            }
            t.push_str("---\nbody");
            fs().put(&format!("{}/{}/p{}.md", CONTENT, d, i), t.as_bytes());
            if i == 0 {
                fs().put(&format!("{}/{}/note.txt", CONTENT, d), b"x");
                fs().put(&format!("{}/{}/sub/inner.md", CONTENT, d), b"x");
                fs().put(&format!("{}/{}/h.html", CONTENT, d), b"{{ begin(\"m\") }}{{ end(\"m\") }}");
            }
        }
    }
    let mut ev = Ev::new(w, vec![]);
    let mut want = Vec::new();
    let r = match ev.run(&page, &mut Vec::new()) {
        Ok(()) => {
            ev.frames = vec![vec![]];
            ev.run(&ins(), &mut want).map(|_| want)
        }
        Err(e) => Err(e),
    };
    judge(build(), r, ("a loop does not render its items as selected", "a loop over something else than items is not reported"));
}
/// Sorting by keys of up to n characters: stable, missing keys first, reversed for desc.
pub fn c07_sort(n: usize) {
    let cnt = n;
    let mut w = World::new();
    let mut items = Vec::new();
    for i in 0..cnt {
        let mut f = vec![("id".to_string(), js(&i.to_string()))];
        match choose(4) {
            0 => {
                let k = plain_key(1);
                f.push(("k".to_string(), J::Str(k)));
            }
            1 => {
                let k = plain_key(2);
                f.push(("k".to_string(), J::Str(k)));
            }
            2 => {}
            _ => f.push(("k".to_string(), J::Num(5.0))),
        }
        items.push(J::Obj(f));
    }
    w.json.push(("l.json".into(), J::Arr(items)));
    let mut l = lp("x", Src::Json("l.json".into()), vec![var("x.id"), raw(",")]);
    l.sort = Some("x.k".into());
    l.order = pick(&[None, Some(false), Some(true)]);
    agree(&w, &[T::For(l), raw("z")], &ins(), ("a loop does not render its items in sorted order", "a sorted loop fails"));
}
pub fn plain_key(n: usize) -> String {
    let mut v = Vec::new();
    for _ in 0..n {
        let b = byte();
        assume((b >= 48) & (b <= 122) & (b != 92));
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Sorting by the item itself, by a nested key, and followed by skip and limit; more items.
pub fn c07_sort2(n: usize) {
    let mut w = World::new();
    let kind = choose(3);
    let items: Vec<J> = (0..n)
        .map(|i| {
            let k = plain_key(1);
            match kind {
                0 => J::Str(k),
                1 => obj(&[("id", js(&i.to_string())), ("m", J::Arr(vec![obj(&[("k", J::Str(k))])]))]),
                _ => obj(&[("id", js(&i.to_string())), ("date", J::Str(k))]),
            }
        })
        .collect();
    let mut l = lp("x", Src::Json("l.json".into()), vec![var(if kind == 0 { "x" } else { "x.id" }), raw(",")]);
    l.sort = Some(["x", "x.m.0.k", "x.date"][kind].into());
    l.order = pick(&[Some(false), Some(true)]);
    l.skip = pick(&[None, Some(1)]);
    l.limit = pick(&[None, Some(2)]);
    if kind == 2 {
        l.src = Src::Dir("posts/".into());
        w.dirs.push(("posts/".into(), items));
    } else {
        w.json.push(("l.json".into(), J::Arr(items)));
    }
    loop_agree(&w, &[T::For(l), raw("z")]);
}
/// Nested loops of every number of iterations, with conditionals and sections in between.
pub fn c07_nest(n: usize) {
    let mut w = World::new();
    let it = |k: usize| -> J { J::Arr((0..k).map(|i| obj(&[("v", js(&i.to_string())), ("l", J::Arr((0..i).map(|j| obj(&[("v", js(&((b'p' + j as u8) as char).to_string()))])).collect()))])).collect()) };
    for k in 0..4 {
        w.json.push((format!("l{}.json", k), it(k)));
    }
    let mut left = n;
    let mut sec = 0;
    let mut body = loops_gen(&mut left, &mut sec, 0);
    body.push(raw("$"));
    agree(&w, &body, &ins(), ("nested loops do not render their items as selected", "nested loops fail"));
}
pub fn loops_gen(left: &mut usize, sec: &mut usize, depth: usize) -> Vec<T> {
    let mut v = Vec::new();
    while *left > 0 {
        let k = choose(9);
        if k == 0 {
            if depth == 0 {
                *left = 0;
            }
            break;
        }
        *left -= 1;
        match k {
            1 => v.push(T::Def("x".into(), vec![var("x.v")], Some(vec![raw("u")]))),
            2..=4 => {
                let f = [0, 1, 3][k - 2];
                let mut b = loops_gen(left, sec, depth + 1);
                b.push(var("x.v"));
                v.push(T::For(lp("x", Src::Json(format!("l{}.json", f)), b)));
            }
            5 => {
                // over an array of the loop variable, where there is one
                let b = vec![var("y.v")];
                let inner = loops_gen(left, sec, depth + 1);
                let mut l = vec![T::For(lp("y", Src::Var("x.l".into()), b))];
                l.extend(inner);
                v.push(T::Def("x.l".into(), l, None));
            }
            6 => {
                let mut b = loops_gen(left, sec, depth + 1);
                b.push(var("x.v"));
                let mut l = lp("x", Src::Json("l2.json".into()), b);
                l.limit = Some(1);
                l.order = Some(true);
                v.push(T::For(l));
            }
            7 => {
                let b = loops_gen(left, sec, depth + 1);
                let (p, q) = yes(depth % 2 == 0);
                v.push(T::If(0, p, q, b, Some(vec![raw("e")])));
            }
            _ => {
                let b = loops_gen(left, sec, depth + 1);
                *sec += 1;
                v.push(T::Sec(format!("s{}", sec), b));
            }
        }
        v.push(raw(";"));
    }
    v
}
/// Sources that are no arrays, files or directories.
pub fn c07_source(_: usize) {
    let mut w = World::new();
    w.json.push(("o.json".into(), obj(&[("a", J::Arr(vec![js("q")])), ("s", js("s")), ("o", obj(&[])), ("z", J::Null)])));
    w.json.push(("n.json".into(), J::Num(1.0)));
    w.json.push(("e.json".into(), J::Arr(vec![])));
    w.dirs.push(("posts/".into(), vec![]));
    w.dirs.push(("d/posts/".into(), vec![js("x")]));
    let src = match choose(12) {
        0 => Src::Json("o.json".into()),
        1 => Src::Json("n.json".into()),
        2 => Src::Json("e.json".into()),
        3 => Src::Json("no.json".into()),
        4 => Src::Dir("posts/".into()),
        5 => Src::Dir("nowhere/".into()),
        6 => Src::Var("o.a".into()),
        7 => Src::Var("o.s".into()),
        8 => Src::Var("o.o".into()),
        9 => Src::Var("o.z".into()),
        10 => Src::Var("o.none".into()),
        _ => Src::Var("none".into()),
    };
    loop_agree(&w, &[T::Imp("o".into(), "o.json".into()), T::For(lp("x", src, vec![raw("i")])), raw("z")]);
}
/// Directory loops see every markdown file of the directory, in the order it is listed.
pub fn c07_dir(_: usize) {
    site(&[
        ("root.html", b"{{ insert(\"m\") }}"),
        ("md.html", b"{{ begin(\"m\") }}{{ $self.content }}{{ end(\"m\") }}"),
        ("p.html", b"{{ begin(\"m\") }}{{ for($x, \"d/posts/\") }}{{ $x.k }}:{{ $x.markdown }}:{{ $x.content }};{{ end(for) }}{{ end(\"m\") }}"),
        ("d/posts/a.md", b"---\nk: \"A\"\n---\nba"),
        ("d/posts/deep/z.md", b"---\nk: \"Z\"\n---\nbz"),
        ("d/posts/b.md", b"---\nk: \"B\"\n---\nbb"),
        ("d/posts/c.json", b"{}"),
        ("d/other.md", b"---\nk: \"O\"\n---\nbo"),
    ]);
    let rev = flip();
    fs().rev = rev;
    match build() {
        Err(_) => fail("a loop over a directory fails"),
        Ok(s) => {
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            let (a, b): (&[u8], &[u8]) = (b"A:ba:<p>ba</p>\n;", b"B:bb:<p>bb</p>\n;");
            let w = if rev { [b, a].concat() } else { [a, b].concat() };
            eq(&g, &w, "a loop over a directory does not give its pages");
            cover("rendered");
        }
    }
}
entries! {
    c07_select(n): h_c07_select_2 = 2, h_c07_select_4 = 4;
    c07_sort(n): h_c07_sort_3 = 3, h_c07_sort_4 = 4;
    c07_sort2(n): h_c07_sorted_3 = 3, h_c07_sorted_4 = 4;
    c07_nest(n): h_c07_nest_3 = 3, h_c07_nest_4 = 4;
    c07_source(n): h_c07_source = 0;
    c07_dir(n): h_c07_dir = 0;
}

// ---- C08 ----
#[derive(Clone, Copy, PartialEq)]
enum G {
    Raw,
    Begin(usize),
    EndS(usize),
    If(bool),
    Else,
    EndIf,
    For(usize),
    EndFor,
    Def,
    EndDef,
}
pub const TAGS: [G; 13] = [G::Raw, G::Begin(0), G::EndS(0), G::Begin(1), G::EndS(1), G::If(true), G::If(false), G::Else, G::EndIf, G::For(2), G::EndFor, G::Def, G::EndDef];
pub fn tag_text(g: G) -> &'static str {
    match g {
        G::Raw => "r",
        G::Begin(0) => "{{ begin(\"s\") }}",
        G::Begin(_) => "{{ begin(\"t\") }}",
        G::EndS(0) => "{{ end(\"s\") }}",
        G::EndS(_) => "{{ end(\"t\") }}",
        G::If(true) => "{{ ifeq(1, 1) }}",
        G::If(false) => "{{ ifeq(1, 2) }}",
        G::Else => "{{ else() }}",
        G::EndIf => "{{ end(ifeq) }}",
        G::For(_) => "{{ for($x, \"l.json\") }}",
        G::EndFor => "{{ end(for) }}",
        G::Def => "{{ ifdefined($x) }}",
        G::EndDef => "{{ end(ifdefined) }}",
    }
}
/// Ok(true): balanced. Ok(false): not. Err: nothing said (a second else, or an
/// imbalance of kinds inside a part that is skipped).
pub fn balanced(gs: &[G]) -> Result<bool, ()> {
    // (tag, is the current part executed, else seen)
    let mut st: Vec<(G, bool, bool)> = Vec::new();
    let mut sure = true;
    for g in gs {
        let live = st.last().map(|x| x.1).unwrap_or(true);
        match g {
            G::Raw => {}
            G::Begin(_) | G::For(_) => st.push((*g, live, false)),
            G::If(c) => st.push((*g, live && *c, false)),
            // `x` is defined inside a loop only
            G::Def => {
                let inside = st.iter().any(|x| matches!(x.0, G::For(_)));
                st.push((*g, live && inside, false))
            }
            G::Else => {
                let n = st.len();
                let outer = if n >= 2 { st[n - 2].1 } else { true };
                match st.last_mut() {
                    Some(x) if matches!(x.0, G::If(_) | G::Def) => {
                        if x.2 {
                            return Err(());
                        }
                        x.2 = true;
                        x.1 = outer && !x.1;
                    }
                    _ => {
                        if live {
                            return if sure { Ok(false) } else { Err(()) };
                        }
                        sure = false;
                    }
                }
            }
            _ => match st.pop() {
                None => return if sure { Ok(false) } else { Err(()) },
                Some((o, _, _)) => {
                    let fits = match (o, g) {
                        (G::Begin(a), G::EndS(b)) => a == *b,
                        (G::If(_), G::EndIf) => true,
                        (G::For(_), G::EndFor) => true,
                        (G::Def, G::EndDef) => true,
                        _ => false,
                    };
                    if !fits {
                        // the end of a skipped block nested in a skipped part is only counted
                        let outer = st.last().map(|x| x.1).unwrap_or(true);
                        if outer {
                            return if sure { Ok(false) } else { Err(()) };
                        }
                        sure = false;
                    }
                }
            },
        }
    }
    if !st.is_empty() {
        return if sure { Ok(false) } else { Err(()) };
    }
    if sure {
        Ok(true)
    } else {
        Err(())
    }
}
/// The tree of a balanced sequence.
pub fn tree(gs: &[G], i: &mut usize) -> Vec<T> {
    let mut v = Vec::new();
    while *i < gs.len() {
        let g = gs[*i];
        match g {
            G::Raw => {
                *i += 1;
                v.push(raw("r"));
            }
            G::Begin(k) => {
                *i += 1;
                let b = tree(gs, i);
                *i += 1;
                v.push(T::Sec(["s", "t"][k].into(), b));
            }
            G::For(_) => {
                *i += 1;
                let b = tree(gs, i);
                *i += 1;
                v.push(T::For(lp("x", Src::Json("l.json".into()), b)));
            }
            G::If(_) | G::Def => {
                *i += 1;
                let b = tree(gs, i);
                let mut e = None;
                if gs[*i] == G::Else {
                    *i += 1;
                    e = Some(tree(gs, i));
                }
                *i += 1;
                v.push(match g {
                    G::If(c) => {
                        let (p, q) = yes(c);
                        T::If(0, p, q, b, e)
                    }
                    _ => T::Def("x".into(), b, e),
                });
            }
            _ => return v,
        }
    }
    v
}
pub fn tag_seq(n: usize) -> (Vec<G>, String) {
    let mut gs = Vec::new();
    let mut t = String::new();
    for _ in 0..n {
        let k = choose(TAGS.len() + 1);
        if k == TAGS.len() {
            break;
        }
        gs.push(TAGS[k]);
        t.push_str(tag_text(TAGS[k]));
    }
    (gs, t)
}
/// Every sequence of up to n tags in the page, `root.html`, `md.html` or the markdown body.
pub fn c08_tags(n: usize) {
    let place = choose(4);
    let (gs, t) = tag_seq(n);
    let want = balanced(&gs);
    assume(want.is_ok());
    let sec = |t: &str| format!("{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}", t);
    let mut root = "<{{ insert(\"m\") }}>".to_string();
    let mut md = sec("{{ $self.content }}");
    let mut page_t = sec("p");
    let mut body = "b".to_string();
    match place {
        0 => page_t = format!("{}{}", sec("p"), t),
        1 => root = t.clone(),
        2 => md = format!("{}{}", sec("p"), t),
        _ => body = t.clone(),
    }
    let l: &[u8] = b"[\"0\", \"1\"]";
    if place <= 1 {
        site(&[("l.json", l), ("root.html", root.as_bytes()), ("p.html", page_t.as_bytes())]);
    } else {
        site(&[("l.json", l), ("root.html", root.as_bytes()), ("md.html", md.as_bytes()), ("p.md", body.as_bytes())]);
    }
    let r = build();
    observe(&[r.is_ok() as u8]);
    match (want, r) {
        (Ok(true), Err(_)) => fail("a properly nested template is rejected"),
        (Ok(false), Ok(_)) => fail("a template with unbalanced blocks produces output"),
        (Ok(false), Err(e)) => {
            check(matches!(e, Error::Process(_)), "unbalanced blocks are reported as something else");
            cover("unbalanced");
        }
        (_, Ok(s)) => {
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            if place == 1 {
                // what the root renders, exactly
                let mut w = World::new();
                w.json.push(("l.json".into(), J::Arr(vec![js("0"), js("1")])));
                let mut ev = Ev::new(&w, vec![]);
                let mut want = Vec::new();
                let ts = tree(&gs, &mut 0);
                if ev.run(&ts, &mut want).is_err() {
                    fail("reference");
                }
                eq(&g, &want, "a properly nested template gives other output");
            }
            cover("balanced");
        }
        _ => {}
    }
}
/// Sections nested in the page reach the root as written, wherever and however often inserted.
pub fn c08_sections(n: usize) {
    let mut w = World::new();
    w.json.push(("l.json".into(), J::Arr(vec![js("0"), js("1")])));
    let (gs, _) = tag_seq(n);
    assume(balanced(&gs) == Ok(true));
    // a label defined twice is not specified
    assume(gs.iter().filter(|g| **g == G::Begin(0)).count() <= 1);
    assume(gs.iter().filter(|g| **g == G::Begin(1)).count() <= 1);
    let mut looped = 0;
    for g in &gs {
        match g {
            G::For(_) => looped += 1,
            G::EndFor => looped -= 1,
            G::Begin(_) => assume(looped == 0),
            _ => {}
        }
    }
    let body = tree(&gs, &mut 0);
    let root = match choose(4) {
        0 => vec![T::Ins("s".into()), raw("-"), T::Ins("t".into())],
        1 => vec![T::Ins("t".into()), raw("-"), T::Ins("m".into()), raw("-"), T::Ins("t".into())],
        2 => vec![T::For(lp("q", Src::Json("l.json".into()), vec![T::Ins("s".into())]))],
        _ => vec![T::Sec("z".into(), vec![T::Ins("s".into())]), T::Ins("z".into())],
    };
    agree(&w, &body, &root, ("an inserted section differs from what the page defines", "inserting a missing section is not reported"));
}
/// Section content, byte for byte, through HTML and markdown templates.
pub fn c08_bytes(n: usize) {
    let t = text_in(n, b"a{}\\\n ");
    let want = match crate::parse::plain(t.as_bytes()) {
        Some(w) => w,
        None => {
            assume(false);
            vec![]
        }
    };
    assume(!t.ends_with('\\') && !t.ends_with('{'));
    let p = format!("x{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}y{{{{ begin(\"k\") }}}}K{{{{ end(\"k\") }}}}", t);
    site(&[("root.html", b"1{{ insert(\"m\") }}2{{ insert(\"k\") }}3{{ insert(\"m\") }}4"), ("p.html", p.as_bytes())]);
    match build() {
        Err(_) => fail("a valid page is rejected"),
        Ok(s) => {
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            let w = [b"1", &want[..], b"2K3", &want[..], b"4"].concat();
            eq(&g, &w, "an inserted section differs from what the page defines");
            cover("rendered");
        }
    }
}
/// Labels match exactly, whatever they have in common: three labels of 1 to n characters.
pub fn c08_labels(n: usize) {
    let lab = || text_in(1 + choose(n), b"sS:x");
    let (a, b) = (lab(), lab());
    let c = if flip() { a.clone() } else { lab() };
    let nested = flip();
    let t = if nested {
        format!("{{{{ begin(\"k\") }}}}{{{{ begin(\"{}\") }}}}T{{{{ end(\"{}\") }}}}{{{{ end(\"k\") }}}}", a, b)
    } else {
        format!("{{{{ begin(\"{}\") }}}}T{{{{ end(\"{}\") }}}}", a, b)
    };
    let root = format!("<{{{{ insert(\"{}\") }}}}>", c);
    site(&[("root.html", root.as_bytes()), ("p.html", t.as_bytes())]);
    let ok = (a == b) & (a == c);
    match build() {
        Ok(s) => {
            observe(&page(&s, "p.html").unwrap_or_default());
            check(a == b, "an end with another label closes a section");
            check(a == c, "inserting a missing section is not reported");
            eq(&page(&s, "p.html").unwrap_or_default(), b"<T>", "an inserted section differs from what the page defines");
            cover("inserted");
        }
        Err(_) => {
            check(!ok, "a properly nested template is rejected");
            cover("labels differ");
        }
    }
}
entries! {
    c08_labels(n): h_c08_labels_2 = 2, h_c08_labels_3 = 3;
    c08_tags(n): h_c08_tags_3 = 3, h_c08_tags_4 = 4, h_c08_tags_5 = 5;
    c08_sections(n): h_c08_sections_3 = 3, h_c08_sections_4 = 4, h_c08_sections_5 = 5;
    c08_bytes(n): h_c08_bytes_4 = 4, h_c08_bytes_6 = 6;
}

// ---- C09 ----
/// The text without `<...>`, up to the first character that reaches `n` bytes; and whether anything was left.
pub fn ref_excerpt(s: &[u8], n: usize) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::new();
    let mut i = 0;
    let mut tag = false;
    while i < s.len() && o.len() < n {
        let c = s[i];
        let l = if c < 0x80 { 1 } else if c < 0xe0 { 2 } else if c < 0xf0 { 3 } else { 4 };
        if c == b'<' {
            tag = true;
        } else if c == b'>' {
            tag = false;
        } else if !tag {
            o.extend_from_slice(&s[i..i + l]);
        }
        i += l;
    }
    if i < s.len() {
        o.extend_from_slice(b"...");
    }
    o
}
pub fn c09_on(t: String, n: usize) {
    let r = direct(vec![("a", Value::Object(vec![("t".into(), Value::String(t.clone()))]))], &format!("{{{{ import($a, \"a.json\") }}}}{{{{ excerpt($a.t, {}) }}}}", n));
    obs_direct(&r);
    match r {
        Ok(g) => {
            eq(&g, &ref_excerpt(t.as_bytes(), n), "an excerpt is not the prefix its limit allows, or marks truncation wrongly");
            cover("excerpt");
        }
        Err(_) => fail("excerpt fails on a string"),
    }
}
pub fn c09_utf8(n: usize) {
    let l = choose(n + 1);
    let k = choose(n + 3);
    c09_on(utf8(l), k)
}
pub fn c09_tags(n: usize) {
    let l = choose(n + 1);
    let mut s = String::new();
    for _ in 0..l {
        match choose(4) {
            0 => s.push('\u{e9}'),
            1 => s.push('\u{1f600}'),
            _ => s.push(byte_in(b"<>ab /") as char),
        }
    }
    let k = choose(n + 2);
    c09_on(s, k)
}
pub fn c09_kinds(_: usize) {
    let v = pick(&OPERANDS);
    let tag = pick(&["excerpt($V, 3)", "timetoread($V)"]).replace("V", v);
    let r = render_body(format!("{{{{ import($v, \"d.json\") }}}}{{{{ {} }}}}", tag).as_bytes(), &[("d.json", kinds().json[0].1.json().as_bytes())]);
    obs_result(&r);
    let string = matches!(v, "v.s" | "v.e" | "v.a.0");
    check(r.is_ok() == string, "a function of strings accepts something else, or rejects a string");
    cover(if string { "string" } else { "other" });
}
entries! {
    c09_utf8(n): h_c09_utf8_4 = 4, h_c09_utf8_6 = 6;
    c09_tags(n): h_c09_tags_4 = 4, h_c09_tags_6 = 6;
    c09_kinds(n): h_c09_kinds = 0, h_c10_kinds = 0;
}

// ---- C10 ----
pub fn ref_words(s: &str) -> usize {
    let mut n = 0;
    let mut inw = false;
    for c in s.chars() {
        let w = matches!(c, '\t' | '\n' | '\u{b}' | '\u{c}' | '\r' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}');
        if !w && !inw {
            n += 1;
        }
        inw = !w;
    }
    n
}
pub fn c10_on(t: String) {
    let words = ref_words(&t);
    let r = direct(vec![("a", Value::Object(vec![("t".into(), Value::String(t))]))], "{{ import($a, \"a.json\") }}{{ timetoread($a.t) }}");
    obs_direct(&r);
    let want = (words / 200).max(1).to_string();
    match r {
        Ok(g) => {
            eq(&g, want.as_bytes(), "timetoread is not the number of words over 200, at least 1");
            cover(if words < 200 { "short" } else { "long" });
        }
        Err(_) => fail("timetoread fails on a string"),
    }
}
/// Counts around the multiples of 200, with arbitrary 7-bit characters after them.
pub fn c10_count(n: usize) {
    let k = pick(&[0usize, 198, 199, 398, 599, 1999]);
    let mut s = String::with_capacity(2 * k + n);
    for _ in 0..k {
        s.push_str("w ");
    }
    s.push_str(&ascii(n));
    c10_on(s)
}
pub fn c10_unicode(n: usize) {
    let mut s = String::with_capacity(2 * 399 + 12);
    for _ in 0..pick(&[0, 399]) {
        s.push_str("w\n");
    }
    for _ in 0..n {
        match choose(8) {
            0 => s.push('\u{a0}'),
            1 => s.push('\u{3000}'),
            2 => s.push('\u{85}'),
            3 => s.push('\u{200b}'),
            4 => s.push('\u{e9}'),
            5 => s.push('\u{1f600}'),
            6 => s.push('\u{2028}'),
            _ => s.push(byte_in(b"a \t\n\r-.") as char),
        }
    }
    c10_on(s)
}
entries! {
    c10_count(n): h_c10_count_3 = 3, h_c10_count_6 = 6;
    c10_unicode(n): h_c10_unicode_2 = 2, h_c10_unicode_3 = 3;
}

// ---- C17 ----
/// Every value of the file, in any nesting, is what the variable holds.
pub fn c17_value(n: usize) {
    let mut left = n;
    let j = json_gen(&mut left, 2);
    let pl = crate::parse::dumper();
    let body = b"{{ begin(\"m\") }}{{ import($v, \"sub/d.json\") }}{{ p::dump($v) }}{{ end(\"m\") }}";
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("p.html", body), ("d.json", b"0"), ("sub/d.json", j.json().as_bytes()), ("sub/sub/d.json", b"1"), ("other/d.json", b"2")]);
    unsafe { crate::parse::DUMP = None };
    let mut s = Stuart::new(CONTENT).with_plugins(pl);
    match s.build("production".into()) {
        Err(_) => fail("importing a JSON file fails"),
        Ok(()) => match unsafe { (*std::ptr::addr_of_mut!(crate::parse::DUMP)).take() } {
            None => fail("the imported variable is not defined"),
            Some(v) => {
                observe(v.serialize().as_bytes());
                check(same(&v, &j), "the imported variable is not the value of the file");
                cover("value");
            }
        },
    }
}
pub fn same(v: &Value, j: &J) -> bool {
    match (v, j) {
        (Value::Null, J::Null) => true,
        (Value::Bool(a), J::Bool(b)) => a == b,
        (Value::Number(a), J::Num(b)) => a == b,
        (Value::String(a), J::Str(b)) => a.len() == b.len() && a.as_bytes() == b.as_bytes(),
        (Value::Array(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Value::Object(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k.as_bytes() == l.as_bytes() && same(x, y)),
        _ => false,
    }
}
pub fn json_gen(left: &mut usize, depth: usize) -> J {
    let k = if *left == 0 || depth == 0 { choose(5) } else { choose(7) };
    if *left > 0 {
        *left -= 1;
    }
    match k {
        0 => J::Null,
        1 => J::Bool(flip()),
        2 => J::Num(pick(&[0.0, -12.0, 1.5, 4294967296.0])),
        3 => J::Str(plain_str(2)),
        4 => J::Str(String::new()),
        5 => {
            let c = choose(3);
            J::Arr((0..c).map(|_| json_gen(left, depth - 1)).collect())
        }
        _ => {
            let c = choose(3);
            J::Obj((0..c).map(|i| (["a", "b"][i].to_string(), json_gen(left, depth - 1))).collect())
        }
    }
}
/// Paths that name the file, and paths that do not.
pub fn c17_path(_: usize) {
    let (p, ok) = pick(&[
        ("d/a.json", 1),
        ("d/b.json", 0),
        ("a.json", 2),
        ("/d/a.json", 0),
        ("d", 0),
        ("d/", 0),
        ("", 0),
        ("d/a.jso", 0),
        ("d/a.json.x", 0),
        ("q.html", 0),
        ("t.txt", 0),
        ("m/x.md", 0),
        ("root.html", 0),
        ("../content/d/a.json", 0),
        ("d/../d/a.json", 0),
        ("d/A.json", 0),
        ("d/e/a.json", 3),
        ("e/a.json", 0),
        ("d.json/a.json", 0),
    ]);
    let body = format!("{{{{ begin(\"m\") }}}}{{{{ import($v, \"{}\") }}}}{{{{ $v }}}}{{{{ end(\"m\") }}}}", p);
    site(&[
        ("root.html", b"{{ insert(\"m\") }}"),
        ("md.html", b"{{ begin(\"m\") }}{{ end(\"m\") }}"),
        ("p.html", body.as_bytes()),
        ("q.html", b"{{ begin(\"m\") }}{{ end(\"m\") }}"),
        ("t.txt", b"\"t\""),
        ("m/x.md", b"x"),
        ("a.json", b"\"2\""),
        ("d/a.json", b"\"1\""),
        ("d/e/a.json", b"\"3\""),
        ("d.json", b"\"4\""),
    ]);
    // outside the content tree
    fs().put("/w/x.json", b"\"9\"");
    let r = build();
    observe(&[r.is_ok() as u8]);
    match r {
        Ok(s) => {
            check(ok > 0, "import accepts a path that names no JSON file");
            eq(&page(&s, "p.html").unwrap_or_default(), ok.to_string().as_bytes(), "import binds another file");
            cover("bound");
        }
        Err(e) => {
            check(ok == 0, "importing a JSON file fails");
            check(matches!(e, Error::Process(_)), "a bad import is reported as something else");
            cover("refused");
        }
    }
}
/// Near misses of a file name.
/// Any text of the file: valid JSON is bound as it is, and nothing crashes.
pub fn c17_text(n: usize) {
    let t = match choose(3) {
        0 => text_in(n, b"[]{},:\"1n "),
        1 => format!("\"{}\"", text_in(n, b"\\u0dD8\"n")),
        _ => format!("{{\"{}", text_in(n, b"a\":,{}[]1")),
    };
    let want = crate::site::read_json(t.as_bytes());
    let r = (|| {
        site(&[("root.html", b"{{ insert(\"m\") }}"), ("p.html", b"{{ begin(\"m\") }}{{ import($v, \"d.json\") }}{{ p::dump($v) }}{{ end(\"m\") }}"), ("d.json", t.as_bytes())]);
        unsafe { crate::parse::DUMP = None };
        let mut s = Stuart::new(CONTENT).with_plugins(crate::parse::dumper());
        s.build("production".into())?;
        Ok::<_, Error>(unsafe { (*std::ptr::addr_of_mut!(crate::parse::DUMP)).take() })
    })();
    match (r, want) {
        (Ok(Some(v)), Some(w)) => {
            observe(v.serialize().as_bytes());
            check(same(&v, &w), "the imported variable is not the value of the file");
            cover("value");
        }
        (Ok(None), _) => fail("the imported variable is not defined"),
        (Err(e), Some(_)) => {
            observe(p_err(&e).1.as_bytes());
            fail("a JSON file is rejected")
        }
        // not JSON by the standard: the reader is lenient, or says so
        (Ok(Some(_)), None) => cover("lenient"),
        (Err(Error::Parse(e)), None) => {
            check(e.path == Path::new("/w/content/d.json"), "invalid JSON is reported for another file");
            cover("rejected");
        }
        (Err(_), None) => fail("invalid JSON is reported as something else"),
    }
}
pub fn c17_near(n: usize) {
    let mut w = World::new();
    w.json.push(("ab.json".into(), js("1")));
    w.json.push(("b.json".into(), js("2")));
    w.json.push(("a/b.json".into(), js("3")));
    let p = format!("{}.json", text_in(n, b"ab/A_"));
    agree(&w, &[T::Imp("v".into(), p), var("v")], &ins(), ("import binds another file", "import accepts a path that names no JSON file"));
}
/// Scopes: an import is visible to the end of its block, and no name is bound twice in one scope.
pub fn c17_scope(n: usize) {
    let mut w = World::new();
    w.json.push(("a.json".into(), js("A")));
    w.json.push(("b.json".into(), js("B")));
    w.json.push(("l.json".into(), J::Arr(vec![js("0"), js("1")])));
    let mut left = n;
    let mut sec = 0;
    let body = import_gen(&mut left, &mut sec, 0);
    agree(&w, &body, &ins(), ("an imported name does not hold its file where it is visible", "binding a name twice, or using it out of scope, is not reported"));
}
pub fn import_gen(left: &mut usize, sec: &mut usize, depth: usize) -> Vec<T> {
    let mut v = Vec::new();
    while *left > 0 {
        let k = choose(9);
        if k == 0 {
            if depth == 0 {
                *left = 0;
            }
            break;
        }
        *left -= 1;
        match k {
            1 => v.push(T::Imp("x".into(), "a.json".into())),
            2 => v.push(T::Imp("x".into(), "b.json".into())),
            3 => v.push(T::Imp("y".into(), "a.json".into())),
            4 => v.push(var("x")),
            5 => {
                let b = import_gen(left, sec, depth + 1);
                v.push(T::For(lp("x", Src::Json("l.json".into()), b)));
            }
            6 => {
                let b = import_gen(left, sec, depth + 1);
                let (p, q) = yes(true);
                v.push(T::If(0, p, q, b, None));
            }
            7 => {
                let b = import_gen(left, sec, depth + 1);
                *sec += 1;
                v.push(T::Sec(format!("s{}", sec), b));
            }
            _ => v.push(T::Def("x".into(), vec![raw("+")], Some(vec![raw("-")]))),
        }
        v.push(raw(","));
    }
    v
}
entries! {
    c17_value(n): h_c17_value_3 = 3, h_c17_value_4 = 4;
    c17_path(n): h_c17_path = 0;
    c17_text(n): h_c17_text_4 = 4, h_c17_text_6 = 6;
    c17_near(n): h_c17_near_3 = 3, h_c17_near_4 = 4;
    c17_scope(n): h_c17_scope_3 = 3, h_c17_scope_4 = 4;
}
