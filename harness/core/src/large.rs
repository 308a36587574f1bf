//! The properties at sizes beyond the small ones: counts and lengths around 256 and 65536, deep nesting.
//! Everything is concrete but a few bytes at the places that matter.
use crate::common::*;
use crate::parse::*;
use crate::refi::*;
use crate::site::*;
use crate::tmpl::*;
use humphrey_json::Value;
use stuart_core::fs::ParsedContents;

fn ins() -> [T; 3] {
    [T::Raw("[".into()), T::Ins("m".into()), T::Raw("]".into())]
}
fn raw(s: &str) -> T {
    T::Raw(s.into())
}
fn var(s: &str) -> T {
    T::Var(s.into())
}
fn key(n: usize) -> String {
    text_in(n, b"abz")
}
const SIZES: [usize; 7] = [255, 256, 257, 4096, 65535, 65536, 70000];
const COUNTS: [usize; 6] = [17, 33, 127, 255, 256, 300];

// ---- C01 ----
fn c01_large(_: usize) {
    let n = pick(&SIZES);
    let c = ascii(1);
    let k = n / 16;
    let s = match choose(10) {
        0 => format!("{{{{ ifeq({}{}) }}}}", "\"a\", ".repeat(k), c),
        1 => format!("{{{{ begin(\"{}{}\") }}}}", "x".repeat(n), c),
        2 => format!("{{{{ {}{}() }}}}", "f".repeat(n), c),
        3 => format!("{}{}{{{{ $a", "\n".repeat(n), c),
        4 => format!("{}{}", "{{$a}}".repeat(k), c),
        5 => format!("{{{{ $a{}{} }}}}", ".a".repeat(k), c),
        6 => format!("{{{{ f({}{}) }}}}", "9".repeat(n), c),
        7 => format!("{{{{ f({}{}", "k=1,".repeat(k), c),
        8 => format!("{{{{{}{}", " \n".repeat(k), c),
        _ => format!("{}{}", "\\{{".repeat(k), c),
    };
    html_total(&s)
}
fn c01_md_large(_: usize) {
    let n = pick(&SIZES);
    let c = ascii(1);
    let k = n / 16;
    md_total(match choose(5) {
        0 => format!("---\n{}{}---\nx", "k: \"v\"\n".repeat(k), c),
        1 => format!("---\nk: \"{}{}\"\n---\nx", "v".repeat(n), c),
        2 => format!("---\n{}: \"v\"\n---\n{}", "k".repeat(n), c),
        3 => format!("---\nk: \"v\"\n---\n{}{}{{{{", "x\r\n".repeat(k), c),
        _ => format!("---{}{}", "-".repeat(n), c),
    })
}

// ---- C02 ----
fn c02_large(_: usize) {
    let n = pick(&SIZES);
    let fill = pick(&["x", "\n", "é", "{ ", "\\{{"]);
    let big = fill.repeat(n / fill.len());
    let t = text_in(2, b"{}\\a");
    match choose(3) {
        0 => c02_around_on(format!("{}{}", big, t), "b".into()),
        1 => c02_around_on("a".into(), format!("{}{}", t, big)),
        _ => c02_plain_on(&format!("{}{}", big, t)),
    }
}
/// Many tags: every stretch of text between them.
fn c02_many(_: usize) {
    let n = pick(&COUNTS);
    let t = text_in(1, b"}\\a\n");
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&format!("<{}>", i));
        if i == n - 2 {
            s.push_str(&t);
            s.push('.');
        }
        s.push_str("{{ $x }}");
    }
    s.push_str("z");
    let r = match parse_html(&s, Path::new("a.html"), None) {
        Ok(r) => r,
        Err(_) => fail("a valid template is rejected"),
    };
    let mut g = String::new();
    for x in &r {
        match &x.inner {
            Token::Raw(t) => g.push_str(t),
            Token::Variable(v) => {
                check(v == "x", "the tag has another variable");
                g.push_str("{{ $x }}");
            }
            Token::Function(_) => fail("a variable tag became a function"),
        }
    }
    eq(g.as_bytes(), s.as_bytes(), "text between tags is not reproduced exactly");
    cover("around");
}

// ---- C03 ----
fn c03_large(_: usize) {
    let n = pick(&[254usize, 255, 65535, 65536, 70000]);
    let c = text_in(1, b"\nx");
    let pre = match choose(3) {
        0 => format!("{}{}", "\n".repeat(n), c),
        1 => format!("{}{}", "x\r\n".repeat(n), c),
        _ => format!("{}{}", "{{ $a\n }}".repeat(n / 16), c),
    };
    let md = flip();
    let pre = if md { format!("---\nk: \"v\"\n---\n{}", pre) } else { pre };
    let (tag, closed) = pick(&[("{{ $b }}", true), BAD[0], BAD[5], BAD[7], BAD[8]]);
    let s = format!("{}{}\n\n", pre, tag);
    let path = if md { "d/a.md" } else { "d/a.html" };
    let (from, to) = (line_at(s.as_bytes(), pre.len()), line_at(s.as_bytes(), if closed { pre.len() + tag.len() - 1 } else { s.len() }));
    let r = if md { parse_markdown(s, Path::new(path), None).map(|_| 0) } else { parse_html(&s, Path::new(path), None).map(|t| t[t.len() - 2].line) };
    match r {
        Ok(l) => {
            check(closed && tag.contains('$'), "a malformed tag is accepted");
            observe(&l.to_le_bytes());
            check(md || (l >= from && l <= to), "a token's line is not that of its tag");
            cover("tokens");
        }
        Err(e) => {
            check(!tag.contains('$'), "a valid template is rejected");
            observe(&e.line.to_le_bytes());
            check(e.path == Path::new(path), "a parse error names another file");
            check(e.line >= from && e.line <= to, "a parse error's line is not that of the tag");
            cover("error");
        }
    }
}
fn c03_front_large(_: usize) {
    let n = pick(&[254usize, 255, 256, 300, 5000]);
    let nl = pick(&["\n", "\r\n"]);
    let mut s = format!("---{}", nl);
    for i in 0..n {
        s.push_str(&format!("k{}: \"v\"{}", i, nl));
    }
    let bad = flip();
    if bad {
        s.push_str(&format!("bad{}", nl));
    }
    s.push_str(&format!("---{}x{}{{{{ $y", nl, nl));
    match parse_markdown(s, Path::new("d/a.md"), None) {
        Ok(_) => fail("a malformed file is accepted"),
        Err(e) => {
            observe(&e.line.to_le_bytes());
            check(e.line as usize == if bad { n + 2 } else { n + 4 }, "an error is reported at another line");
            check(e.path == Path::new("d/a.md"), "an error names another file");
            cover("front");
        }
    }
}
fn c03_process_large(_: usize) {
    let n = pick(&[254usize, 255, 256, 65535, 65536, 70000]);
    let (tag, md) = (pick(&["{{ $nope }}", "{{ insert(\"nope\") }}", "{{ end(for) }}"]), flip());
    let c = text_in(1, b"\nx");
    let bad = format!("{}{}{}{}\n", if md { "---\nk: \"v\"\n---\n" } else { "" }, "\n".repeat(n), c, tag);
    let name = if md { "q.md" } else { "p.html" };
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ end(\"m\") }}"), (name, bad.as_bytes())]);
    match build() {
        Ok(_) => fail("a processing error is not reported"),
        Err(Error::Process(e)) => {
            observe(&e.line.to_le_bytes());
            check(e.path == Path::new(&format!("{}/{}", CONTENT, name)), "a processing error names another file");
            check(e.line == line_at(bad.as_bytes(), bad.len() - 2), "a processing error is reported at another line");
            cover("process");
        }
        Err(_) => fail("a processing error is reported as something else"),
    }
}

// ---- C04 ----
fn c04_large(_: usize) {
    let n = pick(&COUNTS);
    let c = text_in(1, b"a1\"$ ");
    c04_args_on(
        match choose(5) {
            0 => format!("{}\"{}b\"", "\"s\",$v,1,".repeat(n), c.replace('"', "")),
            1 => format!("\"{}{}\", $x", "=,() a$\n".repeat(n * 20), c),
            2 => format!("${}{}", "ab.".repeat(n), c),
            3 => (0..n).map(|i| format!("k{}={},", i, i)).collect::<String>() + &format!("z={}", c),
            _ => format!("{}\"a\",{}1", " \n".repeat(n), "\t\n".repeat(n)),
        },
        false,
    )
}

// ---- C05 ----
fn c05_index(_: usize) {
    let mut w = World::new();
    let n = pick(&COUNTS);
    w.json.push(("d.json".into(), obj(&[("l", J::Arr((0..n).map(|i| js(&format!("i{}", i))).collect()))])));
    let d = text_in(1, b"0567x");
    let p = format!("v.l.{}{}", pick(&["", "1", "3", "25", "29", "02", "6553"]), d);
    agree(&w, &[T::Imp("v".into(), "d.json".into()), var(&p)], &ins(), ("a variable does not give the value at its path", "a variable without a string value is not reported"));
}
fn c05_wide(_: usize) {
    let mut w = World::new();
    let n = pick(&COUNTS);
    // many keys with a common beginning, and a long one
    let mut f: Vec<(String, J)> = (0..n).map(|i| (format!("key{}", i), js(&format!("v{}", i)))).collect();
    f.push(("k".repeat(300), js("long")));
    w.json.push(("d.json".into(), J::Obj(f)));
    let p = if flip() { format!("v.key{}{}", pick(&["", "1", "2", "25", "29"]), text_in(1, b"0567x")) } else { format!("v.{}{}", "k".repeat(299), key(1).replace('a', "k")) };
    agree(&w, &[T::Imp("v".into(), "d.json".into()), var(&p)], &ins(), ("a variable does not give the value at its path", "a variable without a string value is not reported"));
}
fn c05_deep(_: usize) {
    let n = pick(&[8usize, 17, 33, 64]);
    let mut w = World::new();
    let mut j = obj(&[("a", js("in")), ("b", js("ib"))]);
    let mut p = String::from("v");
    for i in 0..n {
        j = if i % 3 == 1 { J::Arr(vec![js("o"), j]) } else { obj(&[("a", j), ("b", js("out"))]) };
    }
    for i in (0..n).rev() {
        p.push_str(if i % 3 == 1 { ".1" } else { ".a" });
    }
    w.json.push(("d.json".into(), j));
    p.push_str(&format!(".{}", key(1)));
    agree(&w, &[T::Imp("v".into(), "d.json".into()), var(&p)], &ins(), ("a variable does not give the value at its path", "a variable without a string value is not reported"));
}
/// Many scopes between a definition and its use, and many definitions in one scope.
fn c05_frames(_: usize) {
    let n = pick(&[8usize, 17, 33]);
    let mut w = World::new();
    w.json.push(("a.json".into(), obj(&[("k", js("A"))])));
    w.json.push(("b.json".into(), obj(&[("k", js("B"))])));
    let at = choose(3);
    let mut body = vec![var("x.k")];
    for i in 0..n {
        if at == 1 && i == n / 2 {
            body.insert(0, T::Imp("x".into(), "b.json".into()));
        }
        body.push(var("x.k"));
        body = if i % 2 == 0 { vec![T::Sec(format!("s{}", i), body), T::Imp(format!("y{}", i), "b.json".into())] } else { vec![T::If(0, A::Int(1), A::Int(1), body, None)] };
    }
    let mut all = vec![];
    for i in 0..pick(&[0usize, 300]) {
        all.push(T::Imp(format!("x{}", i), "b.json".into()));
    }
    if at < 2 {
        all.push(T::Imp("x".into(), "a.json".into()));
    }
    all.extend(body);
    let root = [T::Ins("m".into())];
    agree(&w, &all, &root, ("a variable does not have its innermost value", "an undefined variable is not reported"));
}
fn c05_long(_: usize) {
    let n = pick(&SIZES);
    let v = format!("{}{}", pick(&["x", "é"]).repeat(n), key(1));
    let d = format!("{{\"a\": \"{}\"}}", v);
    let r = render_body(b"{{ import($v, \"d.json\") }}<{{ $v.a }}>", &[("d.json", d.as_bytes())]);
    match r {
        Ok(g) => {
            eq(&g, format!("[<{}>]", v).as_bytes(), "a variable does not give the value at its path");
            cover("rendered");
        }
        Err(_) => fail("a defined string variable is an error"),
    }
}

// ---- C06 ----
fn c06_long(_: usize) {
    let n = pick(&[15usize, 16, 255, 256, 5000]);
    let (a, b) = (format!("{}{}", "x".repeat(n), key(1)), format!("{}{}", "x".repeat(n + choose(2)), key(1)));
    let op = choose(6);
    let (p, q) = if flip() { ("$a".to_string(), "$b".to_string()) } else { (format!("\"{}\"", a), "$b".to_string()) };
    let body = format!("{{{{ import($a, \"a.json\") }}}}{{{{ import($b, \"b.json\") }}}}<{{{{ {}({}, {}) }}}}T{{{{ else() }}}}F{{{{ end({}) }}}}>", OPS[op], p, q, OPS[op]);
    let r = direct(vec![("a", Value::String(a.clone())), ("b", Value::String(b.clone()))], &body);
    branch(&r, holds(op, &J::Str(a), &J::Str(b)));
}
fn c06_deep(_: usize) {
    let n = pick(&[8usize, 17, 33, 64]);
    let at = choose(3);
    let c = flip();
    let els = flip();
    let mut body = vec![raw("*")];
    for i in 0..n {
        // one of the conditions may fail
        let ok = !(i == [0, n / 2, n - 1][at]) || c;
        let o = T::If(0, A::Int(1), A::Int(if ok { 1 } else { 2 }), body, if els { Some(vec![raw("-"), if ok { var("undefined") } else { raw("+") }]) } else { None });
        body = vec![raw("("), o, raw(")")];
    }
    agree(&World::new(), &body, &ins(), ("the branch not taken has an effect, or output resumes elsewhere than after the end", "the branch not taken has an effect, or output resumes elsewhere than after the end"));
}
fn c06_many(_: usize) {
    let n = pick(&COUNTS);
    let c = flip();
    let mut skipped = Vec::new();
    for i in 0..n {
        skipped.push(T::If(i % 6, A::Var("undefined".into()), A::Int(1), vec![raw("a"), var("undefined")], if i % 2 == 0 { Some(vec![raw("b")]) } else { None }));
        skipped.push(raw("t"));
    }
    let mut taken = Vec::new();
    for i in 0..n {
        taken.push(T::If(0, A::Int(i as i32), A::Int(255), vec![raw("Y")], Some(vec![raw("n")])));
    }
    let body = [raw("<"), T::If(0, A::Int(1), A::Int(if c { 1 } else { 2 }), if c { taken.clone() } else { skipped.clone() }, Some(if c { skipped } else { taken })), raw(">")];
    agree(&World::new(), &body, &ins(), ("the branch not taken has an effect, or output resumes elsewhere than after the end", "the branch not taken has an effect, or output resumes elsewhere than after the end"));
}

// ---- C07 ----
fn item(i: usize, k: &str) -> J {
    obj(&[("id", js(&i.to_string())), ("k", js(k)), ("date", js(k))])
}
fn c07_count(_: usize) {
    let n = pick(&COUNTS);
    let items: Vec<J> = (0..n).map(|i| item(i, "d")).collect();
    let mut w = World::new();
    let mut l = lp("x", Src::Json("l.json".into()), vec![var("x.id"), raw(",")]);
    if flip() {
        w.json.push(("l.json".into(), J::Arr(items)));
    } else {
        w.dirs.push(("posts/".into(), items));
        l.src = Src::Dir("posts/".into());
    }
    l.skip = pick(&[None, Some(1), Some(255), Some(256), Some(299), Some(65536)]);
    l.limit = pick(&[None, Some(1), Some(255), Some(256), Some(299), Some(65536)]);
    l.order = pick(&[None, Some(true)]);
    loop_agree(&w, &[T::For(l), raw("z")]);
}
/// More items than any sorting network or insertion sort takes, with equal keys.
fn c07_sorted(_: usize) {
    let n = pick(&[5usize, 17, 21, 33, 51, 300]);
    let sym = plain_key(1);
    let items: Vec<J> = (0..n)
        .map(|i| {
            if i == n / 2 {
                return item(i, &sym);
            }
            match i % 5 {
                0 => obj(&[("id", js(&i.to_string()))]),
                1 => obj(&[("id", js(&i.to_string())), ("k", J::Num(1.0))]),
                _ => item(i, &["b", "aa", "c", "a", "B", "10"][i * 7 % 6]),
            }
        })
        .collect();
    let mut w = World::new();
    w.json.push(("l.json".into(), J::Arr(items)));
    let mut l = lp("x", Src::Json("l.json".into()), vec![var("x.id"), raw(",")]);
    l.sort = Some("x.k".into());
    l.order = pick(&[None, Some(false), Some(true)]);
    agree(&w, &[T::For(l), raw("z")], &ins(), ("a loop does not render its items in sorted order", "a sorted loop fails"));
}
/// Keys that differ only far from their beginning.
fn c07_keys(_: usize) {
    let n = pick(&[7usize, 15, 16, 255, 256, 5000]);
    let mut w = World::new();
    let items: Vec<J> = (0..3).map(|i| item(i, &format!("{}{}", "k".repeat(n + (i == 1) as usize), plain_key(1)))).collect();
    w.json.push(("l.json".into(), J::Arr(items)));
    let mut l = lp("x", Src::Json("l.json".into()), vec![var("x.id"), raw(",")]);
    l.sort = Some("x.k".into());
    l.order = pick(&[None, Some(true)]);
    agree(&w, &[T::For(l), raw("z")], &ins(), ("a loop does not render its items in sorted order", "a sorted loop fails"));
}
fn c07_deep(_: usize) {
    let n = pick(&[3usize, 6, 9]);
    let mut w = World::new();
    let mut body = vec![raw("."), var("x0.k")];
    for i in (0..n).rev() {
        let two = i == n / 2;
        let name = format!("l{}.json", two as usize);
        let mut l = lp(&format!("x{}", i), Src::Json(name), body);
        l.limit = if flip() { Some(1) } else { None };
        body = vec![raw("<"), T::For(l), raw(">")];
    }
    w.json.push(("l0.json".into(), J::Arr(vec![item(0, "a"), item(1, "b")])));
    w.json.push(("l1.json".into(), J::Arr(vec![item(0, "c"), item(1, "d"), item(2, "e")])));
    agree(&w, &body, &ins(), ("a loop does not render its items as selected", "a loop over something else than items is not reported"));
}

// ---- C08 ----
fn c08_many(_: usize) {
    let n = pick(&COUNTS);
    let at = [0, n / 2, n - 1][choose(3)];
    let nested = flip();
    let mut body = Vec::new();
    for i in 0..n {
        body.push(T::Sec(format!("s{}", i), vec![raw(&format!("<{}>", i))]));
    }
    if nested {
        body = vec![T::Sec("o".into(), body)];
    }
    let lab = format!("s{}{}", at, text_in(1, b"0x").replace('x', ""));
    let root = [T::Ins(lab), raw("-"), T::Ins("s0".into()), T::Ins(format!("s{}", n - 1))];
    agree(&World::new(), &body, &root, ("an inserted section differs from what the page defines", "inserting a missing section is not reported"));
}
fn c08_deep(_: usize) {
    let n = pick(&[8usize, 17, 33, 64]);
    let mut body = vec![raw("*")];
    for i in 0..n {
        body = vec![raw("("), T::Sec(format!("s{}", i), body), raw(")")];
    }
    let k = [0, n / 2, n - 1][choose(3)];
    let root = [raw("<"), T::Ins(format!("s{}", k)), raw(">"), T::Ins("s0".into())];
    agree(&World::new(), &body, &root, ("an inserted section differs from what the page defines", "inserting a missing section is not reported"));
}
fn c08_long(_: usize) {
    let n = pick(&SIZES);
    let t = format!("{}{}", pick(&["x", "é", "a\n"]).repeat(n), key(1));
    let lab = format!("{}{}", "s".repeat(pick(&[1usize, 255, 256, 300])), key(1));
    let end = format!("{}{}", &lab[..lab.len() - 1], key(1));
    let p = format!("{{{{ begin(\"{}\") }}}}{}{{{{ end(\"{}\") }}}}", lab, t, end);
    let root = format!("1{{{{ insert(\"{}\") }}}}2{{{{ insert(\"{}\") }}}}", lab, lab);
    site(&[("root.html", root.as_bytes()), ("p.html", p.as_bytes())]);
    match build() {
        Ok(s) => {
            check(lab == end, "an end with another label closes a section");
            eq(&page(&s, "p.html").unwrap_or_default(), format!("1{}2{}", t, t).as_bytes(), "an inserted section differs from what the page defines");
            cover("rendered");
        }
        Err(_) => {
            check(lab != end, "a properly nested template is rejected");
            cover("rejected");
        }
    }
}

// ---- C09 ----
fn c09_large(_: usize) {
    let n = pick(&SIZES);
    let k = pick(&[0usize, 255, 256, 257, 1000, 65535, 65536, 69999, 70000, 70001, 2147483647]);
    let u = pick(&["x", "é", "<b>y</b>", "€ "]);
    c09_on(format!("{}{}", u.repeat(n / u.len()), text_in(1, b"<>a")), k)
}

// ---- C10 ----
fn c10_large(_: usize) {
    let k = pick(&[25398usize, 25598, 25798, 50998, 51198, 51398, 65534, 65735]);
    let sep = pick(&[" ", "\n", "\u{3000}"]);
    c10_on(format!("{}{}", format!("w{}", sep).repeat(k), ascii(2)))
}

// ---- C11 ----
fn c11_large(_: usize) {
    let n = pick(&COUNTS);
    let deep = pick(&[0usize, 1, 20]);
    let last = format!("f{}{}", n - 1, text_in(1, b"0x"));
    let mk = |tag: &str, names: Vec<String>, base: &str| {
        let mut p = base.to_string();
        for _ in 0..deep {
            p.push_str("/d");
        }
        let mut v: Vec<Node> = names.iter().map(|x| file(x, tag.as_bytes(), ParsedContents::None, &format!("{}/{}", p, x))).collect();
        for _ in 0..deep {
            let up = p[..p.len() - 2].to_string();
            v = vec![dir("d", v, &p)];
            p = up;
        }
        dir("t", v, base)
    };
    let a = mk("A", (0..n).map(|i| format!("f{}x", i)).collect(), "/in");
    let b = mk("B", (0..n).map(|i| if i == n / 2 { last.clone() } else { format!("g{}", i) }).collect(), "/st");
    merge_on(a, b)
}

// ---- C12 ----
fn c12_large(_: usize) {
    let c = config();
    let n = pick(&[17usize, 127, 256, 300]);
    let deep = pick(&[0usize, 1, 20]);
    let mut files: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, bool)> = Vec::new();
    let mut dirs: Vec<Vec<u8>> = Vec::new();
    let mut pre = String::new();
    for i in 0..deep {
        if i > 0 {
            pre.push('/');
        }
        pre.push('d');
        dirs.push(pre.clone().into_bytes());
    }
    let mut v = Vec::new();
    for i in 0..n {
        let page = i % 3 != 1;
        let name = match i % 4 {
            0 => format!("{}p{}.html", "n".repeat(if i == 4 { 200 } else { 0 }), i),
            1 => format!("q{}.json", i),
            2 => format!("r{}", i),
            _ => format!("s{}.css", i),
        };
        let data = if i + 1 == n { vec![byte(), byte()] } else { format!("{}", i).into_bytes() };
        v.push(file(&name, &data, if page { ParsedContents::None } else { ParsedContents::Ignored }, "/src/x"));
        files.push((pre.clone().into_bytes(), name.into_bytes(), data, page));
    }
    for _ in 0..deep {
        v = vec![dir("d", v, "/src/d")];
    }
    fs().put_dir("/w");
    fs().put("/w/keep/me", b"k");
    for i in 0..pick(&[0usize, 300]) {
        fs().put(&format!("/w/dist/old/{}/f", i), b"old");
    }
    let want = expect(&files, &dirs, &c);
    compare_out(dir("o", v, "/src").save(OUT, &c), want)
}
fn c12_long(_: usize) {
    let c = config();
    let n = pick(&SIZES);
    let mut data = vec![b'x'; n];
    for p in [0, 255, 256, n - 2, n - 1] {
        if p < n {
            data[p] = byte();
        }
    }
    let page = flip();
    let v = vec![file("a.html", &data, if page { ParsedContents::None } else { ParsedContents::Ignored }, "/src/x")];
    fs().put_dir("/w");
    fs().put("/w/keep/me", b"k");
    fs().put("/w/dist/a.html", &vec![b'o'; n + 5]);
    let want = expect(&[(vec![], b"a.html".to_vec(), data, page)], &[], &c);
    compare_out(dir("o", v, "/src").save(OUT, &c), want)
}

// ---- C14 ----
fn c14_deep(_: usize) {
    let n = pick(&[9usize, 17, 20]);
    let (r, m, m2) = (choose(n + 1), choose(2) * n / 2, flip());
    let path = |k: usize| "d/".repeat(k);
    let at = n;
    let t = text_in(1, b"abc");
    let page = format!("---\nt: \"{}\"\n---\n", t);
    let mut put = vec![
        (format!("{}root.html", path(0)), b"R0({{ insert(\"m\") }})".to_vec()),
        (format!("{}md.html", path(m)), b"{{ begin(\"m\") }}M1({{ $self.t }}){{ end(\"m\") }}".to_vec()),
        (format!("{}p.md", path(at)), page.into_bytes()),
    ];
    if r > 0 {
        put.push((format!("{}root.html", path(r)), b"R1({{ insert(\"m\") }})".to_vec()));
    }
    if m2 {
        put.push((format!("{}md.html", path(at - 1)), b"{{ begin(\"m\") }}M2({{ $self.t }}){{ end(\"m\") }}".to_vec()));
    }
    let fl: Vec<(&str, &[u8])> = put.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
    fs().rev = flip();
    site(&fl);
    match build() {
        Ok(s) => {
            let g = page_or(&s, &format!("{}p.html", path(at)));
            eq(&g, format!("R{}(M{}({}))", (r > 0) as u8, 1 + m2 as u8, t).as_bytes(), "the page is not rendered with the nearest templates");
            cover("rendered");
        }
        Err(_) => fail("a page with templates is rejected"),
    }
}
fn page_or(s: &Stuart, p: &str) -> Vec<u8> {
    match page(s, p) {
        Some(g) => {
            observe(&g);
            g
        }
        None => fail("the page is missing from the output"),
    }
}
fn c14_wide(_: usize) {
    let n = pick(&[17usize, 127, 256, 300]);
    let at = [0, n / 2, n - 1][choose(3)];
    let t = text_in(1, b"abc");
    let mut put = vec![("root.html".to_string(), b"R({{ insert(\"m\") }})".to_vec())];
    for i in 0..n {
        if i == at {
            put.push((format!("d{}/root.html", i), b"S({{ insert(\"m\") }})".to_vec()));
        }
        put.push((format!("d{}/p.html", i), format!("{{{{ begin(\"m\") }}}}{}{}{{{{ end(\"m\") }}}}", i, t).into_bytes()));
    }
    let fl: Vec<(&str, &[u8])> = put.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
    fs().rev = flip();
    site(&fl);
    match build() {
        Ok(s) => {
            for i in 0..n {
                let g = page_or(&s, &format!("d{}/p.html", i));
                eq(&g, format!("{}({}{})", if i == at { "S" } else { "R" }, i, t).as_bytes(), "the page is not rendered with the nearest templates");
            }
            cover("rendered");
        }
        Err(_) => fail("a page with templates is rejected"),
    }
}

// ---- C15 ----
fn c15_large(_: usize) {
    let n = pick(&[17usize, 255, 256, 300, 5000]);
    let nl = pick(&["\n", "\r\n"]);
    let c = text_in(1, b"\"a:- ");
    let mut t = format!("---{}", nl);
    match choose(4) {
        0 => {
            for i in 0..n {
                t.push_str(&format!("k{}: \"v{}\"{}", i, i, nl));
            }
            t.push_str(&format!("z: \"{}\"{}", c, nl));
        }
        1 => t.push_str(&format!("k: \"{}{}\"{}", "v: -".repeat(n), c, nl)),
        2 => t.push_str(&format!("{}{}: \"v\"{}", "k -".repeat(n), c, nl)),
        _ => t.push_str(&format!("k:{}\"v\"{}{}", " ".repeat(n), " ".repeat(n), nl)),
    }
    t.push_str(&format!("---{}{}{}", nl, format!("body {}", nl).repeat(pick(&[1, n])), c));
    front_on(t.into_bytes())
}

// ---- C16 ----
fn c16_large(_: usize) {
    let n = pick(&COUNTS);
    let deep = pick(&[0usize, 20]);
    let pre = "d/".repeat(deep);
    let c = text_in(2, b"a\"\\");
    let esc = c.replace('\\', "\\\\").replace('"', "\\\"");
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ end(\"m\") }}")]);
    let root = |n: &str| obj(&[("name", js(n)), ("type", js("file"))]);
    let mut kids = Vec::new();
    for i in 0..n {
        let (name, data, out, v) = match i % 3 {
            0 => (format!("f{}.css", i), "x".to_string(), format!("f{}.css", i), root(&format!("f{}.css", i))),
            1 => {
                let name = format!("f{}.json", i);
                let d = if i == 1 { J::Arr((0..n).map(|k| J::Num(k as f64)).collect()) } else { J::Num(i as f64) };
                (name.clone(), d.json(), name.clone(), obj(&[("name", js(&name)), ("type", js("json")), ("value", d)]))
            }
            _ => {
                let out = format!("f{}.html", i);
                let v = if i == 2 { c.repeat(n) } else { i.to_string() };
                (format!("f{}.md", i), format!("---\nt: \"{}\"\n---\n", v), out.clone(), obj(&[("name", js(&out)), ("type", js("markdown")), ("value", obj(&[("t", J::Str(v))]))]))
            }
        };
        let _ = out;
        fs().put(&format!("{}/{}{}", CONTENT, pre, name), data.as_bytes());
        kids.push(v);
    }
    let _ = esc;
    for _ in 0..deep {
        kids = vec![obj(&[("type", js("directory")), ("name", js("d")), ("children", J::Arr(kids))])];
    }
    let mut all = vec![root("root.html"), root("md.html")];
    all.extend(kids);
    let cfg = Config { name: "n".into(), author: None, strip_extensions: true, save_data_files: false, save_metadata: true };
    let st = match build_with(cfg) {
        Ok(s) => s,
        Err(_) => fail("a valid site is rejected"),
    };
    let g = meta_of(&st);
    let w = obj(&[("name", js("n")), ("author", J::Null), ("data", J::Arr(all))]);
    check(same_j(&g, &w), "the metadata does not describe the output tree");
    cover("tree");
}

// ---- C17 ----
fn c17_large(_: usize) {
    let n = pick(&COUNTS);
    let x = J::Str(key(2));
    let j = match choose(5) {
        0 => J::Arr((0..n).map(|i| if i == n - 1 { x.clone() } else { J::Num(i as f64) }).collect()),
        1 => J::Obj((0..n).map(|i| (format!("k{}", i), if i == n - 1 { x.clone() } else { J::Num(i as f64) })).collect()),
        2 => js(&format!("{}{}", "s".repeat(n * 200), key(1))),
        3 => obj(&[(&format!("{}{}", "k".repeat(n), key(1)), x)]),
        _ => {
            let mut j = x;
            for i in 0..n.min(64) {
                j = if i % 2 == 0 { J::Arr(vec![j]) } else { obj(&[("a", j)]) };
            }
            j
        }
    };
    let body = b"{{ begin(\"m\") }}{{ import($v, \"sub/d.json\") }}{{ p::dump($v) }}{{ end(\"m\") }}";
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("p.html", body), ("sub/d.json", j.json().as_bytes())]);
    unsafe { DUMP = None };
    let mut s = Stuart::new(CONTENT).with_plugins(dumper());
    match s.build("production".into()) {
        Err(_) => fail("importing a JSON file fails"),
        Ok(()) => match unsafe { (*std::ptr::addr_of_mut!(DUMP)).take() } {
            None => fail("the imported variable is not defined"),
            Some(v) => {
                check(same(&v, &j), "the imported variable is not the value of the file");
                cover("value");
            }
        },
    }
}
/// A file deep in the tree, one of many.
fn c17_far(_: usize) {
    let n = pick(&[9usize, 17, 20]);
    let p = format!("{}f{}.json", "d/".repeat(n - choose(2)), text_in(1, b"0129"));
    let mut w = World::new();
    for i in 0..3 {
        w.json.push((format!("{}f{}.json", "d/".repeat(n), i), js(&format!("v{}", i))));
    }
    for i in 0..pick(&[0usize, 300]) {
        w.json.push((format!("x{}.json", i), js("no")));
    }
    agree(&w, &[T::Imp("v".into(), p), var("v")], &ins(), ("import binds another file", "import accepts a path that names no JSON file"));
}

// ---- C24 ----
fn c24_large(_: usize) {
    let n = pick(&[255usize, 256, 300, 4000]);
    let c = text_in(1, b"*_`a\n");
    let (f, t) = match choose(4) {
        0 => ("", format!("{}{}", "word *em* ".repeat(n), c)),
        1 => ("", format!("{}{}", "line\n\n".repeat(n), c)),
        2 => ("", format!("{}{}", "- item\n".repeat(n), c)),
        _ => ("---\nt: \"T\"\n---\n", "x".repeat(n * 18)),
    };
    site(&[("root.html", b"{{ insert(\"m\") }}"), ("md.html", b"{{ begin(\"m\") }}{{ $self.content }}|{{ $self.markdown }}{{ end(\"m\") }}"), ("p.md", format!("{}{}", f, t).as_bytes())]);
    let text = if t.ends_with('\n') { &t[..t.len() - 1] } else { &t[..] };
    match build() {
        Ok(s) => {
            eq(&page_or(&s, "p.html"), format!("{}|{}", crate::more::convert(&t), text).as_bytes(), "the page is not its body converted to HTML");
            cover("rendered");
        }
        Err(_) => fail("a valid markdown body is rejected"),
    }
}
fn c24_many(_: usize) {
    let n = pick(&[17usize, 127, 256, 300]);
    let c = text_in(1, b"xyz");
    site(&[
        ("root.html", b"[{{ insert(\"m\") }}]"),
        ("md.html", b"{{ begin(\"m\") }}{{ $self.content }}{{ end(\"m\") }}"),
        ("z.html", b"{{ begin(\"m\") }}{{ for($p, \"posts/\") }}{{ $p.t }}|{{ $p.content }};{{ end(for) }}{{ end(\"m\") }}"),
    ]);
    let mut want = String::from("[");
    for i in 0..n {
        let last = if i + 1 == n { &c[..] } else { "w" };
        fs().put(&format!("{}/posts/p{}.md", CONTENT, i), format!("---\nt: \"{}\"\n---\n*{}* {}", i, i, last).as_bytes());
        want.push_str(&format!("{}|<p><em>{}</em> {}</p>\n;", i, i, last));
    }
    want.push(']');
    match build() {
        Ok(s) => {
            eq(&page_or(&s, "z.html"), want.as_bytes(), "a listing does not show the converted pages");
            eq(&page_or(&s, &format!("posts/p{}.html", n - 1)), format!("[<p><em>{}</em> {}</p>\n]", n - 1, c).as_bytes(), "the page is not its expanded body converted to HTML");
            cover("rendered");
        }
        Err(_) => fail("a valid site is rejected"),
    }
}

// ---- C25 ----
fn c25_large(_: usize) {
    let n = pick(&COUNTS);
    let len = pick(&[1usize, 255, 256, 70000]);
    let value = format!("{}{}", "v".repeat(len), key(1)).into_bytes();
    let at = [0, n / 2, n][choose(3)];
    let names: Vec<String> = (0..n).map(|i| format!("VAR_{}", i)).collect();
    let long = "L".repeat(len);
    let mut vars: Vec<(&[u8], &[u8])> = names.iter().map(|x| (x.as_bytes(), &b"o"[..])).collect();
    vars.insert(at, (long.as_bytes(), &value));
    set_env(&vars);
    let r = render_body(format!("{{{{ $env.{} }}}}|{{{{ $env.VAR_{} }}}}", long, n - 1).as_bytes(), &[]);
    match r {
        Ok(g) => {
            let mut w = b"[".to_vec();
            w.extend_from_slice(&value);
            w.extend_from_slice(b"|o]");
            eq(&g, &w, "$env does not hold the value of the environment variable");
            cover("value");
        }
        Err(_) => fail("a variable of the environment is missing from $env"),
    }
}

entries! {
    c01_large(n): h_c01_large = 0;
    c01_md_large(n): h_c01_mdlarge = 0;
    c02_large(n): h_c02_large = 0;
    c02_many(n): h_c02_many = 0;
    c03_large(n): h_c03_large = 0;
    c03_front_large(n): h_c03_frontlarge = 0;
    c03_process_large(n): h_c03_proclarge = 0;
    c04_large(n): h_c04_large = 0;
    c05_index(n): h_c05_index = 0;
    c05_wide(n): h_c05_wide = 0;
    c05_deep(n): h_c05_deep = 0;
    c05_frames(n): h_c05_frames = 0;
    c05_long(n): h_c05_long = 0;
    c06_long(n): h_c06_long = 0;
    c06_deep(n): h_c06_deep = 0;
    c06_many(n): h_c06_many = 0;
    c07_count(n): h_c07_count = 0;
    c07_sorted(n): h_c07_sorted = 0;
    c07_keys(n): h_c07_keys = 0;
    c07_deep(n): h_c07_deep = 0;
    c08_many(n): h_c08_many = 0;
    c08_deep(n): h_c08_deep = 0;
    c08_long(n): h_c08_long = 0;
    c09_large(n): h_c09_large = 0;
    c10_large(n): h_c10_large = 0;
    c11_large(n): h_c11_large = 0;
    c12_large(n): h_c12_large = 0;
    c12_long(n): h_c12_long = 0;
    c14_deep(n): h_c14_deep = 0;
    c14_wide(n): h_c14_wide = 0;
    c15_large(n): h_c15_large = 0;
    c16_large(n): h_c16_large = 0;
    c17_large(n): h_c17_large = 0;
    c17_far(n): h_c17_far = 0;
    c24_large(n): h_c24_large = 0;
    c24_many(n): h_c24_many = 0;
    c25_large(n): h_c25_large = 0;
}
