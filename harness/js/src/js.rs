//! C29 (JavaScript plugins).
use crate::build::StuartContext;
use crate::hcommon::*;
use crate::vm::*;
use crate::vm::{vm, Kind};
use std::cell::RefCell;
use std::rc::Rc;

// ---- JSON ----
#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
const NUMS: [&str; 6] = ["0", "-1.5", "1e21", "0.1", "4294967296", "-0.0"];
const STRS: [&str; 4] = ["", "a\u{e9}\u{1f600}", "x\\\"y", "__proto__"];
const KEYS: [&str; 9] = ["a", "b", "__proto__", "length", "1", "0", "10", "toString", "\u{e9}"];
fn json(j: &J, o: &mut Vec<u8>) {
    match j {
        J::Null => o.extend(b"null"),
        J::Bool(b) => o.extend(if *b { &b"true"[..] } else { b"false" }),
        J::Num(n) => {
            for t in NUMS {
                if t.parse::<f64>().unwrap().to_bits() == n.to_bits() {
                    o.extend(t.as_bytes());
                }
            }
        }
        J::Str(s) => {
            o.push(b'"');
            for b in s {
                if *b == b'"' || *b == b'\\' {
                    o.push(b'\\');
                }
                o.push(*b);
            }
            o.push(b'"');
        }
        J::Arr(a) => {
            o.push(b'[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(b',');
                }
                json(x, o);
            }
            o.push(b']');
        }
        J::Obj(m) => {
            o.push(b'{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push(b',');
                }
                json(&J::Str(k.as_bytes().to_vec()), o);
                o.push(b':');
                json(x, o);
            }
            o.push(b'}');
        }
    }
}
fn string_of(s: &str) -> J {
    J::Str(s.as_bytes().to_vec())
}
fn scalar() -> J {
    match choose(5) {
        0 => J::Null,
        1 => J::Bool(flip()),
        2 => J::Num(pick(&NUMS).parse().unwrap()),
        3 => string_of(pick(&STRS)),
        _ => {
            // one arbitrary printable character which needs no escape
            let b = byte();
            assume(b >= 32 && b < 127 && b != b'"' && b != b'\\');
            J::Str(vec![b'<', b])
        }
    }
}
fn tree(d: usize) -> J {
    if d == 0 {
        return scalar();
    }
    match choose(7) {
        0 => scalar(),
        1 => J::Arr(vec![]),
        2 => J::Arr(vec![tree(d - 1)]),
        3 => J::Arr(vec![pick(&[J::Null, J::Bool(false)].map(|j| Some(Box::leak(Box::new(j)) as &J))).unwrap().clone(), tree(d - 1), string_of("z")]),
        4 => J::Obj(vec![]),
        5 => J::Obj(vec![(pick(&KEYS), tree(d - 1))]),
        _ => {
            let a = choose(KEYS.len());
            let b = choose(KEYS.len());
            assume(a != b);
            J::Obj(vec![(KEYS[a], J::Num(0.1)), (KEYS[b], string_of("z"))])
        }
    }
}
/// The value of JavaScript is what the JSON says.
fn same(j: &J, v: V) -> bool {
    match (j, kind(v)) {
        (J::Null, Kind::Null) => true,
        (J::Bool(a), Kind::Bool(b)) => a == b,
        (J::Num(a), Kind::Num(b)) => a.to_bits() == b.to_bits(),
        (J::Str(a), Kind::Str(b)) => a.len() == b.len() && a == b,
        (J::Arr(a), Kind::Array(b)) => a.len() == b.len() && own_count(v) == 0 && a.iter().zip(b.iter()).all(|(a, b)| b.map_or(false, |b| same(a, b))),
        (J::Obj(m), Kind::Object) => {
            plain(v)
                && own_count(v) == m.len()
                && m.iter().all(|(k, x)| match own(v, v, k.as_bytes()) {
                    Some(Ok(y)) => same(x, y),
                    _ => false,
                })
        }
        _ => false,
    }
}
fn is_text(v: V, t: &str) -> bool {
    matches!(kind(v), Kind::Str(s) if s == t.as_bytes())
}

// ---- the project ----
/// The default export of a module: its name and its functions.
fn export(name: &str, funs: Vec<(&str, V)>) -> V {
    let d = object();
    define(d, b"name", string(name));
    define(d, b"version", string("1.0.0"));
    let a: Vec<Option<V>> = funs
        .into_iter()
        .map(|(n, f)| {
            let x = object();
            define(x, b"name", string(n));
            define(x, b"fn", f);
            Some(x)
        })
        .collect();
    define(d, b"functions", array(a));
    d
}
fn module(file: &str, source: &str, run: impl Fn() -> Result<Option<V>, V> + 'static) {
    fs().put(&format!("/w/p/{}", file), source.as_bytes());
    vm().defs.push(Def { source: source.as_bytes().to_vec(), compiles: true, links: true, run: Rc::new(run) });
}
fn project(deps: &[(&str, &str)], page: &[u8]) {
    let f = fs();
    let mut m = String::from("[site]\nname = \"s\"\n[dependencies]\n");
    for (n, s) in deps {
        m += &format!("{} = \"{}\"\n", n, s);
    }
    f.put("/w/p/stuart.toml", m.as_bytes());
    f.put("/w/p/content/root.html", b"<{{ insert(\"m\") }}>");
    f.put("/w/p/content/index.html", &[b"{{ begin(\"m\") }}", page, b"{{ end(\"m\") }}"].concat());
    f.chdir("/w/p");
    set_env(&[(b"HOME", b"/root")]);
}
fn build() -> Result<Vec<u8>, ()> {
    let r = StuartContext::init("stuart.toml", "dist", "production").and_then(|mut c| c.build());
    observe(&[r.is_ok() as u8]);
    if let Err(e) = &r {
        e.print();
        return Err(());
    }
    match fs().get("/w/p/dist/index.html") {
        Some(d) => {
            observe(d);
            Ok(d.to_vec())
        }
        None => fail("a build which succeeds wrote no page"),
    }
}
/// The build succeeds and the page is this.
fn gives(want: &[u8]) {
    match build() {
        Ok(d) => eq(&d, &[b"<", want, b">"].concat(), "the page is not what the plugin's functions give"),
        Err(()) => fail("a build fails for no reason"),
    }
}

// ---- arguments ----
fn c29_args(n: usize) {
    let j = tree(n);
    let mut data = Vec::new();
    json(&j, &mut data);
    fs().put("/w/p/content/d.json", &[b"{\"k\": {\"j\": ", &data[..], b"}, \"s\": \"S\"}"].concat());
    module("p.js", "M", move || {
        let j = j.clone();
        let f = function(move |_, a| {
            check(a.len() == 4, "a plugin's function is called with another number of arguments");
            check(same(&j, a[0]), "an argument differs from the value of the variable");
            check(is_text(a[1], "li\u{e9} \\t") && matches!(kind(a[2]), Kind::Num(n) if *n == -7.0), "a literal argument differs");
            check(is_text(a[3], "S"), "an argument differs from the value of the variable");
            cover("called");
            Ok(string("ok"))
        });
        Ok(Some(export("p", vec![("f", f)])))
    });
    project(&[("p", "p.js")], "{{ import($d, \"d.json\") }}{{ p::f($d.k.j, \"li\u{e9} \\t\", -7, $d.s) }}".as_bytes());
    gives(b"ok");
    check(vm().calls == 1, "a plugin's function is not called once for its tag");
}

/// A function with an argument that is not defined is an error and is not called.
fn c29_undefined(_n: usize) {
    let call = pick(&["p::f($gone)", "f(\"x\", $d.s, $gone.a)", "f($D)", "p::f($d.s)"]);
    let ok = call == "p::f($d.s)";
    fs().put("/w/p/content/d.json", b"{\"s\": \"S\"}");
    module("p.js", "M", move || {
        let f = function(move |_, a| {
            check(ok && a.len() == 1 && is_text(a[0], "S"), "a function is called with a variable that is not defined");
            Ok(a[0])
        });
        Ok(Some(export("p", vec![("f", f)])))
    });
    project(&[("p", "p.js")], format!("{{{{ import($d, \"d.json\") }}}}{{{{ {} }}}}", call).as_bytes());
    if ok {
        cover("defined");
        gives(b"S");
    } else {
        cover("undefined");
        check(build().is_err(), "a variable which is not defined is passed to a plugin");
    }
}

// ---- STUART.set ----
/// A value of JavaScript, and what it is in JSON.
fn value_tree(d: usize, parents: &[V]) -> (V, Option<J>) {
    let leaf = if d == 0 { 7 } else { 13 };
    match choose(leaf) {
        0 => (undefined(), None),
        1 => (null(), Some(J::Null)),
        2 => (boolean(true), Some(J::Bool(true))),
        3 => {
            let n: f64 = pick(&NUMS).parse().unwrap();
            (num(n), Some(J::Num(n)))
        }
        4 => {
            let b = byte();
            assume(b < 128);
            let t = vec![0xc3, 0xa9, b];
            (value(Kind::Str(t.clone())), Some(J::Str(t)))
        }
        5 => (value(if flip() { Kind::Symbol } else { Kind::BigInt }), None),
        6 => match parents.len() {
            0 => (array(vec![]), Some(J::Arr(vec![]))),
            k => (parents[choose(k)], None),
        },
        // arrays
        7 => {
            let a = array(vec![]);
            let (x, j) = value_tree(d - 1, &[parents, &[a][..]].concat());
            *kind(a) = Kind::Array(vec![Some(x), Some(string("z"))]);
            (a, Some(J::Arr(vec![j.unwrap_or(J::Null), string_of("z")])))
        }
        8 => (array(vec![None, Some(num(0.1)), None]), Some(J::Arr(vec![J::Null, J::Num(0.1), J::Null]))),
        // objects
        9 => {
            let o = object();
            let k = pick(&KEYS);
            let (x, j) = value_tree(d - 1, &[parents, &[o][..]].concat());
            define(o, k.as_bytes(), x);
            define(o, b"zz", string("z"));
            let mut m = vec![("zz", string_of("z"))];
            if let Some(j) = j {
                m.push((k, j));
            }
            (o, Some(J::Obj(m)))
        }
        10 => {
            // the same object twice is not an object within itself
            let o = object();
            let (x, j) = value_tree(0, &[]);
            let i = array(vec![Some(x)]);
            let j = J::Arr(vec![j.unwrap_or(J::Null)]);
            define(o, b"a", i);
            define(o, b"b", i);
            (o, Some(J::Obj(vec![("a", j.clone()), ("b", j)])))
        }
        11 => {
            let o = object();
            let (x, j) = value_tree(d - 1, &[parents, &[o][..]].concat());
            getter(o, "g", move |_, _| Ok(x));
            let m = j.map(|j| vec![("g", j)]).unwrap_or_default();
            (o, Some(J::Obj(m)))
        }
        _ => (object(), Some(J::Obj(vec![]))),
    }
}
fn c29_set(n: usize) {
    let (x, j) = value_tree(n, &[]);
    let old = flip();
    let j2 = j.clone();
    let f = Rc::new(RefCell::new(false));
    let seen = f.clone();
    module("p.js", "M", move || {
        let s = function(move |_, _| {
            let st = get(global(), b"STUART")?;
            let r = call(get(st, b"set")?, st, &[string("w"), x])?;
            check(matches!(kind(r), Kind::Undefined), "STUART.set gives a value");
            Ok(undefined())
        });
        let (j, seen) = (j.clone(), seen.clone());
        let g = function(move |_, a| {
            match &j {
                Some(j) => {
                    cover("set");
                    check(same(j, a[0]), "a variable differs from what it was set to");
                }
                None => {
                    cover("undefined");
                    check(same(&J::Arr(vec![string_of("old")]), a[0]), "setting a variable to undefined changes it");
                }
            }
            *seen.borrow_mut() = true;
            Ok(undefined())
        });
        Ok(Some(export("p", vec![("s", s), ("g", g)])))
    });
    let some = j2.is_some();
    let page: &[u8] = match (old, some) {
        (true, _) => b"{{ import($w, \"d.json\") }}{{ for($i, $w) }}{{ s() }}{{ g($w) }}{{ end(for) }}{{ $w.0 }}",
        (_, true) => b"{{ s() }}{{ g($w) }}old",
        _ => b"{{ s() }}{{ ifdefined($w) }}U{{ else() }}old{{ end(ifdefined) }}",
    };
    fs().put("/w/p/content/d.json", b"[\"old\"]");
    project(&[("p", "p.js")], page);
    gives(b"old");
    check(*f.borrow() == (old || some), "a plugin's function is not called");
}
/// What templates see of a variable that was set.
fn c29_seen(n: usize) {
    let t = text_in(n, b"a{}\\\"\n $<");
    let t2 = t.clone();
    let how = choose(4);
    module("p.js", "M", move || {
        let t = t2.clone();
        let s = function(move |_, a| {
            let st = get(global(), b"STUART")?;
            let v = match how {
                0 => string(&t),
                1 => {
                    let (o, i) = (object(), object());
                    define(i, b"b", string(&t));
                    define(o, b"a", i);
                    o
                }
                _ => array(vec![Some(string("x")), Some(string(&t)), Some(string(""))]),
            };
            call(get(st, b"set")?, st, &[a[0], v])
        });
        Ok(Some(export("p", vec![("s", s)])))
    });
    fs().put("/w/p/content/d.json", b"{\"w\": \"old\"}");
    let (page, want): (&[u8], Vec<u8>) = match how {
        0 => (b"{{ s(\"w\") }}[{{ $w }}]", [b"[", t.as_bytes(), b"]"].concat()),
        1 => (b"{{ import($l, \"d.json\") }}{{ $l.w }}{{ s(\"w\") }}[{{ $w.a.b }}]", [b"old[", t.as_bytes(), b"]"].concat()),
        2 => (b"{{ s(\"w\") }}{{ for($x, $w) }}[{{ $x }}]{{ end(for) }}", [b"[x][", t.as_bytes(), b"][]"].concat()),
        // within a block the variable is that block's
        _ => (b"{{ s(\"l\") }}{{ import($w, \"d.json\") }}{{ for($x, $l, limit=2) }}{{ s(\"w\") }}{{ for($y, $w) }}[{{ $y }}]{{ end(for) }}{{ end(for) }}{{ $w.w }}", {
            let one = [b"[x][", t.as_bytes(), b"][]"].concat();
            [&one[..], &one, b"old"].concat()
        }),
    };
    cover("seen");
    project(&[("p", "p.js")], page);
    gives(&want);
}

// ---- STUART.get ----
fn dump(v: V, o: &mut Vec<u8>) {
    match kind(v) {
        Kind::Array(a) => {
            o.push(b'[');
            for x in a.iter() {
                match x {
                    Some(x) => dump(*x, o),
                    None => o.push(b'_'),
                }
                o.push(b',');
            }
            o.push(b']');
        }
        Kind::Object => {
            o.push(b'{');
            for k in keys(v, true) {
                o.extend(&k);
                o.push(b':');
                if let Some(Ok(x)) = own(v, v, &k) {
                    dump(x, o);
                }
                o.push(b',');
            }
            o.push(b'}');
        }
        k => {
            o.push(match k {
                Kind::Str(_) => b's',
                Kind::Num(_) => b'n',
                _ => b'v',
            });
            o.extend(text(v).unwrap_or_default());
        }
    }
}
const VARS: [&str; 13] = ["d", "d.a", "d.a.1", "d.gone", "d.a.1.b", "gone", "x", "x.q", "self.title", "self.n", "env.HOME", "env.STUART_ENV", "set"];
/// `STUART.get` gives what the variable gives as an argument, however it is come by.
fn c29_get(n: usize) {
    let name = VARS[n + choose(VARS.len() - n)];
    let how = choose(4);
    let seen: Rc<RefCell<Vec<(u8, Vec<u8>)>>> = Default::default();
    let s2 = seen.clone();
    let kept: Rc<RefCell<Vec<V>>> = Default::default();
    module("p.js", "M", move || {
        let (kept, s) = (kept.clone(), s2.clone());
        let g = function(move |_, a| {
            let st = get(global(), b"STUART")?;
            let (f, this) = match how {
                0 => (get(st, b"get")?, st),
                // const { get } = STUART
                1 => (get(st, b"get")?, undefined()),
                // kept since the first call
                _ => {
                    let mut k = kept.borrow_mut();
                    if k.is_empty() {
                        k.push(st);
                        k.push(get(st, b"get")?);
                    }
                    (if how == 2 { get(k[0], b"get")? } else { k[1] }, k[0])
                }
            };
            let r = call(f, this, &[string(name)])?;
            let mut o = Vec::new();
            if !matches!(kind(r), Kind::Undefined) {
                dump(r, &mut o);
            }
            let site = match kind(a[0]) {
                Kind::Str(s) => s[0],
                _ => b'?',
            };
            s.borrow_mut().push((site, o));
            Ok(undefined())
        });
        let s = s2.clone();
        let a = function(move |_, a| {
            let mut o = Vec::new();
            dump(a[0], &mut o);
            s.borrow_mut().push((b'a', o));
            Ok(undefined())
        });
        let set = function(move |_, a| {
            let st = get(global(), b"STUART")?;
            call(get(st, b"set")?, st, a)
        });
        Ok(Some(export("p", vec![("g", g), ("a", a), ("set", set)])))
    });
    let v = |site: &str| format!("{{{{ g(\"{1}\") }}}}{{{{ ifdefined(${0}) }}}}{{{{ a(${0}) }}}}{{{{ end(ifdefined) }}}}", name, site);
    fs().put("/w/p/content/d.json", b"{\"a\": [1, {\"b\": \"c\"}, null], \"e\": true}");
    fs().put("/w/p/content/l.json", b"[{\"q\": \"one\"}, {\"q\": [2]}]");
    fs().put("/w/p/content/posts/a.md", b"---\ntitle: \"T\"\nn: \"N\"\n---\nhello\n");
    fs().put("/w/p/content/posts/md.html", format!("{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}", v("m")).as_bytes());
    let page = format!("{{{{ import($d, \"d.json\") }}}}{}{{{{ for($x, \"l.json\") }}}}{{{{ set(\"set\", $x.q) }}}}{}{{{{ end(for) }}}}{}", v("i"), v("l"), v("j"));
    project(&[("p", "p.js")], page.as_bytes());
    fs().put("/w/p/content/posts/root.html", b"<{{ insert(\"m\") }}>");
    set_env(&[(b"HOME", b"/root")]);
    gives(b"");
    let s = seen.borrow();
    let mut at = Vec::new();
    for (i, (site, o)) in s.iter().enumerate() {
        observe(&[*site]);
        observe(o);
        if *site == b'a' {
            check(i > 0 && s[i - 1].1 == *o, "STUART.get gives something else than the variable");
        } else {
            at.push((*site, o.as_slice()));
            let arg = i + 1 < s.len() && s[i + 1].0 == b'a';
            check(arg == (!o.is_empty() && &o[..] != b"vnull"), "STUART.get gives something else than the variable");
        }
    }
    let d: &[u8] = b"{a:[n1,{b:sc,},vnull,],e:vtrue,}";
    let want: [&[u8]; 5] = match name {
        "d" => [d, d, d, d, b""],
        "d.a" => [&b"[n1,{b:sc,},vnull,]"[..]; 4].iter().copied().chain([&b""[..]]).collect::<Vec<_>>().try_into().unwrap(),
        "d.a.1" => [b"{b:sc,}", b"{b:sc,}", b"{b:sc,}", b"{b:sc,}", b""],
        "d.a.1.b" => [b"sc", b"sc", b"sc", b"sc", b""],
        "d.gone" => [b"vnull", b"vnull", b"vnull", b"vnull", b""],
        "x" => [b"", b"{q:sone,}", b"{q:[n2,],}", b"", b""],
        "x.q" | "set" => [b"", b"sone", b"[n2,]", b"", b""],
        "self.title" => [b"", b"", b"", b"", b"sT"],
        "self.n" => [b"", b"", b"", b"", b"sN"],
        "env.HOME" => [b"s/root"; 5],
        "env.STUART_ENV" => [b"sproduction"; 5],
        _ => [b""; 5],
    };
    cover("got");
    let sites: Vec<(u8, &[u8])> = [b'i', b'l', b'l', b'j', b'm'].iter().copied().zip(want).collect();
    let (a, b): (Vec<_>, Vec<_>) = at.iter().copied().partition(|x| x.0 != b'm');
    check(a == sites[..4] && b == sites[4..], "STUART.get gives something else than the variable");
}

// ---- results ----
/// The text of what a function gives, and nothing for `undefined`.
fn c29_result(n: usize) {
    let t = ascii(n);
    let count = Rc::new(RefCell::new(0));
    let c = count.clone();
    let (t1, how, place) = (t.clone(), choose(12), choose(5));
    module("p.js", "M", move || {
        let (t, c) = (t1.clone(), c.clone());
        let f = function(move |_, a| {
            *c.borrow_mut() += 1;
            cover("called");
            Ok(match how {
                0 => undefined(),
                1 => null(),
                2 => boolean(false),
                3 => num(-1.5),
                4 => num(1e21),
                5 => string(&t),
                6 => array(vec![Some(num(1.0)), None, Some(string("x"))]),
                7 => object(),
                8 => {
                    let o = object();
                    let t = t.clone();
                    define(o, b"toString", function(move |_, _| Ok(string(&t))));
                    o
                }
                // the text is made while the call lasts
                9 => {
                    let o = object();
                    let st = get(global(), b"STUART")?;
                    define(
                        o,
                        b"toString",
                        function(move |_, _| {
                            call(get(st, b"set")?, st, &[string("late"), string("L")])?;
                            call(get(st, b"get")?, st, &[string("late")])
                        }),
                    );
                    o
                }
                10 => a.get(0).copied().unwrap_or_else(undefined),
                _ => num(0.0),
            })
        });
        Ok(Some(export("p", vec![("f", f)])))
    });
    let one: Vec<u8> = match how {
        0 | 10 => vec![],
        1 => b"null".to_vec(),
        2 => b"false".to_vec(),
        3 => b"-1.5".to_vec(),
        4 => b"1e+21".to_vec(),
        5 | 8 => t.into_bytes(),
        6 => b"1,,x".to_vec(),
        7 => b"[object Object]".to_vec(),
        9 => b"L".to_vec(),
        _ => b"0".to_vec(),
    };
    let (page, want, calls): (&[u8], Vec<u8>, usize) = match place {
        0 => (b"a{{ f() }}b{{ p::f() }}", [b"a", &one[..], b"b", &one].concat(), 2),
        1 => (b"{{ ifdefined($gone) }}{{ f() }}{{ else() }}{{ f() }}{{ end(ifdefined) }}", one.clone(), 1),
        2 => (b"{{ for($x, \"e.json\") }}{{ f() }}{{ end(for) }}.", b".".to_vec(), 0),
        3 => (b"{{ for($x, \"l.json\") }}{{ $x }}{{ f() }}{{ end(for) }}.", [b"u", &one[..], b"v", &one, b"."].concat(), 2),
        _ => (b"{{ import($q, \"l.json\") }}{{ excerpt($q.0, 5) }}{{ f() }}\n", [b"u", &one[..], b"\n"].concat(), 1),
    };
    fs().put("/w/p/content/e.json", b"[]");
    fs().put("/w/p/content/l.json", b"[\"u\", \"v\"]");
    project(&[("p", "p.js")], page);
    gives(&want);
    check(*count.borrow() == calls, "a plugin's function is not called once for each time its tag is reached");
}

// ---- failures while running ----
/// A function which throws, or does something odd, ends neither the program nor what comes after.
fn c29_throw(_n: usize) {
    let how = choose(10);
    let count = Rc::new(RefCell::new(0));
    let c2 = count.clone();
    module("p.js", "M", move || {
        let f = function(move |_, _| {
            let st = get(global(), b"STUART")?;
            let set = get(st, b"set")?;
            let bad = object();
            getter(bad, "a", |_, _| Err(error("a")));
            let cyc = object();
            define(cyc, b"c", cyc);
            match how {
                0 => Err(error("x")),
                1 => Err(undefined()),
                2 => call(set, st, &[string("v"), bad]),
                3 => call(set, st, &[string("v"), array(vec![Some(bad), Some(num(1.0)), Some(bad)])]),
                4 => call(set, st, &[value(Kind::Symbol), num(1.0)]),
                5 => call(get(st, b"get")?, st, &[]),
                6 => call(set, st, &[]),
                7 => {
                    define(bad, b"toString", function(|_, _| Err(error("t"))));
                    Ok(bad)
                }
                8 => Ok(value(Kind::Symbol)),
                _ => {
                    call(set, undefined(), &[string("v"), cyc])?;
                    call(set, st, &[string("w"), array(vec![Some(cyc), Some(cyc)])])
                }
            }
        });
        let c = c2.clone();
        let g = function(move |_, a| {
            *c.borrow_mut() += 1;
            cover("after");
            Ok(a[0])
        });
        Ok(Some(export("p", vec![("f", f), ("g", g)])))
    });
    project(&[("p", "p.js")], b"{{ f() }}[{{ g(\"x\") }}]{{ g(\"y\") }}");
    match build() {
        Ok(d) => {
            check(*count.borrow() == 2, "a function is not called after another threw");
            check(d.ends_with(b"[x]y>"), "the page is not what the plugin's functions give");
        }
        Err(()) => cover("error"),
    }
}

// ---- isolation ----
/// Plugins with the same names of functions and of global variables, a file used twice, and
/// two contexts one after the other.
fn c29_apart(_n: usize) {
    let twice = flip();
    let again = choose(3);
    let count = |name: &'static str| {
        function(move |_, _| {
            let g = global();
            let n = match kind(get(g, b"count")?) {
                Kind::Num(n) => *n,
                _ => 0.0,
            };
            define(g, b"count", num(n + 1.0));
            Ok(string(&format!("{}{}", name, n)))
        })
    };
    let make = move |name: &'static str| {
        move || {
            let mut fs = vec![("f", count(name))];
            if name == "a" {
                fs.push(("only", count("o")));
            }
            // a global variable set while the module is evaluated
            define(global(), b"mine", string(name));
            fs.push(("mine", function(|_, _| get(global(), b"mine"))));
            Ok(Some(export(name, fs)))
        }
    };
    module("a.js", "A", make("a"));
    module("sub/b.mjs", "B", make("b"));
    let deps: &[(&str, &str)] = if twice { &[("a", "a.js"), ("b", "sub/b.mjs"), ("c", "a.js")] } else { &[("a", "gone.so;a.js"), ("b", "sub/b.mjs")] };
    project(deps, b"{{ a::f() }}{{ b::f() }}{{ a::f() }}{{ a::only() }}{{ b::f() }}{{ a::mine() }}{{ b::mine() }}");
    let o = |r: Result<(), ()>, want: &[u8]| {
        observe(&[r.is_ok() as u8]);
        if r.is_err() {
            fail("a build fails for no reason");
        }
        let d = fs().get("/w/p/dist/index.html").map(|d| d.to_vec()).unwrap_or_default();
        observe(&d);
        eq(&d, want, "the page is not what the plugin's functions give");
    };
    let mut c = match StuartContext::init("stuart.toml", "dist", "production") {
        Ok(c) => c,
        Err(_) => fail("a build fails for no reason"),
    };
    let first: &[u8] = b"<a0b0a1o2b1ab>";
    o(c.build().map(|_| ()).map_err(|_| ()), first);
    cover("apart");
    match again {
        // as the development server builds again
        0 => o(c.build().map(|_| ()).map_err(|_| ()), b"<a3b2a4o5b3ab>"),
        1 => {
            let mut d = match StuartContext::init("stuart.toml", "dist", "production") {
                Ok(d) => d,
                Err(_) => fail("a build fails for no reason"),
            };
            o(d.build().map(|_| ()).map_err(|_| ()), first);
            o(c.build().map(|_| ()).map_err(|_| ()), b"<a3b2a4o5b3ab>");
        }
        _ => {}
    }
}

// ---- modules ----
fn c29_module(_n: usize) {
    let how = choose(26);
    let src: &'static [u8] = if how == 0 { b"\xff\xfe" } else { b"M" };
    fs().put("/w/p/p.js", src);
    let odd = |k: usize| match k {
        0 => Some(undefined()),
        1 => Some(null()),
        2 => Some(num(5.0)),
        3 => Some(string("s")),
        4 => Some(object()),
        5 => Some(array(vec![Some(null())])),
        _ => None,
    };
    let def = Def {
        source: b"M".to_vec(),
        compiles: how != 1,
        links: how != 2,
        run: Rc::new(move || {
            let ok = || function(|_, _| Ok(string("ok")));
            let entry = |f: Option<V>| {
                let x = object();
                define(x, b"name", string("f"));
                if let Some(f) = f {
                    define(x, b"fn", f);
                }
                x
            };
            let with = |fs: V| {
                let d = export("p", vec![]);
                define(d, b"functions", fs);
                d
            };
            let throwing = |k: &str| {
                let d = object();
                for n in ["name", "version"] {
                    if n != k {
                        define(d, n.as_bytes(), string("p"));
                    }
                }
                if k != "functions" {
                    define(d, b"functions", array(vec![]));
                }
                getter(d, k, |_, _| Err(error("no")));
                d
            };
            match how {
                3 => Err(error("thrown")),
                4 => Ok(None),
                5 => Ok(Some(undefined())),
                6 => Ok(Some(null())),
                // functions that are none
                7..=12 => Ok(Some(with(match how {
                    7 => undefined(),
                    8 => null(),
                    9 => array(vec![Some(undefined())]),
                    10 => array(vec![None]),
                    11 => array(vec![Some(null())]),
                    _ => {
                        let x = object();
                        define(x, b"length", value(Kind::Symbol));
                        x
                    }
                }))),
                13..=18 => Ok(Some(with(array(vec![Some(entry(odd(how - 13)))])))),
                19 => Ok(Some(with(array(vec![Some(entry(None))])))),
                20 => Ok(Some(with(array(vec![Some(entry(Some(ok()))), Some(num(1.0))])))),
                21 => Ok(Some(throwing("name"))),
                22 => Ok(Some(throwing("version"))),
                23 => Ok(Some(throwing("functions"))),
                24 => {
                    let x = object();
                    getter(x, "fn", |_, _| Err(error("no")));
                    Ok(Some(with(array(vec![Some(x)]))))
                }
                _ => Ok(Some(export("p", vec![("f", ok())]))),
            }
        }),
    };
    vm().defs.push(def);
    // in a branch that is not taken a function is parsed, not called
    let next = flip();
    module("q.js", "Q", || Ok(Some(export("p", vec![("f", function(|_, _| Ok(string("ok"))))]))));
    project(&[("p", if next { "p.js;q.js" } else { "p.js" })], b"{{ p::f() }}");
    if how == 25 {
        cover("loads");
        gives(b"ok");
    } else if next {
        cover("next");
        gives(b"ok");
    } else {
        match build() {
            Err(()) => {
                cover("fails");
                check(fs().get("/w/p/dist/index.html").is_none(), "a page is written although a plugin does not load");
            }
            Ok(_) => fail("a plugin which cannot be used loads"),
        }
    }
}
// ---- sizes ----
const COUNTS: [usize; 6] = [17, 33, 127, 255, 256, 300];
/// Large and deep values as arguments, and back to a variable.
fn c29_large(_n: usize) {
    let n = pick(&COUNTS);
    let x = J::Str(vec![b'<', byte_in(b"ab")]);
    let j = match choose(4) {
        0 => J::Arr((0..n).map(|i| if i + 1 == n { x.clone() } else { scalar_at(i) }).collect()),
        1 => J::Obj((0..n).map(|i| (&*Box::leak(format!("k{}", i).into_boxed_str()), if i + 1 == n { x.clone() } else { scalar_at(i) })).collect()),
        2 => J::Str([&"\u{e9}".repeat(n * 200).into_bytes()[..], &[byte_in(b"ab")]].concat()),
        _ => {
            let mut j = x;
            for i in 0..n.min(48) {
                j = if i % 2 == 0 { J::Arr(vec![j]) } else { J::Obj(vec![("a", j)]) };
            }
            j
        }
    };
    let mut data = Vec::new();
    json(&j, &mut data);
    fs().put("/w/p/content/d.json", &[b"{\"j\": ", &data[..], b"}"].concat());
    module("p.js", "M", move || {
        let (j, k) = (j.clone(), j.clone());
        let f = function(move |_, a| {
            check(a.len() == 1 && same(&j, a[0]), "an argument differs from the value of the variable");
            let st = get(global(), b"STUART")?;
            call(get(st, b"set")?, st, &[string("w"), a[0]])?;
            call(get(st, b"get")?, st, &[string("d")])?;
            Ok(undefined())
        });
        let g = function(move |_, a| {
            check(same(&k, a[0]), "a variable differs from what it was set to");
            cover("called");
            Ok(string("ok"))
        });
        Ok(Some(export("p", vec![("f", f), ("g", g)])))
    });
    project(&[("p", "p.js")], b"{{ import($d, \"d.json\") }}{{ f($d.j) }}{{ g($w) }}");
    gives(b"ok");
    check(vm().calls >= 2, "a plugin's function is not called once for its tag");
}
fn scalar_at(i: usize) -> J {
    match i % 3 {
        0 => J::Null,
        1 => J::Num(0.1),
        _ => string_of("z"),
    }
}
/// Many functions, many arguments, a long result.
fn c29_many(_n: usize) {
    let n = pick(&COUNTS);
    let k = [0, n / 2, n - 1][choose(3)];
    let c = byte_in(b"ab");
    module("p.js", "M", move || {
        let fs: Vec<(String, V)> = (0..n)
            .map(|i| {
                let f = function(move |_, a| {
                    check(i == k, "another function is called");
                    check(a.len() == n && (0..n).all(|i| is_text(a[i], &format!("a{}", i))), "a literal argument differs");
                    cover("called");
                    Ok(value(Kind::Str([&vec![b'r'; 200 * n][..], &[c]].concat())))
                });
                (format!("f{}", i), f)
            })
            .collect();
        Ok(Some(export("p", fs.iter().map(|(n, f)| (n.as_str(), *f)).collect())))
    });
    let args: Vec<String> = (0..n).map(|i| format!("\"a{}\"", i)).collect();
    project(&[("p", "p.js")], format!("{{{{ p::f{}({}) }}}}", k, args.join(", ")).as_bytes());
    gives(&[&vec![b'r'; 200 * n][..], &[c]].concat());
    check(vm().calls == 1, "a plugin's function is not called once for its tag");
}
entries! {
    c29_large(n): h_c29_large = 0;
    c29_many(n): h_c29_many = 0;
    c29_args(n): h_c29_args_2 = 2, h_c29_args_3 = 3;
    c29_set(n): h_c29_set_2 = 2, h_c29_set_3 = 3;
    c29_seen(n): h_c29_seen_2 = 2, h_c29_seen_4 = 4;
    c29_get(n): h_c29_get = 0;
    c29_undefined(n): h_c29_undefined = 0;
    c29_result(n): h_c29_result_2 = 2, h_c29_result_4 = 4;
    c29_throw(n): h_c29_throw = 0;
    c29_apart(n): h_c29_apart = 0;
    c29_module(n): h_c29_module = 0;
}
