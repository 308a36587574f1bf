//! C01-C04: parsing.
use crate::common::*;
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::plugins::Plugin;
use stuart_core::process::Scope;

pub fn located(e: &TracebackError<ParseError>, path: &str, lines: u32) {
    check(e.path == Path::new(path), "a parse error names another file");
    check(e.line <= lines, "a parse error lies beyond the end of the file");
}

pub fn html_total(s: &str) {
    let mut o = Obs::new();
    match parse_html(s, Path::new("d/a.html"), None) {
        Ok(t) => {
            o.n(t.len() as u64);
            cover("parsed");
        }
        Err(e) => {
            located(&e, "d/a.html", line_at(s.as_bytes(), s.len()));
            o.n(1000).n(e.line as u64).n(e.column as u64);
            cover("error");
        }
    }
    o.done();
}

pub fn md_total(s: String) {
    let mut o = Obs::new();
    let n = line_at(s.as_bytes(), s.len());
    match parse_markdown(s, Path::new("d/a.md"), None) {
        Ok(m) => {
            o.n(m.frontmatter_to_value().as_object().map(|x| x.len()).unwrap_or(99) as u64);
            cover("parsed");
        }
        Err(e) => {
            located(&e, "d/a.md", n);
            o.n(1000).n(e.line as u64).n(e.column as u64);
            cover("error");
        }
    }
    o.done();
}

// ---- C01 ----
pub fn c01_html(n: usize) {
    html_total(&ascii(n))
}
/// Text with characters outside ASCII.
pub fn c01_utf8(n: usize) {
    let s = uni(n);
    html_total(&format!("{}{}", pick(&["", "{{", "\\{{", "{{ $"]), s))
}
/// Any text inside one tag.
pub fn c01_tag(n: usize) {
    html_total(&format!("{{{{{}", ascii(n)))
}
/// Any argument text of a call to each built-in function.
pub const CALLS: [&str; 16] = ["begin", "dateformat", "else", "end", "excerpt", "for", "ifdefined", "import", "insert", "timetoread", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"];
pub fn c01_call(n: usize) {
    let f = pick(&CALLS);
    html_total(&format!("{{{{{}({}", f, ascii(n)))
}
pub fn c01_call_utf8(n: usize) {
    html_total(&format!("{{{{begin({}", uni(n)))
}
/// Quotes, in particular, anywhere in two arguments.
pub fn c01_args(n: usize) {
    let a = text_in(n, b"\"a=$,) 1.");
    html_total(&format!("{{{{ifeq({}) }}}}", a))
}
pub fn c01_md(n: usize) {
    md_total(ascii(n))
}
pub fn c01_front(n: usize) {
    let nl = pick(&["\n", "\r\n"]);
    md_total(format!("---{}{}", nl, ascii(n)))
}
pub fn c01_front2(n: usize) {
    md_total(format!("---\nk:\"{}", text_in(n, b"\":- \n\ra{}")))
}
/// Many frontmatter lines: counters must not overflow.
pub fn c01_dashes() {
    let k = pick(&[1usize, 2, 255, 256, 300]);
    let mut s = String::from("---\n");
    for _ in 1..k {
        s.push_str("k: \"v\"\n");
    }
    s.push_str("--");
    s.push(byte_in(b"-x") as char);
    s.push_str(pick(&["", "\n", "\n{{ f"]));
    md_total(s)
}

entries! {
    c01_html(n): h_c01_html_6 = 6, h_c01_html_8 = 8;
    c01_utf8(n): h_c01_utf8_2 = 2, h_c01_utf8_4 = 4;
    c01_tag(n): h_c01_tag_5 = 5, h_c01_tag_7 = 7;
    c01_call(n): h_c01_call_4 = 4, h_c01_call_6 = 6;
    c01_call_utf8(n): h_c01_callu_2 = 2, h_c01_callu_4 = 4;
    c01_args(n): h_c01_args_5 = 5, h_c01_args_7 = 7;
    c01_md(n): h_c01_md_6 = 6, h_c01_md_9 = 9;
    c01_front(n): h_c01_front_5 = 5, h_c01_front_7 = 7;
    c01_front2(n): h_c01_front2_5 = 5, h_c01_front2_7 = 7;
}
#[no_mangle]
pub extern "C" fn h_c01_dashes() {
    c01_dashes()
}

// ---- C02 ----
/// What a template without tags must become: `\{{` is `{{`, all else unchanged.
/// None if a tag starts somewhere.
pub fn plain(t: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::with_capacity(t.len());
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'\\' && i + 2 < t.len() && t[i + 1] == b'{' && t[i + 2] == b'{' {
            o.extend_from_slice(b"{{");
            i += 3;
        } else if t[i] == b'{' && i + 1 < t.len() && t[i + 1] == b'{' {
            return None;
        } else {
            o.push(t[i]);
            i += 1;
        }
    }
    Some(o)
}

pub fn text_of(t: &[LocatableToken]) -> Vec<u8> {
    let mut o = Vec::new();
    for x in t {
        match x.as_raw() {
            Some(r) => o.extend_from_slice(r.as_bytes()),
            None => {
                fail("text became a tag");
            }
        }
    }
    o
}

pub fn c02_plain_on(s: &str) {
    let want = plain(s.as_bytes());
    assume(want.is_some());
    let want = want.unwrap();
    match parse_html(s, Path::new("a.html"), None) {
        Err(_) => fail("text without tags is rejected"),
        Ok(t) => {
            let got = text_of(&t);
            observe(&got);
            eq(&got, &want, "text without tags is not reproduced exactly");
            cover("plain");
        }
    }
}
pub fn c02_plain(n: usize) {
    c02_plain_on(&ascii(n))
}
pub fn c02_utf8(n: usize) {
    c02_plain_on(&utf8(n))
}
/// Text dense in the characters that matter.
pub fn c02_dense(n: usize) {
    c02_plain_on(&text_in(n, b"{}\\\n"))
}
/// Text before and after a tag.
pub fn c02_around_on(a: String, b: String) {
    let s = format!("{}{{{{$x}}}}{}", a, b);
    // the first unescaped `{{` is the tag
    let (pa, pb) = (plain(a.as_bytes()), plain(b.as_bytes()));
    let ends_esc = a.ends_with('\\') || a.ends_with('{');
    assume(pa.is_some() & pb.is_some() & !ends_esc);
    match parse_html(&s, Path::new("a.html"), None) {
        Err(_) => fail("a valid template is rejected"),
        Ok(t) => {
            let mut k = 0;
            let mut tags = 0;
            let mut before = Vec::new();
            let mut after = Vec::new();
            while k < t.len() {
                match &t[k].inner {
                    Token::Raw(r) => {
                        if tags == 0 {
                            before.extend_from_slice(r.as_bytes())
                        } else {
                            after.extend_from_slice(r.as_bytes())
                        }
                    }
                    Token::Variable(v) => {
                        check(v == "x", "the tag has another variable");
                        tags += 1;
                    }
                    Token::Function(_) => fail("a variable tag became a function"),
                }
                k += 1;
            }
            observe(&before);
            observe(&after);
            check(tags == 1, "the tag is lost or duplicated");
            eq(&before, &pa.unwrap(), "text before a tag is not reproduced exactly");
            eq(&after, &pb.unwrap(), "text after a tag is not reproduced exactly");
            cover("around");
        }
    }
}
pub fn c02_around(n: usize) {
    c02_around_on(ascii(n), ascii(n))
}
pub fn c02_around_dense(n: usize) {
    c02_around_on(text_in(n, b"{}\\\n"), text_in(n, b"{}\\\n"))
}
pub fn c02_around_utf8(n: usize) {
    c02_around_on(utf8(n), utf8(n))
}
/// `\{{` directly before further braces and tags.
pub fn c02_escape_tag(n: usize) {
    let a = text_in(n, b"{\\a");
    let s = format!("{}\\{{{{{{{{$x}}}}", a);
    let pa = plain(a.as_bytes());
    // `...\{{{{$x}}`: a literal `{{`, then the tag
    let clean = pa.is_some() && !a.ends_with('{') && !a.ends_with('\\');
    assume(clean);
    let mut want = pa.unwrap();
    want.extend_from_slice(b"{{");
    match parse_html(&s, Path::new("a.html"), None) {
        Err(_) => fail("an escaped `{{` starts a tag"),
        Ok(t) => {
            let last = t.len() - 1;
            check(t[last].as_variable() == Some("x"), "the tag after an escape is not recognised");
            let got = text_of(&t[..last]);
            observe(&got);
            eq(&got, &want, "an escaped `{{` is not reproduced exactly");
            cover("escaped");
        }
    }
}
/// The same through the whole build.
pub fn c02_page(n: usize) {
    let t = text_in(n, b"{}\\\na");
    let r = text_in(2, b"{}\\ ");
    let (pt, pr) = (plain(t.as_bytes()), plain(r.as_bytes()));
    assume(pt.is_some() & pr.is_some() & !t.ends_with('\\') & !t.ends_with('{') & !r.ends_with('{') & !r.ends_with('\\'));
    let mut p = Vec::new();
    p.extend_from_slice(b"{{ begin(\"m\") }}");
    p.extend_from_slice(t.as_bytes());
    p.extend_from_slice(b"{{ end(\"m\") }}");
    let root = format!("{}{{{{ insert(\"m\") }}}}z", r);
    site(&[("root.html", root.as_bytes()), ("p.html", &p)]);
    match build() {
        Err(_) => fail("a valid page is rejected"),
        Ok(s) => {
            let got = page(&s, "p.html").unwrap_or_default();
            let mut want = pr.unwrap();
            want.extend_from_slice(&pt.unwrap());
            want.push(b'z');
            observe(&got);
            eq(&got, &want, "page text is not reproduced exactly");
            cover("page");
        }
    }
}

entries! {
    c02_plain(n): h_c02_plain_6 = 6, h_c02_plain_9 = 9;
    c02_utf8(n): h_c02_utf8_4 = 4, h_c02_utf8_6 = 6;
    c02_dense(n): h_c02_dense_8 = 8, h_c02_dense_11 = 11;
    c02_around(n): h_c02_around_3 = 3, h_c02_around_4 = 4;
    c02_around_dense(n): h_c02_aroundd_4 = 4, h_c02_aroundd_6 = 6;
    c02_around_utf8(n): h_c02_aroundu_2 = 2, h_c02_aroundu_4 = 4;
    c02_escape_tag(n): h_c02_esctag_3 = 3, h_c02_esctag_6 = 6;
    c02_page(n): h_c02_page_3 = 3, h_c02_page_4 = 4;
}

// ---- C03 ----
pub const WS: &[u8] = b"\nx\r";
pub fn gap(n: usize) -> String {
    text_in(n, WS)
}
/// The same, perhaps after characters which separate lines elsewhere but not here.
pub fn gap_sep(n: usize) -> String {
    let g = gap(n);
    if flip() {
        format!("\x0b\x0c\x1c\u{85}\u{2028}\u{2029}{}", g)
    } else {
        g
    }
}
/// A blank between the parts of a tag: none, a space or a line break.
pub fn blank() -> &'static str {
    pick(&["", " ", "\n", "\r\n"])
}
pub const BAD: [(&str, bool); 11] = [
    // (tag, is it closed)
    ("{{ nofn() }}", true),
    ("{{ $ }}", true),
    ("{{ ifeq(1) }}", true),
    ("{{ ifeq(1,2 }", false),
    ("{{ 1x }}", true),
    ("{{ begin(\n\"a\",\n\"b\") }}", true),
    ("{{ for($a, \"b\") }}", true),
    ("{{ begin(\"x", false),
    ("{{", false),
    ("{{ $a }x", true),
    ("{{ insert(x=1, \"a\") }}", true),
];
pub fn tag_line(t: &LocatableToken, path: &str, text: &[u8], from: usize, to: usize) {
    check(t.path == Path::new(path), "a token carries another path");
    check(t.line >= line_at(text, from), "a token's line is before its tag");
    check(t.line <= line_at(text, to), "a token's line is after its tag");
}
pub fn c03_tokens_on(pre: &str, body_of: fn(&str) -> Result<Vec<LocatableToken>, TracebackError<ParseError>>, path: &str, n: usize) {
    let (g1, g2, g3) = (gap_sep(n), gap(n - 1), gap(1));
    let t1 = format!("{{{{{}$ab{}}}}}", blank(), blank());
    let t2 = match choose(3) {
        0 => format!("{{{{insert({}\"s\"{}) }}}}", blank(), blank()),
        1 => "{{$c.d}}".to_string(),
        _ => "{{ begin(\"q\") }}".to_string(),
    };
    let s = format!("{}{}{}{}{}{}", pre, g1, t1, g2, t2, g3);
    let a = pre.len() + g1.len();
    let b = a + t1.len() + g2.len();
    match body_of(&s) {
        Err(_) => fail("a valid template is rejected"),
        Ok(t) => {
            let mut k = 0;
            let mut o = Obs::new();
            for x in &t {
                check(x.path == Path::new(path), "a token carries another path");
                if x.as_raw().is_some() {
                    continue;
                }
                o.n(x.line as u64);
                if k == 0 {
                    tag_line(x, path, s.as_bytes(), a, a + t1.len() - 1);
                } else {
                    tag_line(x, path, s.as_bytes(), b, b + t2.len() - 1);
                }
                k += 1;
            }
            o.done();
            check(k == 2, "a tag is lost or duplicated");
            cover("tokens");
        }
    }
}
pub fn as_html(s: &str) -> Result<Vec<LocatableToken>, TracebackError<ParseError>> {
    parse_html(s, Path::new("d/a.html"), None)
}
pub fn c03_tokens(n: usize) {
    c03_tokens_on("", as_html, "d/a.html", n)
}
pub fn c03_error_on(pre: &str, md: bool, n: usize) {
    let (g1, g2, g3) = (gap_sep(n), gap(n), gap(n));
    let (bad, closed) = pick(&BAD);
    let s = format!("{}{}{{{{$ok}}}}{}{}{}", pre, g1, g2, bad, g3);
    let a = pre.len() + g1.len() + 7 + g2.len();
    let path = if md { "d/a.md" } else { "d/a.html" };
    let r = if md { parse_markdown(s.clone(), Path::new(path), None).map(|_| ()) } else { parse_html(&s, Path::new(path), None).map(|_| ()) };
    match r {
        Ok(_) => fail("a malformed tag is accepted"),
        Err(e) => {
            observe(&e.line.to_le_bytes());
            check(e.path == Path::new(path), "a parse error names another file");
            check(e.line >= line_at(s.as_bytes(), a), "a parse error's line is before the tag");
            let end = if closed { a + bad.len() - 1 } else { s.len() };
            check(e.line <= line_at(s.as_bytes(), end), "a parse error's line is after the tag");
            cover("error");
        }
    }
}
pub fn c03_error(n: usize) {
    c03_error_on("", false, n)
}
pub fn front() -> String {
    let nl = pick(&["\n", "\r\n"]);
    let k = choose(4);
    let mut s = String::new();
    if k > 0 {
        s.push_str("---");
        s.push_str(nl);
        for i in 1..k {
            s.push_str(&format!("k{}: \"v\"{}", i, nl));
        }
        s.push_str("---");
        s.push_str(nl);
    }
    s
}
pub fn c03_md_error(n: usize) {
    let f = front();
    c03_error_on(&f, true, n)
}
/// A malformed frontmatter line is reported at that line.
pub fn c03_front(n: usize) {
    let nl = pick(&["\n", "\r\n"]);
    let at = choose(n);
    let mut s = format!("---{}", nl);
    for i in 0..n {
        if i == at {
            s.push_str(pick(&["bad", "k \"v\"", "k: v", "k: \"v", "", ":"]));
        } else {
            s.push_str("k: \"v\"");
        }
        s.push_str(nl);
    }
    s.push_str("---");
    match parse_markdown(s, Path::new("d/a.md"), None) {
        Ok(_) => fail("a malformed frontmatter line is accepted"),
        Err(e) => {
            observe(&e.line.to_le_bytes());
            check(e.line as usize == at + 2, "a frontmatter error is reported at another line");
            check(e.path == Path::new("d/a.md"), "a frontmatter error names another file");
            cover("front");
        }
    }
}
/// Errors while a page is processed.
pub fn c03_process(n: usize) {
    let place = choose(5);
    let (g1, g2) = (text_in(n, b"\nx"), text_in(n, b"\nx"));
    let (tag, w) = pick(&[("{{ $nope }}", 0), ("{{ insert(\"nope\") }}", 0), ("{{ timetoread($nope) }}", 0), ("{{ import($v, \"nope.json\") }}", 0), ("{{ end(\"nope\") }}", 0), ("{{ else() }}", 0), ("{{ for($v, \"nope/\") }}", 0), ("{{ ifeq($nope, 1) }}", 0), ("{{ ifeq(1, 1) }}x\n", 1)]);
    let _ = w;
    let f = if place >= 3 { front() } else { String::new() };
    let bad = format!("{}{}{}{}", f, g1, tag, g2);
    let ok_root: &[u8] = b"r{{ insert(\"m\") }}";
    let ok_page: &[u8] = b"{{ begin(\"m\") }}p{{ end(\"m\") }}";
    let ok_md: &[u8] = b"{{ begin(\"m\") }}{{ $self.content }}{{ end(\"m\") }}";
    let b = bad.as_bytes();
    let name = match place {
        0 => {
            site(&[("root.html", ok_root), ("p.html", b)]);
            "p.html"
        }
        1 => {
            site(&[("root.html", b), ("p.html", ok_page)]);
            "root.html"
        }
        2 => {
            site(&[("root.html", ok_root), ("md.html", b), ("q.md", b"x")]);
            "md.html"
        }
        _ => {
            site(&[("root.html", ok_root), ("md.html", ok_md), ("q.md", b)]);
            "q.md"
        }
    };
    let a = f.len() + g1.len();
    match build() {
        Ok(_) => fail("a processing error is not reported"),
        Err(Error::Process(e)) => {
            observe(&e.line.to_le_bytes());
            check(e.path == Path::new(&format!("{}/{}", CONTENT, name)), "a processing error names another file");
            check(e.line == line_at(b, a), "a processing error is reported at another line");
            cover("process");
        }
        Err(_) => fail("a processing error is reported as something else"),
    }
}

entries! {
    c03_tokens(n): h_c03_tokens_2 = 2, h_c03_tokens_3 = 3;
    c03_error(n): h_c03_error_2 = 2, h_c03_error_4 = 4;
    c03_md_error(n): h_c03_mderror_1 = 1, h_c03_mderror_2 = 2;
    c03_front(n): h_c03_front_3 = 3, h_c03_front_6 = 6;
    c03_process(n): h_c03_process_2 = 2, h_c03_process_3 = 3;
}

// ---- C04 ----
#[derive(Clone, Debug)]
pub struct Rec(pub &'static str);
#[derive(Clone, Debug)]
pub struct RecF(pub &'static str);
pub static mut SEEN: Option<(&'static str, Vec<RawArgument>, Vec<(String, RawArgument)>)> = None;
impl FunctionParser for Rec {
    fn name(&self) -> &str {
        self.0.rsplit(':').next().unwrap()
    }
    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        unsafe { SEEN = Some((self.0, raw.positional_args, raw.named_args)) }
        Ok(Box::new(RecF(self.0)))
    }
}
/// The value of the variable named by the argument of `p::dump`, as a plugin function sees it.
pub static mut DUMP: Option<humphrey_json::Value> = None;
#[derive(Clone, Debug)]
pub struct Dump(pub String);
impl FunctionParser for Dump {
    fn name(&self) -> &str {
        "dump"
    }
    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        Ok(Box::new(Dump(raw.positional_args[0].as_variable().unwrap().to_string())))
    }
}
impl Function for Dump {
    fn name(&self) -> &str {
        "dump"
    }
    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<process::ProcessError>> {
        unsafe { DUMP = scope.get_variable(&self.0) }
        Ok(())
    }
}
impl Function for RecF {
    fn name(&self) -> &str {
        self.0
    }
    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<process::ProcessError>> {
        scope.output(self.0).unwrap();
        Ok(())
    }
}
pub fn plugins() -> Vec<Plugin> {
    vec![
        Plugin { name: "p".into(), version: "1".into(), functions: vec![Box::new(Rec("p:rec")), Box::new(Rec("p:g"))], parsers: vec![] },
        Plugin { name: "q".into(), version: "1".into(), functions: vec![Box::new(Rec("q:g")), Box::new(Rec("q:begin"))], parsers: vec![] },
    ]
}
/// A plugin `p` with the function `dump`.
pub fn dumper() -> Vec<Plugin> {
    vec![Plugin { name: "p".into(), version: "1".into(), functions: vec![Box::new(Dump(String::new()))], parsers: vec![] }]
}
pub fn seen() -> Option<(&'static str, Vec<RawArgument>, Vec<(String, RawArgument)>)> {
    unsafe { (*std::ptr::addr_of_mut!(SEEN)).take() }
}

pub fn alnum(b: u8) -> bool {
    b.is_ascii_alphanumeric()
}
pub fn wsb(b: u8) -> bool {
    matches!(b, 9..=13 | 32)
}
pub fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && wsb(s[0]) {
        s = &s[1..];
    }
    while !s.is_empty() && wsb(s[s.len() - 1]) {
        s = &s[..s.len() - 1];
    }
    s
}
pub fn has(s: &[u8], b: u8) -> bool {
    s.iter().any(|c| *c == b)
}
/// Reference reading of one argument. Err(true): unspecified. Err(false): malformed.
pub fn ref_arg(a: &[u8]) -> Result<RawArgument, bool> {
    let st = |x: &[u8]| String::from_utf8(x.to_vec()).unwrap();
    if a[0] == b'"' {
        if a.len() >= 2 && a[a.len() - 1] == b'"' && !has(&a[1..a.len() - 1], b'"') {
            return Ok(RawArgument::String(st(&a[1..a.len() - 1])));
        }
        return Err(false);
    }
    if a[0] == b'$' {
        if a.len() == 1 {
            return Err(true);
        }
        for c in &a[1..] {
            if !(alnum(*c) || *c == b'_' || *c == b'.') {
                return Err(false);
            }
        }
        return Ok(RawArgument::Variable(st(&a[1..])));
    }
    let (neg, d) = if a[0] == b'-' { (true, &a[1..]) } else if a[0] == b'+' { (false, &a[1..]) } else { (false, a) };
    if !d.is_empty() && d.iter().all(|c| c.is_ascii_digit()) {
        let mut v: i64 = 0;
        for c in d {
            v = v * 10 + (*c - b'0') as i64;
        }
        if neg {
            v = -v;
        }
        if v >= i32::MIN as i64 && v <= i32::MAX as i64 {
            return Ok(RawArgument::Integer(v as i32));
        }
        return Err(false);
    }
    for f in CALLS {
        if a == f.as_bytes() {
            return Ok(RawArgument::Ident(f.to_string()));
        }
    }
    Err(false)
}
type Args = (Vec<RawArgument>, Vec<(String, RawArgument)>);
/// Reference reading of what follows the opening parenthesis, up to the end of the tag.
pub fn ref_call(s: &[u8]) -> Result<Args, bool> {
    let mut pos = Vec::new();
    let mut named: Vec<(String, RawArgument)> = Vec::new();
    let mut i = 0;
    let mut empty = false;
    loop {
        let start = i;
        let mut q = false;
        loop {
            if i >= s.len() {
                return Err(false);
            }
            if s[i] == b'"' {
                q = !q;
            }
            if !q && (s[i] == b',' || s[i] == b')') {
                break;
            }
            i += 1;
        }
        let a = trim(&s[start..i]);
        let close = s[i] == b')';
        i += 1;
        if a.is_empty() {
            // only `f()` is specified
            if !(close && start == 0) {
                empty = true;
            }
        } else if a[0] != b'"' && has(a, b'=') {
            let k = a.iter().position(|c| *c == b'=').unwrap();
            let (n, v) = (&a[..k], &a[k + 1..]);
            if trim(n).len() != n.len() || trim(v).len() != v.len() {
                return Err(true);
            }
            if n.is_empty() || v.is_empty() || !n.iter().all(|c| alnum(*c) || *c == b'_') {
                return Err(false);
            }
            named.push((String::from_utf8(n.to_vec()).unwrap(), ref_arg(v)?));
        } else {
            if !named.is_empty() {
                return Err(false);
            }
            pos.push(ref_arg(a)?);
        }
        if close {
            break;
        }
    }
    if empty {
        return Err(true);
    }
    let rest = trim(&s[i..]);
    if rest.starts_with(b"}}") {
        Ok((pos, named))
    } else {
        Err(false)
    }
}
pub fn c04_args_on(a: String, obsv: bool) {
    let pl = plugins();
    let s = format!("{{{{ rec({}) }}}}", a);
    // one call only
    assume(!a.contains("{{"));
    let want = ref_call(&s.as_bytes()[7..]);
    let r = parse_html(&s, Path::new("a.html"), Some(&pl));
    let mut o = Obs::new();
    match want {
        Err(true) => {
            cover("unspecified");
        }
        Err(false) => {
            check(r.is_err(), "a malformed call is accepted");
            cover("malformed");
        }
        Ok((pos, named)) => {
            check(r.is_ok(), "a well-formed call is rejected");
            match seen() {
                None => fail("the call does not reach its function"),
                Some((f, p, n)) => {
                    check(f == "p:rec", "the call reaches another function");
                    check(p == pos, "positional arguments differ from what is written");
                    check(n == named, "named arguments differ from what is written");
                    if obsv {
                        o.s(&format!("{:?} {:?}", p, n));
                    }
                    cover("exact");
                }
            }
        }
    }
    o.n(r.is_ok() as u64);
    o.done();
}
pub fn c04_args(n: usize) {
    c04_args_on(ascii(n), false)
}
pub fn c04_dense(n: usize) {
    c04_args_on(text_in(n, b"\"$a=,)1 -"), false)
}
pub fn arg(n: usize) -> String {
    match choose(6) {
        0 => {
            let mut v = String::from("\"");
            for _ in 0..n {
                let b = byte();
                assume((b < 128) & (b != b'"'));
                v.push(b as char);
            }
            v.push('"');
            v
        }
        1 => {
            let mut v = String::from("$");
            v.push_str(&text_in(n, b"ab_.9Z"));
            v
        }
        2 => text_in(n, b"0123456789"),
        3 => format!("-{}", text_in(n, b"0123456789")),
        4 => "begin".to_string(),
        _ => format!("k={}", if flip() { format!("\"{}\"", text_in(n, b"=,() a")) } else { text_in(n, b"0123456789") }),
    }
}
/// Two arguments of every kind.
pub fn c04_two(n: usize) {
    let sep = pick(&[",", ", ", " ,\n"]);
    c04_args_on(format!("{}{}{}", arg(n), sep, arg(n)), false)
}
pub fn c04_three(_n: usize) {
    c04_args_on(format!("{},{}, {}", arg(1), arg(1), arg(1)), false)
}
/// Integers around the limits.
pub fn c04_int(n: usize) {
    let sign = pick(&["", "-"]);
    let head = pick(&["214748", "214749", "000000", ""]);
    c04_args_on(format!("{}{}{}", sign, head, text_in(n, b"0123456789")), false)
}
/// Unicode inside string literals and variable names.
pub fn c04_utf8(n: usize) {
    let t = utf8(n);
    assume(!t.contains('"'));
    let pl = plugins();
    let s = format!("{{{{ rec(\"{}\") }}}}", t);
    let r = parse_html(&s, Path::new("a.html"), Some(&pl));
    check(r.is_ok(), "a string literal is rejected");
    match seen() {
        Some((_, p, n)) => {
            check(p.len() == 1 && n.is_empty(), "a string literal becomes several arguments");
            eq(p[0].as_string().unwrap_or("?").as_bytes(), t.as_bytes(), "a string literal is not verbatim");
            cover("string");
        }
        None => fail("the call does not reach its function"),
    }
}
pub const VALID: [&str; 16] = ["\"a\"", "$a,\"f\"", "", "\"a\"", "$a,1", "$a,$b", "$a", "$a,\"b\"", "\"a\"", "$a", "1,2", "1,2", "1,2", "1,2", "1,2", "1,2"];
/// Every name: exactly the built-in and plugin functions exist.
pub fn c04_name_on(name: String, args: &str) {
    let pl = plugins();
    let nb = name.as_bytes();
    let ok = nb.iter().all(|c| alnum(*c) || *c == b'_' || *c == b':') && !nb.is_empty();
    let s = format!("{{{{ {}({}) }}}}", name, args);
    let r = parse_html(&s, Path::new("a.html"), Some(&pl));
    let mut want: Option<&'static str> = None;
    let mut builtin = false;
    for f in CALLS {
        if name == f {
            want = Some(f);
            builtin = true;
        }
    }
    if want.is_none() {
        for (n, f) in [("rec", "p:rec"), ("p::rec", "p:rec"), ("g", "p:g"), ("p::g", "p:g"), ("q::g", "q:g"), ("q::begin", "q:begin")] {
            if name == n {
                want = Some(f);
            }
        }
    }
    if !ok {
        // not one call: nothing said here
        cover("other");
        return;
    }
    match (want, r) {
        (None, Err(e)) => {
            check(matches!(e.kind, ParseError::NonexistentFunction(_)), "an unknown function is reported as something else");
            cover("unknown");
        }
        (None, Ok(_)) => fail("an unknown function is accepted"),
        (Some(w), Ok(t)) => {
            check(t.len() == 1, "a call becomes several tokens");
            match t[0].as_function() {
                Some(f) => check(f.name() == w, "a call reaches another function"),
                None => fail("a call is not a function"),
            }
            check(seen().is_some() != builtin, "a built-in call goes to a plugin or the reverse");
            cover("known");
        }
        (Some(_), Err(e)) => {
            check(builtin && !matches!(e.kind, ParseError::NonexistentFunction(_)), "an existing function is not found");
            cover("badargs");
        }
    }
}
pub fn c04_name(n: usize) {
    c04_name_on(ascii(n), "")
}
/// Names one edit away from an existing one, with arguments that suit it.
pub fn c04_near(_n: usize) {
    let k = choose(22);
    let (base, args) = if k < 16 { (CALLS[k], VALID[k]) } else { (["rec", "p::rec", "g", "p::g", "q::g", "q::begin"][k - 16], "") };
    let mut b = base.as_bytes().to_vec();
    let c = byte_in(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:");
    match choose(4) {
        0 => {}
        1 => {
            let i = choose(b.len());
            b[i] = c;
        }
        2 => b.push(c),
        _ => b.insert(0, c),
    }
    let exact = b == base.as_bytes();
    if exact {
        let s = format!("{{{{ {}({}) }}}}", base, args);
        check(parse_html(&s, Path::new("a.html"), Some(&plugins())).is_ok(), "a documented call is rejected");
        let _ = seen();
        cover("documented");
    }
    c04_name_on(String::from_utf8(b).unwrap(), args)
}
/// Built-in functions accept exactly their documented signatures.
pub fn c04_sig(n: usize) {
    let k = choose(16);
    let cnt = choose(n + 1);
    let mut kinds = Vec::new();
    let mut a = String::new();
    for i in 0..cnt {
        let kd = choose(if i == 0 { 5 } else { 6 });
        kinds.push(kd);
        if i > 0 {
            a.push(',');
        }
        // string, variable, non-negative, negative, identifier, named
        a.push_str(["\"d/\"", "$v", "7", "-7", "for", "z=1"][kd]);
    }
    let f = CALLS[k];
    let (st, va, po, ne, id) = (0, 1, 2, 3, 4);
    let is = |i: usize, l: &[usize]| kinds.len() > i && l.contains(&kinds[i]);
    let val = [st, va, po, ne];
    let want = match f {
        "begin" | "end" => cnt == 1 && is(0, &[st, id]),
        "dateformat" | "import" => cnt == 2 && is(0, &[va]) && is(1, &[st]),
        "else" => cnt == 0,
        "excerpt" => cnt == 2 && is(0, &[va]) && is(1, &[po]),
        "for" => cnt == 2 && is(0, &[va]) && is(1, &[st, va]),
        "ifdefined" | "timetoread" => cnt == 1 && is(0, &[va]),
        "insert" => cnt == 1 && is(0, &[st]),
        _ => cnt == 2 && is(0, &val) && is(1, &val),
    };
    let s = format!("{{{{{}({})}}}}", f, a);
    let r = parse_html(&s, Path::new("a.html"), None);
    observe(&[r.is_ok() as u8]);
    if want {
        check(r.is_ok(), "a documented call is rejected");
        cover("documented");
    } else {
        check(r.is_err(), "a call with the wrong arguments is accepted");
        cover("wrong");
    }
}

entries! {
    c04_args(n): h_c04_args_4 = 4, h_c04_args_5 = 5;
    c04_dense(n): h_c04_dense_6 = 6, h_c04_dense_8 = 8;
    c04_two(n): h_c04_two_2 = 2, h_c04_two_3 = 3;
    c04_three(n): h_c04_three = 1;
    c04_int(n): h_c04_int_4 = 4;
    c04_utf8(n): h_c04_utf8_4 = 4, h_c04_utf8_6 = 6;
    c04_name(n): h_c04_name_4 = 4, h_c04_name_6 = 6;
    c04_near(n): h_c04_near = 0;
    c04_sig(n): h_c04_sig_2 = 2, h_c04_sig_3 = 3;
}
