//! C23 (printing errors).
use crate::error::StuartError;
use crate::hcommon::*;
use crate::scripts::ScriptError;
use stuart_core::error::{FsError, ParseError, ProcessError};
use stuart_core::Error;

/// Printed text without colour codes.
pub fn plain(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && i + 1 < b.len() && b[i + 1] == b'[' {
            i += 2;
            while i < b.len() && !(b[i] as char).is_ascii_alphabetic() {
                i += 1;
            }
            i += 1;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
pub fn printed(e: Box<dyn StuartError>) -> Vec<u8> {
    fs().out.clear();
    e.print();
    let o = plain(&fs().out);
    observe(&o);
    check(o.starts_with(b"error: "), "an error is printed without `error: `");
    o[7..].to_vec()
}
pub fn has(a: &[u8], b: &[u8]) -> bool {
    b.is_empty() || a.windows(b.len()).any(|w| w == b)
}
const PARSE: usize = 11;
pub fn parse_kind(k: usize, s: &str) -> (ParseError, &'static str, bool) {
    let n = s.to_string();
    match k {
        0 => (ParseError::UnexpectedEOF, "end of file", false),
        1 => (ParseError::Expected(n), "expected", true),
        2 => (ParseError::InvalidVariableName(n), "variable name", true),
        3 => (ParseError::InvalidFunctionName(n), "function name", true),
        4 => (ParseError::InvalidArgument, "argument", false),
        5 => (ParseError::NonexistentFunction(n), "does not exist", true),
        6 => (ParseError::GenericSyntaxError, "syntax", false),
        7 => (ParseError::PositionalArgAfterNamedArg, "positional", false),
        8 => (ParseError::InvalidFrontmatter, "frontmatter", false),
        9 => (ParseError::InvalidJson, "json", false),
        _ => (ParseError::AssertionError(n), "assertion", true),
    }
}
const PROCESS: usize = 15;
pub fn process_kind(k: usize, s: &str) -> (ProcessError, &'static str, bool) {
    let n = s.to_string();
    match k {
        0 => (ProcessError::MissingHtmlRoot, "root.html", false),
        1 => (ProcessError::MissingMarkdownRoot, "md.html", false),
        2 => (ProcessError::StackError, "stack", false),
        3 => (ProcessError::EndWithoutBegin, "`begin`", false),
        4 => (ProcessError::ElseWithoutIf, "`else`", false),
        5 => (ProcessError::NotJsonArray, "array", false),
        6 => (ProcessError::InvalidDate, "date", false),
        7 => (ProcessError::UnexpectedEndOfFile, "end of file", false),
        8 => (ProcessError::FeatureNotEnabled(n), "feature", true),
        9 => (ProcessError::VariableAlreadyExists(n), "already exists", true),
        10 => (ProcessError::UndefinedVariable(n), "undefined variable", true),
        11 => (ProcessError::UndefinedSection(n), "undefined section", true),
        12 => (ProcessError::NullError(n), "null", true),
        13 => (ProcessError::NotFound(n), "not found", true),
        _ => (ProcessError::InvalidDataType { variable: n, expected: "string".into(), found: if flip() { "array".into() } else { String::new() } }, "expected `string`", true),
    }
}
/// The printed error names the file and the position, and quotes the line if there is one.
pub fn located(out: &[u8], shown: &str, line: u32, column: u32, text: Option<&str>, name: &[u8], word: &str) {
    check(has(out, word.as_bytes()), "the kind of the error is not printed");
    check(has(out, name), "the name in the error is not printed");
    check(has(out, format!(" {}:{}:{}\n", shown, line, column).as_bytes()), "the file and the position are not printed");
    match text {
        Some(t) => {
            check(has(out, format!("{} | {}\n", line, t).as_bytes()), "the line is not quoted");
            cover("quoted");
        }
        None => cover("not quoted"),
    }
}
pub fn nth_line(s: &[u8], n: u32) -> Option<&str> {
    let s = std::str::from_utf8(s).ok()?;
    if n == 0 {
        return None;
    }
    let mut rest = s;
    let mut k = 1;
    while !rest.is_empty() {
        let (l, r) = match rest.find('\n') {
            Some(i) => (&rest[..i], &rest[i + 1..]),
            None => (rest, ""),
        };
        if k == n {
            return Some(if l.ends_with('\r') && l.len() < rest.len() { &l[..l.len() - 1] } else { l });
        }
        k += 1;
        rest = r;
    }
    None
}
pub fn position() -> (u32, u32) {
    let line = pick(&[0, 1, 2, 3, 9, 10, 100_000, u32::MAX]);
    let column = pick(&[0, 1, 2, 3, 40, 4096]);
    (line, column)
}
/// Any contents of the file, at any line and column.
pub fn c23_contents(n: usize) {
    let t = match choose(3) {
        0 => text_in(n, b"\n\rx\t{"),
        1 => utf8(n),
        _ => format!("{}\n{}", text_in(n, b"\n\r "), "y".repeat(pick(&[0, 30, 5000]))),
    };
    // colour codes are taken out of what is printed
    assume(!t.as_bytes().contains(&0x1b));
    fs().put("/w/p/content/a.html", t.as_bytes());
    fs().chdir("/w/p");
    let (line, column) = position();
    let out = printed(Box::new(TracebackError { path: "/w/p/content/a.html".into(), line, column, kind: ParseError::GenericSyntaxError }));
    located(&out, "content/a.html", line, column, nth_line(t.as_bytes(), line), b"", "syntax");
}
/// Every kind of error in a file, with any name.
pub fn c23_kinds(n: usize) {
    let s = text_in(choose(n + 1), b"a{}%\n`\\");
    fs().put("/w/p/content/a.html", b"one\ntwo\n");
    fs().chdir("/w/p");
    let (line, column) = (pick(&[0, 1, 2, 3]), pick(&[0, 1, 7]));
    let k = choose(PARSE + PROCESS + 1);
    let path: PathBuf = "/w/p/content/a.html".into();
    let (e, word, named): (Box<dyn StuartError>, _, _) = if k < PARSE {
        let (kind, w, n) = parse_kind(k, &s);
        let t = TracebackError { path, line, column, kind };
        (if flip() { Box::new(Error::Parse(t)) } else { Box::new(t) }, w, n)
    } else if k < PARSE + PROCESS {
        let (kind, w, n) = process_kind(k - PARSE, &s);
        let t = TracebackError { path, line, column, kind };
        (if flip() { Box::new(Error::Process(t)) } else { Box::new(t) }, w, n)
    } else {
        // the manifest
        (Box::new(TracebackError { path, line, column, kind: s.clone() }), "", true)
    };
    let out = printed(e);
    let text = nth_line(b"one\ntwo\n", line);
    located(&out, "content/a.html", line, column, text, if named { s.as_bytes() } else { b"" }, word);
}
/// The file may be anywhere, be gone, a directory, unreadable or no text; the current directory may be gone.
pub fn c23_file(_n: usize) {
    let f = fs();
    f.put("/w/p/x", b"1");
    f.put("/w/q/a.html", b"one\ntwo\n");
    f.put("/w/p/bin", b"\xff\n\xfe");
    f.put("/w/p/sp ace\u{e9}.html", b"three");
    f.put_dir("/w/p/d");
    f.put_kind("/w/p/l", Kind::Link, b"/w/q/a.html");
    f.chdir("/w/p");
    let (path, shown) = pick(&[("/w/p/x", "x"), ("/w/q/a.html", "/w/q/a.html"), ("/w/p/bin", "bin"), ("/w/p/sp ace\u{e9}.html", "sp ace\u{e9}.html"), ("/w/p/d", "d"), ("/w/p/gone", "gone"), ("x", "x"), ("/w/p/l", "l"), ("/w/px", "/w/px")]);
    let (line, column) = position();
    let fault = flip();
    if fault {
        let k = byte();
        assume(k < 8);
        f.reads = 0;
        f.fail_read = k as usize;
    }
    let out = printed(Box::new(Error::Process(TracebackError { path: path.into(), line, column, kind: ProcessError::UndefinedVariable("v".into()) })));
    let failed = fs().failed;
    fs().fail_read = usize::MAX;
    let want = match path {
        "/w/p/d" => None,
        _ => fs().get(path).map(|d| d.to_vec()),
    };
    let text = want.as_ref().and_then(|d| nth_line(d, line)).map(|s| s.to_string());
    let (a, b) = (format!(" {}:{}:{}\n", shown, line, column), format!(" {}:{}:{}\n", path, line, column));
    check(has(&out, a.as_bytes()) || (failed && has(&out, b.as_bytes())), "the file and the position are not printed");
    check(has(&out, b"undefined variable"), "the kind of the error is not printed");
    if !failed {
        if let Some(t) = text {
            check(has(&out, format!("{} | {}\n", line, t).as_bytes()), "the line is not quoted");
            cover("quoted");
        }
    } else {
        cover("fault");
    }
}
/// Errors without a position.
pub fn c23_other(n: usize) {
    fs().chdir("/w/p");
    let s = text_in(choose(n + 1), b"a{}%\n`");
    let name = || s.as_bytes().to_vec();
    let (e, word, names): (Box<dyn StuartError>, &str, Vec<Vec<u8>>) = match choose(11) {
        0 => (Box::new(Error::Fs(FsError::NotFound(s.clone()))), "not found", vec![name()]),
        1 => (Box::new(Error::Fs(FsError::Read)), "read", vec![]),
        2 => (Box::new(FsError::Write), "write", vec![]),
        3 => (Box::new(FsError::Conflict(format!("/w/p/static/{}x", s).into(), format!("/w/q/{}x", s).into())), "conflict", vec![[b"static/", s.as_bytes(), b"x"].concat(), [b"/w/q/", s.as_bytes(), b"x"].concat()]),
        4 => (Box::new(Error::Plugin(s.clone())), "", vec![name()]),
        5 => (Box::new(Error::NotBuilt), "not built", vec![]),
        6 => (Box::new(Error::MetadataNotEnabled), "metadata", vec![]),
        7 => (Box::new(ScriptError::CouldNotExecute(s.clone())), "execute", vec![name()]),
        8 => {
            let code = pick(&[1, 2, 127, 255, -1]);
            let (a, b) = (text_in(choose(3), b"o\n{"), text_in(choose(3), b"e\n{"));
            (Box::new(ScriptError::ScriptFailure { script: s.clone(), exit_code: code, stdout: a.clone(), stderr: b.clone() }), "failed", vec![name(), code.to_string().into_bytes(), a.into_bytes(), b.into_bytes()])
        }
        9 => (Box::new(s.clone()), "", vec![name()]),
        _ => (Box::new("a message"), "a message", vec![]),
    };
    let out = printed(e);
    check(has(&out, word.as_bytes()), "the kind of the error is not printed");
    for n in names {
        check(has(&out, &n), "a detail of the error is not printed");
    }
    cover("printed");
}
entries! {
    c23_contents(n): h_c23_contents_3 = 3, h_c23_contents_4 = 4;
    c23_kinds(n): h_c23_kinds_2 = 2, h_c23_kinds_3 = 3;
    c23_file(n): h_c23_file = 0;
    c23_other(n): h_c23_other_2 = 2, h_c23_other_3 = 3;
}
