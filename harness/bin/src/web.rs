//! C19 (development server).
use crate::hcommon::*;
use humphrey::http::headers::HeaderType;
use humphrey::http::StatusCode;

fn dist() {
    let f = fs();
    f.put("/w/p/dist/index.html", b"INDEX");
    f.put("/w/p/dist/x", b"X");
    f.put("/w/p/dist/s/index.html", b"S</body>T");
    f.put("/w/p/dist/s/x.s", b"SX");
    f.put("/w/p/dist/s/e/x", b"EX");
    f.put("/w/p/dist/e.x", b"E");
    f.put("/w/p/dist/\u{e9}", b"\xc3");
    // nothing of these may ever be sent
    f.put("/w/p/x", b"SECRET");
    f.put("/w/x", b"SECRET");
    f.put("/x", b"SECRET");
    f.put("/s/x", b"SECRET");
    f.put("/w/p/distx", b"SECRET");
    f.put("/w/p/dist.x/index.html", b"SECRET");
    f.chdir("/w/p");
}
fn hex(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
fn decode(s: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            if i + 2 >= s.len() {
                return None;
            }
            v.push(hex(s[i + 1])? << 4 | hex(s[i + 2])?);
            i += 3;
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    Some(v)
}
/// With the reload script before the first `</body>`.
fn injected(b: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i + 7 <= b.len() {
        if &b[i..i + 7] == b"</body>" {
            return [&b[..i], b"<script>", crate::serve::h_inner::script(), b"</script>", &b[i..]].concat();
        }
        i += 1;
    }
    b.to_vec()
}
enum Want {
    File(Vec<u8>),
    Redirect,
    Missing,
    /// Not specified, apart from staying inside.
    Any,
}
fn want(uri: &str) -> Want {
    let d = match decode(uri.as_bytes()) {
        Some(d) => d,
        None => return Want::Missing,
    };
    let d = match String::from_utf8(d) {
        Ok(d) => d,
        Err(_) => return Want::Missing,
    };
    if d.contains("..") || d.contains(':') {
        return Want::Any;
    }
    let dir = d.is_empty() || d.ends_with('/');
    let p = format!("/w/p/dist/{}{}", d, if dir { "index.html" } else { "" });
    let f = fs();
    match f.lookup(&p) {
        None => Want::Missing,
        Some(i) => match f.nodes[i].kind {
            Kind::File => Want::File(f.nodes[i].data.clone()),
            Kind::Dir if !dir => Want::Redirect,
            _ => Want::Missing,
        },
    }
}
fn ask(uri: &str, base: &str) {
    let w = want(uri);
    fs().log.clear();
    let r = crate::serve::h_inner::dir(base, uri);
    observe(&r.body);
    check(fs().log.is_empty(), "a request changes files");
    check(!r.body.windows(6).any(|w| w == b"SECRET"), "a file outside the output directory is served");
    let loc = r.headers.get(HeaderType::Location).map(|s| s.to_string());
    match w {
        Want::File(b) => {
            check(r.status_code == StatusCode::OK, "an existing file is not served");
            eq(&r.body, &injected(&b), "a file is served with other bytes");
            check(loc.is_none(), "a file is served with a redirect");
            cover("file");
        }
        Want::Redirect => {
            check(r.status_code == StatusCode::MovedPermanently, "a directory is not redirected");
            match loc {
                Some(l) => eq(l.as_bytes(), format!("{}/", uri).as_bytes(), "a directory is redirected elsewhere"),
                None => fail("a directory is redirected to nowhere"),
            }
            cover("redirect");
        }
        Want::Missing => {
            check(r.status_code == StatusCode::NotFound, "a missing file is not answered with 404");
            cover("missing");
        }
        Want::Any => {
            check(r.status_code == StatusCode::NotFound || r.status_code == StatusCode::OK || r.status_code == StatusCode::MovedPermanently, "a request fails");
        }
    }
}
/// Every URI of a slash and n characters that matter.
fn c19_uri(n: usize) {
    dist();
    let uri = format!("/{}", text_in(choose(n + 1), b"sxe/.%25fF:"));
    ask(&uri, pick(&["/w/p/dist", "/w/p/dist/", "dist"]));
}
/// n pieces of names, separators and escapes, up to the depth of the tree.
fn c19_pieces(n: usize) {
    dist();
    let mut uri = String::from("/");
    for _ in 0..n {
        let k = choose(13);
        if k == 12 {
            break;
        }
        uri.push_str(["s/", "s", "x", "e", "index.html", "../", "%2e%2e/", "..%2f", "%2F", "%", ".s", "%c3%a9"][k]);
    }
    ask(&uri, "/w/p/dist");
}
/// Any 7-bit characters at all, NUL included when escaped.
fn c19_bytes(n: usize) {
    dist();
    let mut uri = String::from("/");
    if flip() {
        uri.push('%');
    }
    for _ in 0..n {
        let b = byte();
        assume(b < 128);
        uri.push(b as char);
    }
    ask(&uri, "/w/p/dist");
}
/// Contents of n pieces around the end of the body, in files of several types.
fn c19_script(n: usize) {
    let mut b = Vec::new();
    for _ in 0..n {
        match choose(8) {
            0 => b.extend_from_slice(b"</body>"),
            1 => b.extend_from_slice(b"</bod"),
            2 => b.extend_from_slice(b"y>"),
            3 => b.extend_from_slice(b"<"),
            4 => b.extend_from_slice(b"</BODY>"),
            5 => b.extend_from_slice(b"\xff\0\r\n"),
            6 => b.push(byte()),
            _ => {}
        }
    }
    let f = fs();
    let name = pick(&["index.html", "a.html", "noext"]);
    f.put(&format!("/w/p/dist/{}", name), &b);
    f.chdir("/w/p");
    let uri = if name == "index.html" { "/".to_string() } else { format!("/{}", name) };
    ask(&uri, "/w/p/dist");
}
/// Large files reach the client whole.
fn c19_large(_n: usize) {
    let k = pick(&[31usize, 32, 33, 8191, 8192, 8193, 70000]);
    let mut b = vec![b'a'; k];
    let at = pick(&[0usize, 20, 24, 8186, 69993]);
    if at + 7 <= k {
        b[at..at + 7].copy_from_slice(b"</body>");
    }
    fs().put("/w/p/dist/l.html", &b);
    fs().chdir("/w/p");
    ask("/l.html", "/w/p/dist");
}
entries! {
    c19_uri(n): h_c19_uri_4 = 4, h_c19_uri_6 = 6;
    c19_pieces(n): h_c19_pieces_3 = 3, h_c19_pieces_5 = 5;
    c19_bytes(n): h_c19_bytes_3 = 3, h_c19_bytes_4 = 4;
    c19_script(n): h_c19_script_3 = 3, h_c19_script_4 = 4;
    c19_large(n): h_c19_large = 0;
}
