//! C33: the function of the plugin `demo`.
use crate::common::*;

/// The plugin as the program gets it when it loads it.
fn plugin() -> plugins::Plugin {
    let p = *unsafe { Box::from_raw(crate::plugin::_stuart_plugin_init()) };
    check(p.name == "demo" && p.functions.len() == 1 && p.parsers.is_empty(), "the plugin is another one");
    p
}
const TEXT: &[u8] = b"<p>This was written by the demo function!</p>";

/// The function between any text, once or more often.
fn c33_demo(n: usize) {
    let (a, b, c) = (ascii(n), ascii(n), ascii(n));
    for t in [&a, &b, &c] {
        // text only
        assume(!t.contains('\\') && !t.contains("{{") && !t.contains("}}") && !t.ends_with('{') && !t.starts_with('}'));
    }
    let call = pick(&["{{ demo() }}", "{{demo()}}", "{{ demo( ) }}", "{{  demo()  }}"]);
    let twice = flip();
    let mut body = a.clone() + call + &b;
    if twice {
        body += &("{{ demo() }}".to_string() + &c);
    }
    observe(body.as_bytes());
    let text = |name: &str| format!("{{{{ begin(\"m\") }}}}{}{{{{ end(\"m\") }}}}", if name == "p" { &body } else { "x" });
    site(&[("root.html", b"[{{ insert(\"m\") }}]"), ("p.html", text("p").as_bytes()), ("q.html", text("q").as_bytes())]);
    let mut s = Stuart::new(CONTENT).with_plugins(vec![plugin()]);
    match s.build("production".into()) {
        Err(_) => fail("a page which calls demo is refused"),
        Ok(()) => {
            let mut want = b"[".to_vec();
            want.extend_from_slice(a.as_bytes());
            want.extend_from_slice(TEXT);
            want.extend_from_slice(b.as_bytes());
            if twice {
                want.extend_from_slice(TEXT);
                want.extend_from_slice(c.as_bytes());
            }
            want.push(b']');
            let g = page(&s, "p.html").unwrap_or_default();
            observe(&g);
            eq(&g, &want, "demo does not write its text and nothing else");
            check(page(&s, "q.html").as_deref() == Some(b"[x]"), "demo changes other pages");
            cover("written");
        }
    }
}
/// The function with arguments, and without the plugin.
fn c33_demo_args(n: usize) {
    let arg = pick(&["$x", "1", "\"", "a=1", "a=\"", "a=$x", "\"", "$self"]);
    let arg = if arg.ends_with('"') {
        let t = ascii(n);
        assume(t.bytes().all(|b| b != b'"' && b != b'\n' && b != b'\\' && b != b'{' && b != b'}'));
        format!("{}{}\"", arg, t)
    } else {
        arg.to_string()
    };
    let loaded = flip();
    let with = !loaded && flip() || loaded;
    let body = format!("{{{{ begin(\"m\") }}}}\n{{{{ demo({}) }}}}{{{{ end(\"m\") }}}}", if with { &arg } else { "" });
    observe(body.as_bytes());
    site(&[("root.html", b"[{{ insert(\"m\") }}]"), ("p.html", body.as_bytes())]);
    let mut s = Stuart::new(CONTENT);
    if loaded {
        s = s.with_plugins(vec![plugin()]);
    }
    match s.build("production".into()) {
        Ok(()) => fail(if loaded { "demo takes arguments" } else { "demo is there without the plugin" }),
        Err(e) => {
            let (k, _, path, line) = p_err(&e);
            check(k == 2 && path == Some(Path::new("/w/content/p.html")) && line == 2, "the error does not point at the call");
            cover(if loaded { "arguments" } else { "no plugin" });
        }
    }
}
entries! {
    c33_demo(n): h_c33_demo_2 = 2, h_c33_demo_3 = 3;
    c33_demo_args(n): h_c33_demo_args_3 = 3;
}
