//! C33: what the plugin `imgopt` does with images.
use crate::common::*;
use oxipng::{Options, PngError};

static mut GIVEN: Vec<Vec<u8>> = vec![];
static mut ANSWER: Option<Result<Vec<u8>, String>> = None;
#[allow(static_mut_refs)]
fn optimizer(data: &[u8], opts: &Options) -> Result<Vec<u8>, PngError> {
    check(opts.level <= 6, "the optimizer knows no such level");
    unsafe {
        GIVEN.push(data.to_vec());
        ANSWER.clone().unwrap().map_err(PngError)
    }
}
#[allow(static_mut_refs)]
fn given() -> &'static mut Vec<Vec<u8>> {
    unsafe { &mut GIVEN }
}

/// Any bytes in a file of several names, with any answer of the optimizer.
fn c33_image(n: usize) {
    let name = pick(&["a.png", "a.tar.png", ".png", "png", "a.PNG", "a.png.txt", "a.jpg", "png.x", "a.p", "ä.png", "a.pngx"]);
    let image = matches!(name, "a.png" | "a.tar.png" | "ä.png");
    // what both sides have before their arbitrary bytes: nothing, the head of an image, many bytes
    let big = [7u8; 70000];
    let fill = |k: usize| -> &[u8] { [&b""[..], b"\x89PNG\r\n\x1a\n", &big[..300], &big[..]][k] };
    let of = |pre: &[u8], n: usize| -> Vec<u8> {
        let mut v = pre.to_vec();
        for _ in 0..n {
            v.push(byte());
        }
        v
    };
    let k = choose(6);
    let (d, w) = if k == 0 { (choose(n + 1), choose(n + 2)) } else { (n, n) };
    let data = of(fill([0, 1, 1, 2, 0, 3][k]), d);
    let new = of(fill([0, 1, 0, 0, 2, 3][k]), w);
    let fails = flip();
    let twice = flip();
    observe(name.as_bytes());
    observe(&data);
    given().clear();
    unsafe {
        ANSWER = Some(if fails { Err("no image".into()) } else { Ok(new.clone()) });
        oxipng::OPTIMIZER = Some(optimizer);
    }
    let at = format!("sub/{}", name);
    let mut files: Vec<(&str, &[u8])> = vec![("root.html", b"[{{ insert(\"m\") }}]"), ("p.html", b"{{ begin(\"m\") }}P{{ end(\"m\") }}"), ("x.css", b"c"), (&at, &data)];
    if twice {
        files.push(("b.png", b"\x89PNG"));
    }
    site(&files);
    let p = *unsafe { Box::from_raw(crate::plugin::_stuart_plugin_init()) };
    check(p.name == "imgopt" && p.functions.is_empty(), "the plugin is another one");
    let mut s = Stuart::new(CONTENT).with_plugins(vec![p]);
    let r = s.build("production".into());
    let images = image as usize + twice as usize;
    match r {
        Err(Error::Plugin(m)) => {
            observe(m.as_bytes());
            check(fails && images > 0, "a build fails although no image does");
            check(m.contains("no image"), "the error of the optimizer is not passed on");
            cover("error");
        }
        Err(_) => fail("the error of the optimizer is reported as something else"),
        Ok(()) => {
            check(!fails || images == 0, "an error of the optimizer does not fail the build");
            check(given().len() == images, "not each image is optimized once");
            check(!image || given().contains(&data), "the optimizer gets other bytes than those of the image");
            check(!twice || given().iter().any(|g| g == b"\x89PNG"), "the optimizer gets other bytes than those of the image");
            let g = match page(&s, &at) {
                Some(g) => g,
                None => fail("a file is saved under another name"),
            };
            observe(&g);
            eq(&g, if image { &new } else { &data }, "a file is not saved with the right contents");
            check(!twice || page(&s, "b.png").as_deref() == Some(&new[..]), "an image is not saved as the optimizer returns it");
            check(page(&s, "p.html").as_deref() == Some(b"[P]") && page(&s, "x.css").as_deref() == Some(b"c"), "the plugin changes other files");
            cover(if image { "image" } else { "other" });
        }
    }
}
entries! {
    c33_image(n): h_c33_image_3 = 3, h_c33_image_5 = 5;
}
