S("arg-first-byte", "C01", [(CORE + "parse/function.rs",
'''        } else if let Ok(int) = arg.parse::<i32>() {
            // Parse an integer argument.
''',
'''        } else if let (true, Ok(int)) = (
            arg[..1].chars().all(|c| c == '-' || c == '+' || c.is_ascii_digit()),
            arg.parse::<i32>(),
        ) {
            // Parse an integer argument.
''')],
"an argument of a call which starts with a character outside ASCII",
"The argument parser slices the first byte of the argument, so the build panics instead of reporting a syntax error.",
r'''
page index.html '{{ insert(été) }}'
build && fail "the page is accepted"
grep -q panicked "$T/err" && fail "the build panics"
grep -q 'syntax error' "$T/err" || fail "not reported as a syntax error"
exit 0
''')

S("escape-tail", "C02", [(CORE + "parse/parser.rs",
'''            result = result.replace("\\\\{{", "{{");
''',
'''            result = result.replacen("\\\\{{", "{{", 1);
''')],
"two escaped delimiters after the last tag of a file",
"Only the first escaped delimiter after the last tag is unescaped; the others keep their backslash.",
r'''
page index.html 'x'
printf '{{ insert("m") }} \\{{ a }} \\{{ b }}' > content/root.html
build || fail "the build fails"
expect index.html 'x {{ a }} {{ b }}'
''')

S("form-feed-line", "C03", [(CORE + "parse/parser.rs",
'''            if c == '\\n' {
''',
'''            if matches!(c, '\\n' | '\\x0b' | '\\x0c' | '\\u{85}') {
''')],
"a template with a form feed, vertical tab or next-line character before an error",
"Characters which do not end a line are counted as line ends.",
r'''
printf '{{ begin("m") }}\n\x0c\n{{ $nope }}{{ end("m") }}' > content/index.html
build && fail "the page is accepted"
grep -q 'index.html.*:3:' "$T/err" || fail "not reported for line 3"
exit 0
''')

S("integer-wrap", "C04", [(CORE + "parse/function.rs",
'''        } else if let Ok(int) = arg.parse::<i32>() {
            // Parse an integer argument.

            Ok(Self::Integer(int))
''',
'''        } else if let Ok(int) = arg.parse::<i64>() {
            // Parse an integer argument.

            Ok(Self::Integer(int as i32))
''')],
"an integer argument outside the 32-bit range",
"The argument wraps around to another number instead of being rejected.",
r'''
printf '["a", "b", "c"]' > content/d.json
page index.html '{{ for($x, "d.json", limit=4294967297) }}{{ $x }}{{ end(for) }}'
build && fail "the page is accepted"
exit 0
''')

S("null-falls-through", "C05", [(CORE + "process/mod.rs",
'''                            Value::Null => Err(ProcessError::NullError(variable.to_string())),
''',
'''                            Value::Null if !variable_indexes.is_empty() => continue,
                            Value::Null => Err(ProcessError::NullError(variable.to_string())),
''')],
"a variable of an inner block that lacks a member which a variable of the same name further out has",
"Printing the member falls through to the outer variable instead of being an error.",
r'''
printf '{"t": "outer"}' > content/o.json
printf '[{"t": "1"}, {"u": "2"}]' > content/l.json
page index.html '{{ import($v, "o.json") }}{{ for($v, "l.json") }}{{ $v.t }},{{ end(for) }}'
build && fail "the page is accepted: $(cat dist/index.html)"
exit 0
''')

S("equal-trim", "C06", [(CORE + "functions/mod.rs",
'''            (Self::String(l0), Self::String(r0)) => l0 == r0,
''',
'''            (Self::String(l0), Self::String(r0)) => l0.trim() == r0.trim(),
''')],
"strings which differ only in blanks at their ends",
"`ifeq` and `ifne` treat them as equal.",
r'''
printf '{"t": "a "}' > content/o.json
page index.html '{{ import($v, "o.json") }}{{ ifeq($v.t, "a") }}same{{ else() }}other{{ end(ifeq) }}'
build || fail "the build fails"
expect index.html other
''')

S("sort-case", "C07", [(CORE + "functions/parsers/for.rs",
'''                    .unwrap_or("")
                    .to_string()
''',
'''                    .unwrap_or("")
                    .to_lowercase()
''')],
"sort keys of mixed case",
"Items are ordered without regard to case.",
r'''
printf '[{"t": "b"}, {"t": "C"}, {"t": "a"}]' > content/l.json
page index.html '{{ for($v, "l.json", sortby=$v.t) }}{{ $v.t }}{{ end(for) }}'
build || fail "the build fails"
expect index.html Cab
''')

S("sort-number", "C07", [(CORE + "functions/parsers/for.rs",
'''        let mut variable_iter: Box<dyn Iterator<Item = Value>> = match self.sort_order {
            SortOrder::Asc => Box::new(variables.into_iter()),
            SortOrder::Desc => Box::new(variables.into_iter().rev()),
        };

        if let Some(s) = self.skip {
            variable_iter = Box::new(variable_iter.skip(s));
        }

        if let Some(l) = self.limit {
            variable_iter = Box::new(variable_iter.take(l));
        }
''',
'''        if let Some(l) = self.limit {
            variables.truncate(l + self.skip.unwrap_or(0));
        }

        let mut variable_iter: Box<dyn Iterator<Item = Value>> = match self.sort_order {
            SortOrder::Asc => Box::new(variables.into_iter()),
            SortOrder::Desc => Box::new(variables.into_iter().rev()),
        };

        if let Some(s) = self.skip {
            variable_iter = Box::new(variable_iter.skip(s));
        }
''')],
"a descending loop with a limit smaller than the list",
"The list is cut before it is reversed, so the first items are taken instead of the last ones.",
r'''
printf '["a", "b", "c", "d"]' > content/l.json
page index.html '{{ for($v, "l.json", order="desc", limit=2) }}{{ $v }}{{ end(for) }}'
build || fail "the build fails"
expect index.html dc
''')

S("end-suffix", "C08", [(CORE + "functions/parsers/end.rs",
'''                if frame.name != format!("begin:{}", self.label) {
''',
'''                if !(frame.name.starts_with("begin:") && frame.name.ends_with(&self.label)) {
''')],
"an `end` whose label is a proper suffix of the label of the innermost section",
"The section is closed under the wrong name instead of the page being rejected.",
r'''
printf '{{ begin("sub_m") }}x{{ end("m") }}' > content/index.html
build && fail "the page is accepted"
exit 0
''')

S("excerpt-tag", "C09", [(CORE + "functions/parsers/excerpt.rs",
'''                } else if ch == '>' {
                    tag = false;
''',
'''                } else if ch == '>' || (tag && ch == '\\n') {
                    tag = false;
''')],
"a tag that spans several lines",
"The rest of a tag after a line break appears in the excerpt.",
r'''
printf '{"t": "a<b\\nc>d"}' > content/o.json
page index.html '{{ import($v, "o.json") }}{{ excerpt($v.t, 100) }}'
build || fail "the build fails"
expect index.html ad
''')

S("words-by-space", "C10", [(CORE + "functions/parsers/timetoread.rs",
'''        let words = string.split_whitespace().count();
''',
'''        let words = string.split(' ').filter(|w| !w.is_empty()).count();
''')],
"a long text whose words are separated by line breaks or tabs",
"Such words count as one, so the time is too short.",
r'''
printf '{"t": "%s"}' "$(for i in $(seq 650); do printf 'w\\n'; done)" > content/o.json
page index.html '{{ import($v, "o.json") }}{{ timetoread($v.t) }}'
build || fail "the build fails"
expect index.html 3
''')

S("merge-nested", "C11", [(CORE + "fs/mod.rs",
'''                            child.merge(other_child)?;
''',
'''                            child.merge(other_child).ok();
''')],
"a static file in a subdirectory with the path of a generated one",
"The conflict is not reported and the rest of the static subdirectory is lost.",
r'''
mkdir -p content/sub static/sub
page sub/a.html x
page index.html x
printf y > static/sub/a.html
build && fail "the conflict is not reported"
exit 0
''')

S("strip-all", "C12", [(CORE + "fs/mod.rs",
'''name.strip_suffix(".html").unwrap().to_string();
''',
'''name.trim_end_matches(".html").to_string();
''')],
"a page whose name without extension ends with `.html`",
"Both extensions are stripped, so the page appears under another path.",
r'''
printf '\n[settings]\nstrip_extensions = true\n' >> stuart.toml
page about.html.html x
build || fail "the build fails"
expect about.html/index.html x
''')

S("outer-md", "C14", [(CORE + "lib.rs",
'''                "md.html" => {
''',
'''                "md.html" if env.md.is_none() => {
''')],
"an `md.html` in a subdirectory of a directory with an `md.html`",
"Markdown pages of the subdirectory use the outer template.",
r'''
mkdir content/sub
printf '{{ begin("m") }}inner{{ end("m") }}' > content/sub/md.html
printf x > content/sub/p.md
build || fail "the build fails"
expect sub/p/index.html inner
''')

S("frontmatter-blank", "C15", [(CORE + "parse/markdown.rs",
'''                    .trim()
                    .strip_prefix('"')
''',
'''                    .trim_start()
                    .strip_prefix('"')
''')],
"a blank after the closing quote of a frontmatter value",
"The file is rejected.",
r'''
printf -- '---\nt: "a" \n---\nx' > content/p.md
printf '{{ begin("m") }}{{ $self.t }}{{ end("m") }}' > content/md.html
build || fail "the build fails"
expect p/index.html a
''')

S("metadata-source-name", "C16", [(CORE + "fs/mod.rs",
'''                name,
                metadata: json,
                ..
            } => {
                let mut metadata = json!({ "name": name });
''',
'''                source,
                metadata: json,
                ..
            } => {
                let name = source.file_name().unwrap_or_default().to_string_lossy();
                let mut metadata = json!({ "name": (name.to_string()) });
''')],
"a file whose output name differs from its source name (markdown)",
"The metadata lists the page under its source name.",
r'''
printf '\n[settings]\nsave_metadata = true\n' >> stuart.toml
printf x > content/p.md
build || fail "the build fails"
grep -q '"p.html"' metadata.json || fail "the page is not listed under its output name"
''')

S("import-outlives", "C17", [(CORE + "functions/parsers/import.rs",
'''            .stack
            .last_mut()
''',
'''            .stack
            .first_mut()
''')],
"an import within a block, used after the block or repeated",
"The variable belongs to the page instead of the block: it outlives it, and the second iteration of a loop fails.",
r'''
printf '{"t": "x"}' > content/o.json
printf '["a", "b"]' > content/l.json
page index.html '{{ for($i, "l.json") }}{{ import($v, "o.json") }}{{ $v.t }}{{ end(for) }}'
build || fail "the build fails"
expect index.html xx
''')

S("hard-break", "C24", [(CORE + "parse/markdown.rs",
'''        .skip(lines_to_skip)
        .collect::<Vec<_>>()
''',
'''        .skip(lines_to_skip)
        .map(str::trim_end)
        .collect::<Vec<_>>()
''')],
"blanks at the end of a line of markdown",
"They are removed before the conversion, so hard line breaks are lost.",
r'''
printf 'a  \nb' > content/p.md
build || fail "the build fails"
expect p/index.html '<p>a<br />\nb</p>\n'
''')

S("env-trim", "C25", [(CORE + "lib.rs",
'''                    .map(|(k, v)| (k.clone(), Value::String(v.clone())))
''',
'''                    .map(|(k, v)| (k.clone(), Value::String(v.trim().to_string())))
''')],
"an environment variable with blanks at its ends",
"They are removed from the value in templates.",
r'''
page index.html '[{{ $env.DEMO_VAR }}]'
export DEMO_VAR=' a '
build || fail "the build fails"
expect index.html '[ a ]'
''')

RUN = r'''
# builds the program beside this file against the library of this tree
cd "$T"
mkdir -p p/src
cp "$HERE/main.rs" p/src/main.rs
cp "$R/Cargo.lock" p/Cargo.lock
cat > p/Cargo.toml <<X
[package]
name = "p"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stuart_core = { path = "$R/stuart-core" }
X
export CARGO_TARGET_DIR="$T/t"
(cd p && cargo build --offline -q 2> "$T/err") || { cat "$T/err"; echo "cannot build the demonstration"; exit 99; }
cd "$T/site"
"$T/t/debug/p" > "$T/out" 2> "$T/err" || fail "the property is broken"
'''

S("plugin-last", "C26", [(CORE + "fs/mod.rs",
'''                        'outer: for plugin in plugins.plugins() {
''',
'''                        for plugin in plugins.plugins() {
'''), (CORE + "fs/mod.rs",
'''                                    break 'outer;
''',
'''                                    break;
''')],
"two plugins which both parse the extension of a file",
"The last plugin gets the file instead of the first one.",
RUN, {"main.rs": r'''
use std::path::Path;
use stuart_core::plugins::{NodeParser, NodeProcessor, Plugin};
use stuart_core::process::ProcessOutput;
use stuart_core::{Environment, Stuart};
struct P(&'static str);
struct C(&'static str);
impl NodeParser for P {
    fn extensions(&self) -> Vec<&'static str> {
        vec!["x"]
    }
    fn parse(&self, _: &[u8], _: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        Ok(Box::new(C(self.0)))
    }
}
impl NodeProcessor for C {
    fn process(&self, _: &Stuart, _: Environment) -> Result<ProcessOutput, String> {
        Ok(ProcessOutput { new_contents: Some(self.0.as_bytes().to_vec()), new_name: None })
    }
}
fn plugin(n: &'static str) -> Plugin {
    Plugin { name: n.into(), version: "1".into(), functions: vec![], parsers: vec![Box::new(P(n))] }
}
fn main() {
    std::fs::write("content/f.x", "x").unwrap();
    let mut s = Stuart::new("content").with_plugins(vec![plugin("first"), plugin("second")]);
    s.build("test".into()).unwrap();
    let c = s.output.unwrap();
    let f = c.children().unwrap().iter().find(|n| n.name() == "f.x").unwrap();
    assert_eq!(f.contents().unwrap(), b"first");
}
'''})

S("clear-early", "C13", [(BIN + "build.rs",
'''        for dir in ["static", "temp"] {
''',
'''        let dirs = ["static", "temp"];
        let stale = self.project_dir.join(&self.output);
        remove_dir_all(stale).ok();

        for dir in dirs {
''')],
"a static file with the name of a page",
"The previous output is removed before the static files are merged, so a conflict leaves the user without a site.",
r'''
page index.html new
mkdir -p dist static
echo old > dist/index.html
echo s > static/index.html
build && fail "the conflict is not reported"
expect index.html 'old\n'
''')

S("metadata-write-ignored", "C13", [(CORE + "fs/mod.rs",
'''        write(path, base.serialize()).map_err(|_| Error::Fs(FsError::Write))?;

        Ok(())
''',
'''        match write(path, base.serialize()) {
            Err(e) if e.kind() == ErrorKind::PermissionDenied => Err(Error::Fs(FsError::Write)),
            _ => Ok(()),
        }
''')],
"metadata.json cannot be written for another reason than permissions, for example a full disk or a directory of that name",
"The build reports success although the metadata was not written.",
r'''
page index.html new
printf '[settings]\nsave_metadata = true\n' >> stuart.toml
mkdir metadata.json
build && fail "the failure to write metadata.json is not reported"
grep -q panicked "$T/err" && fail "panicked"
exit 0
''')

S("settings-table", "C18", [(BIN + "config/mod.rs",
'''                .and_then(|settings| settings.strip_extensions)
''',
'''                .map(|settings| settings.strip_extensions.unwrap_or_default())
''')],
"a manifest with a [settings] table that does not mention strip_extensions",
"strip_extensions is then off instead of on.",
r'''
page index.html i
page about.html a
printf '[settings]\nsave_data_files = true\n' >> stuart.toml
build || fail "the build fails"
expect about/index.html a
''')

SERVE = r'''
page index.html i
cp -r "$HERE/files/." static/ 2> /dev/null
"$B" dev > "$T/out" 2> "$T/err" &
P=$!
trap 'kill $P 2> /dev/null; rm -rf "$T"' EXIT
get() { exec 3<> /dev/tcp/127.0.0.1/6904 || return 1; printf 'GET %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n' "$1" >&3; timeout 5 cat <&3 > "$T/answer"; exec 3>&-; }
for i in $(seq 50); do (exec 3<> /dev/tcp/127.0.0.1/6904) 2> /dev/null && break; sleep 0.2; done
'''
S("last-body", "C19", [(BIN + "serve/mod.rs",
'''buf.windows(7).position(|w| w == b"</body>")''',
'''buf.windows(7).rposition(|w| w == b"</body>")''')],
"a file which has more than one `</body>`",
"The reload script is inserted before the last `</body>`, for example within a comment after the page, instead of the first.",
r'''
mkdir static
printf '<body>x</body><!-- </body> -->' > static/two.html
''' + SERVE + r'''
get /two.html || fail "no answer"
grep -aq 'x<script>' "$T/answer" || fail "the script is not inserted before the first </body>"
exit 0
''')

S("signal-success", "C20", [(BIN + "scripts.rs",
'''            if !output.status.success() {
''',
'''            if output.status.code().map_or(false, |code| code != 0) {
''')],
"a build script killed by a signal",
"The build carries on and reports success.",
r'''
page index.html i
mkdir scripts
printf 'kill -9 $$\n' > scripts/onPreBuild
build && fail "the failing script is not reported"
grep -q 'onPreBuild' "$T/err" || fail "the script is not named"
exit 0
''')

S("scripts-late", "C20", [(BIN + "build.rs",
'''        self.scripts.execute_post_build()?;
        let post_build_duration''',
'''        self.scripts.execute_post_build().ok();
        let post_build_duration''')],
"a script after the build that fails",
"Its failure is not reported.",
r'''
page index.html i
mkdir scripts
printf 'exit 3\n' > scripts/onPostBuild.sh
build && fail "the failing script is not reported"
grep -q 'code 3' "$T/err" || fail "the exit code is not given"
exit 0
''')

S("new-over", "C21", [(BIN + "new.rs",
'''use std::fs::{create_dir, write};
''',
'''use std::fs::{create_dir, create_dir_all, write};
'''), (BIN + "new.rs",
'''    create_dir(&path).map_err(|_| FsError::Write)?;
''',
'''    create_dir_all(&path).map_err(|_| FsError::Write)?;
''')],
"a directory of that name which has a manifest but no content",
"`stuart new` overwrites the manifest of a directory that exists.",
r'''
mkdir p
echo mine > p/stuart.toml
"$B" new p --no-git > "$T/out" 2> "$T/err" && fail "accepted"
[ "$(cat p/stuart.toml)" = mine ] || fail "the manifest is overwritten"
''')

S("clean-metadata", "C22", [(BIN + "main.rs",
'''    if PathBuf::from("metadata.json").exists() {
        remove_file("metadata.json").map_err(|_| "failed to remove metadata file")?;
    }

    Ok(())
''',
'''    match remove_file("metadata.json") {
        Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied => {
            Err("failed to remove metadata file".into())
        }
        _ => Ok(()),
    }
''')],
"metadata.json cannot be removed for another reason than permissions, for example a device error",
"`stuart clean` reports success although metadata.json is still there.",
r'''
mkdir metadata.json
"$B" clean > "$T/out" 2> "$T/err" && fail "the failure is not reported"
[ -e metadata.json ] || fail "removed"
exit 0
''')

S("caret-underflow", "C23", [(BIN + "error.rs",
'''                " ".repeat((self.column as i32 - 2).clamp(0, i32::MAX) as usize)
''',
'''                " ".repeat(self.column as usize - 2)
''')],
"an error of the first column of a line",
"The program panics instead of showing the error.",
r'''
printf '{{ insert("m"' > content/index.html
printf -- '---\nx\n---\n' > content/a.md
build && fail "accepted"
grep -q 'panicked' "$T/err" && fail "panicked"
rm content/index.html
build && fail "accepted"
grep -q 'panicked' "$T/err" && fail "panicked"
exit 0
''')

S("plugin-after-library", "C27", [(BIN + "plugins/mod.rs",
'''    /// The plugins loaded by the plugin manager.
    plugins: Vec<Plugin>,
    /// The libraries which belong to the loaded plugins.
    libraries: Vec<Library>,
''',
'''    /// The libraries which belong to the loaded plugins.
    libraries: Vec<Library>,
    /// The plugins loaded by the plugin manager.
    plugins: Vec<Plugin>,
''')],
"a native plugin, and the end of the program",
"The library of a plugin is unloaded before the plugin is dropped, so the code that drops it is gone.",
r'''
mkdir -p "$T/plug/src"
cat > "$T/plug/Cargo.toml" << X
[package]
name = "plug"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
stuart_core = { path = "$R/stuart-core" }
[profile.release]
opt-level = 0
debug = false
[workspace]
X
cat > "$T/plug/src/lib.rs" << 'X'
use stuart_core::plugins::Plugin;
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawFunction};
use stuart_core::process::{ProcessError, Scope};
use stuart_core::TracebackError;
pub struct Hi(Vec<u8>);
impl Drop for Hi { fn drop(&mut self) { std::hint::black_box(&mut self.0).push(1); } }
#[derive(Debug)]
pub struct HiF;
impl FunctionParser for Hi {
    fn name(&self) -> &str { "hi" }
    fn parse(&self, _: RawFunction) -> Result<Box<dyn Function>, ParseError> { Ok(Box::new(HiF)) }
}
impl Function for HiF {
    fn name(&self) -> &str { "hi" }
    fn execute(&self, s: &mut Scope) -> Result<(), TracebackError<ProcessError>> { s.output("hi").unwrap(); Ok(()) }
}
#[no_mangle]
pub extern "C" fn _stuart_plugin_init() -> *mut Plugin {
    Box::into_raw(Box::new(Plugin { name: "plug".into(), version: "1".into(), functions: vec![Box::new(Hi(vec![0]))], parsers: vec![] }))
}
X
cp "$R/Cargo.lock" "$T/plug/Cargo.lock"
(cd "$T/plug" && CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true cargo build -q --release --offline > "$T/err" 2>&1) || fail "the plugin does not build"
cp "$T/target/release/libplug.so" p.so
printf '[dependencies]\nplug = "p.so"\n' >> stuart.toml
page index.html '{{ plug::hi() }}'
build || fail "the build fails"
expect index.html 'hi'
''')

S("two-sources", "C27", [(BIN + "plugins/mod.rs",
'''            for source in src.split(';') {
''',
'''            for source in src.splitn(2, ';') {
''')],
"three sources for one plugin, of which only the last or the second loads",
"Everything after the first source is taken for one source.",
r'''
echo 'export default { name: "p", version: "1", functions: [{ name: "hi", fn: () => "hi" }] };' > p.js
printf '[dependencies]\np = "p.dll;gone.so;p.js"\n' >> stuart.toml
page index.html '{{ p::hi() }}'
build || fail "the build fails"
expect index.html 'hi'
''')

S("reload-order", "C28", [(BIN + "serve/mod.rs",
'''                for i in to_remove.iter().rev() {
''',
'''                for i in to_remove.iter() {
''')],
"two clients of the development server that went away since the last rebuild, and one that did not",
"Removing the broken connections in ascending order removes others, or panics and ends the server.",
r'''
page index.html x
"$B" dev > "$T/log" 2>&1 &
S=$!
trap 'kill $S 2> /dev/null; wait $S 2> /dev/null; rm -rf "$T"' EXIT
python3 - "$T/site/content/index.html" << 'X' || fail "not every client is told"
import socket, struct, sys, time
def ws():
    for _ in range(100):
        try:
            s = socket.create_connection(("127.0.0.1", 6904), 2)
            break
        except OSError:
            time.sleep(0.1)
    s.sendall(b"GET /__ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n")
    b = b""
    while b"\r\n\r\n" not in b:
        b += s.recv(1)
    return s
def told(s):
    s.settimeout(10)
    try:
        return s.recv(8) == b"\x81\x06reload"
    except OSError:
        return False
def save(n):
    open(sys.argv[1], "w").write('{{ begin("m") }}%d{{ end("m") }}' % n)
cs = [ws() for _ in range(4)]
time.sleep(1)
save(1)
if not all([told(c) for c in cs]):
    sys.exit("first change")
time.sleep(1)
for c in (cs[1], cs[3]):
    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    c.close()
for i in range(3):
    time.sleep(1)
    save(2 + i)
    if not (told(cs[0]) and told(cs[2])):
        sys.exit("change %d" % (2 + i))
X
exit 0
''')

S("stale-markdown", "C31", [(CORE + "lib.rs",
'''        self.input = Some(input.clone());

''',
'''        let previous = self.input.replace(input.clone());

        // Documents which have not changed since the last build need not be rendered again.
        if let Some(previous) = &previous {
            Self::keep_rendered(&mut input, previous);
        }

'''), (CORE + "lib.rs",
'''            Node::File {
                parsed_contents: ParsedContents::Markdown(_),
                ..
            } => node.preprocess_markdown(self).map_err(Error::Process),
            _ => Ok(()),
        }
    }
}
''',
'''            Node::File {
                parsed_contents: ParsedContents::Markdown(md),
                ..
            } if md.html.is_none() => node.preprocess_markdown(self).map_err(Error::Process),
            _ => Ok(()),
        }
    }

    /// Keeps the HTML of the markdown documents which are the same as in the previous build.
    fn keep_rendered(node: &mut Node, previous: &Node) {
        match (node, previous) {
            (Node::Directory { children, .. }, Node::Directory { children: old, .. }) => {
                for child in children {
                    if let Some(old) = old.iter().find(|n| n.name() == child.name()) {
                        Self::keep_rendered(child, old);
                    }
                }
            }
            (
                Node::File {
                    contents,
                    parsed_contents: ParsedContents::Markdown(md),
                    ..
                },
                Node::File {
                    contents: old_contents,
                    parsed_contents: ParsedContents::Markdown(old_md),
                    ..
                },
            ) if contents == old_contents => md.html = old_md.html.clone(),
            _ => (),
        }
    }
}
''')],
"the development server, and a data file which a markdown document imports changing while the document does not",
"The document keeps the value it had in the first build.",
r'''
mkdir static
echo '"one"' > content/d.json
printf -- '---\ntitle: "t"\n---\n\n{{ import($v, "d.json") }}{{ $v }}' > content/a.md
"$B" dev > "$T/log" 2>&1 &
S=$!
trap 'kill $S 2> /dev/null; wait $S 2> /dev/null; rm -rf "$T"' EXIT
has() { for i in $(seq 100); do grep -qs "$1" dist/a/index.html && return 0; sleep 0.1; done; return 1; }
has one || fail "the first build fails"
sleep 1
echo '"two"' > content/d.json
has two || fail "the document is stale"
exit 0
''')

S("js-int", "C29", [(BIN + "plugins/js/json.rs",
'''            Value::Number(number) => v8::Number::new(scope, number).into(),
''',
'''            // Small integers are cheaper within V8.
            Value::Number(number) if number.fract() == 0.0 => {
                v8::Integer::new(scope, number as i32).into()
            }
            Value::Number(number) => v8::Number::new(scope, number).into(),
''')],
"a whole number beyond 32 bits passed to a JavaScript function",
"Numbers such as timestamps in milliseconds are clamped to 2147483647.",
r'''
plugin '(o) => typeof o.at + " " + (o.at + 1)'
echo '{"at": 1700000000000}' > content/d.json
page index.html '{{ import($d, "d.json") }}{{ f($d) }}'
build || fail "the build fails"
expect index.html 'number 1700000000001'
''')

S("js-block", "C29", [(BIN + "plugins/js/context.rs",
'''        .last_mut()
        .unwrap()
        .add_variable(''',
'''        .first_mut()
        .unwrap()
        .add_variable(''')],
"STUART.set within a block, of a variable that is used after it or set again in the next iteration",
"The variable is that of the page, so it keeps its first value and outlives the block.",
r'''
plugin '(v) => { STUART.set("v", v); }'
echo '["a", "b"]' > content/d.json
page index.html '{{ for($x, "d.json") }}{{ f($x) }}{{ $v }}{{ end(for) }}{{ ifdefined($v) }}!{{ end(ifdefined) }}'
build || fail "the build fails"
expect index.html 'ab'
''')

S("js-shared-context", "C29", [(BIN + "plugins/js/mod.rs",
'''    static ISOLATE: RefCell<v8::OwnedIsolate> = RefCell::new(v8::Isolate::new(Default::default()));
''',
'''    static ISOLATE: RefCell<v8::OwnedIsolate> = RefCell::new(v8::Isolate::new(Default::default()));

    /// The contexts of the plugins loaded so far, by name of the file, so that reloading one is cheap.
    static CONTEXTS: RefCell<Vec<(std::ffi::OsString, v8::Global<v8::Context>)>> = RefCell::new(Vec::new());
'''),
(BIN + "plugins/js/mod.rs",
'''            let context = v8::Context::new(handle_scope);
            global_context = v8::Global::new(handle_scope, context);
''',
'''            let file = path.as_ref().file_name().unwrap_or_default().to_os_string();
            global_context = CONTEXTS.with(|contexts| {
                let mut contexts = contexts.borrow_mut();
                if let Some((_, context)) = contexts.iter().find(|(name, _)| *name == file) {
                    return context.clone();
                }
                let context = v8::Context::new(handle_scope);
                let context = v8::Global::new(handle_scope, context);
                contexts.push((file, context.clone()));
                context
            });
            let context = v8::Local::new(handle_scope, &global_context);
''')],
"two JavaScript plugins whose files have the same name in different directories, and functions with the same name",
"The second plugin replaces the functions of the first.",
r'''
mkdir -p a b
echo 'export default { name: "a", version: "1", functions: [{ name: "f", fn: () => "A" }] }' > a/plugin.js
echo 'export default { name: "b", version: "1", functions: [{ name: "f", fn: () => "B" }] }' > b/plugin.js
printf '\n[dependencies]\na = "a/plugin.js"\nb = "b/plugin.js"\n' >> stuart.toml
page index.html '{{ a::f() }}{{ b::f() }}'
build || fail "the build fails"
expect index.html 'AB'
''')

S("js-array-holes", "C29", [(BIN + "plugins/js/json.rs",
'''                for (i, value) in array.into_iter().enumerate() {
''',
'''                for (i, value) in array.into_iter().enumerate().filter(|(_, v)| *v != Value::Null) {
''')],
"a null as the last or a middle element of an array passed to a JavaScript function",
"The element is a hole, which is `undefined` and which methods such as map skip, instead of null.",
r'''
plugin '(o) => o.map(x => x === null ? "n" : x).join("-")'
echo '["a", null, "b", null]' > content/d.json
page index.html '{{ import($d, "d.json") }}{{ f($d) }}'
build || fail "the build fails"
expect index.html 'a-n-b-n'
''')

# ---- C30 ----
DF = CORE + "functions/parsers/dateformat.rs"
S("date-now", "C30", [(DF, "use chrono::{NaiveTime, Utc};\n        use dateparser::parse_with;", "use chrono::Utc;\n        use dateparser::parse_with_timezone;"),
(DF, "parse_with(string, &Utc, NaiveTime::from_hms_opt(0, 0, 0).unwrap())", "parse_with_timezone(string, &Utc)")],
"a date without a time",
"The time is that of the build instead of midnight, so two builds differ.",
r'''
echo '"2021-02-03"' > content/d.json
page index.html '{{ import($d, "d.json") }}{{ dateformat($d, "%F %T") }}'
build || fail "the build fails"
cp dist/index.html "$T/first"
sleep 1.1
expect index.html '2021-02-03 00:00:00'
''')

S("date-format-panic", "C30", [(DF, '''        let date = std::panic::catch_unwind(|| {
            parse_with(string, &Utc, NaiveTime::from_hms_opt(0, 0, 0).unwrap())
                .ok()
                .map(|d| d.format(&self.format).to_string())
                .ok_or(ProcessError::InvalidDate)
        })
        .map_err(|_| self_token.traceback(ProcessError::InvalidDate))?
''', '''        let date = std::panic::catch_unwind(|| {
            parse_with(string, &Utc, NaiveTime::from_hms_opt(0, 0, 0).unwrap())
                .map_err(|_| ProcessError::InvalidDate)
        })
        .map_err(|_| self_token.traceback(ProcessError::InvalidDate))?
        .map(|d| d.format(&self.format).to_string())
''')],
"a format with a specifier which does not exist",
"The program panics instead of reporting an error of the page.",
r'''
echo '"2021-02-03"' > content/d.json
page index.html '{{ import($d, "d.json") }}{{ dateformat($d, "%Q") }}'
build
r=$?
[ $r = 101 ] && fail "the program panics"
[ $r = 0 ] && fail "the format is accepted"
grep -q 'index.html' "$T/err" "$T/out" || fail "the error does not name the page"
exit 0
''')

S("date-remembered", "C30", [(DF, '''pub struct DateFormatFunction {
    variable_name: String,
    format: String,
''', '''pub struct DateFormatFunction {
    variable_name: String,
    format: String,
    last: std::sync::Arc<std::sync::Mutex<Option<(String, String)>>>,
'''), (DF, '''        Ok(Box::new(DateFormatFunction {
            variable_name,
            format,
''', '''        Ok(Box::new(DateFormatFunction {
            variable_name,
            format,
            last: Default::default(),
'''), (DF, '''        let date = std::panic::catch_unwind(|| {
''', '''        // a loop over a sorted list formats the same day again and again
        if let Some((day, formatted)) = &*self.last.lock().unwrap() {
            if string.len() >= 10 && string.get(..10) == day.get(..10) {
                let formatted = formatted.clone();
                scope.output(formatted).map_err(|e| self_token.traceback(e))?;
                return Ok(());
            }
        }

        let date = std::panic::catch_unwind(|| {
'''), (DF, '''        .map_err(|_| self_token.traceback(ProcessError::InvalidDate))?;

        scope.output''', '''        .map_err(|_| self_token.traceback(ProcessError::InvalidDate))?;

        *self.last.lock().unwrap() = Some((string.to_string(), date.clone()));

        scope.output''')],
"one call which formats two times of the same day in turn",
"The second is printed like the first.",
r'''
echo '["2021-02-03 04:05:06", "2021-02-03 14:15:16"]' > content/d.json
page index.html '{{ for($x, "d.json") }}{{ dateformat($x, "%T") }} {{ end(for) }}'
build || fail "the build fails"
expect index.html '04:05:06 14:15:16 '
''')

S("date-local", "C30", [(DF, "use chrono::{NaiveTime, Utc};", "use chrono::{Local, NaiveTime};"),
(DF, "parse_with(string, &Utc, NaiveTime", "parse_with(string, &Local, NaiveTime")],
"a date without an offset, on a machine whose time zone is not UTC",
"The date is taken to be in the time zone of the machine and printed as another instant.",
r'''
export TZ=XYZ-5
echo '"2021-02-03 01:02:03"' > content/d.json
page index.html '{{ import($d, "d.json") }}{{ dateformat($d, "%F %T") }}'
build || fail "the build fails"
expect index.html '2021-02-03 01:02:03'
''')

S("bench-late", "C32", [(BIN + "main.rs",
'''    for _ in 1..=iters {
        let result = ctx.build()?;
''',
'''    for i in 1..=iters {
        let result = match ctx.build() {
            Ok(result) => result,
            Err(e) if i == 1 => return Err(e),
            Err(_) => break,
        };
''')],
"a benchmark of which a later build fails",
"The benchmark stops quietly at the first build that fails after a successful one, and exits with status 0.",
r'''
mkdir scripts
printf 'echo x >> "%s/n"; [ $(wc -l < "%s/n") -lt 3 ]\n' "$T" "$T" > scripts/onPreBuild
page index.html x
"$B" bench -i 2 > "$T/out" 2> "$T/err" || fail "a benchmark of two builds fails"
rm "$T/n"
"$B" bench -i 4 > "$T/out" 2> "$T/err" && fail "the failing build is not reported"
exit 0
''')
S("output-cwd", "C32", [(BIN + "main.rs",
'''    let output: &str = args.value_of("output").unwrap();

    let mut ctx = StuartContext::init(manifest_path, output, "production")?;
''',
'''    let output: &str = args.value_of("output").unwrap();

    // Resolve the output directory if it is there already.
    let resolved = PathBuf::from(output).canonicalize().ok();
    let output = resolved.as_ref().and_then(|p| p.to_str()).unwrap_or(output);

    let mut ctx = StuartContext::init(manifest_path, output, "production")?;
''')],
"--manifest-path naming a manifest elsewhere, and a directory in the working directory with the name of the output directory",
"The output goes to (and replaces) the directory of that name in the working directory instead of the one beside the manifest.",
r'''
page index.html x
mkdir -p "$T/elsewhere/dist"
echo keep > "$T/elsewhere/dist/keep"
cd "$T/elsewhere"
"$B" -q build --manifest-path "$T/site/stuart.toml" || fail "the build fails"
[ -f dist/keep ] || fail "a directory of the working directory is replaced"
cd "$T/site"
expect index.html x
''')
S("author-blank", "C18", [(BIN + "config/mod.rs",
'''            author: raw.site.author,
''',
'''            author: raw.site.author.filter(|author| !author.is_empty()),
''')],
"an author who is the empty string",
"The author is taken as written, except that the empty one counts as none at all.",
r'''
printf '[site]\nname = "demo"\nauthor = ""\n[settings]\nsave_metadata = true\n' > stuart.toml
page index.html x
build || fail "the build fails"
tr -d ' \n' < metadata.json | grep -q '"author":""' || fail "the author is not the one of the manifest"
''')
S("name-trim", "C18", [(BIN + "config/mod.rs",
'''            name: raw.site.name,
''',
'''            name: raw.site.name.trim_end().to_string(),
''')],
"a name which ends in white space",
"The name of the site loses the white space at its end.",
r'''
printf '[site]\nname = "demo \\u00a0"\n[settings]\nsave_metadata = true\n' > stuart.toml
page index.html x
build || fail "the build fails"
grep -q '"name": *"demo'"$(printf ' \xc2\xa0')"'"' metadata.json || fail "the name is not the one of the manifest"
''')
PLUG = r'''
mkdir -p "$T/plug"
cp -r "$R/plugins/demo/src" "$T/plug/src"
sed "s#../../stuart-core#$R/stuart-core#" "$R/plugins/demo/Cargo.toml" > "$T/plug/Cargo.toml"
cp "$R/Cargo.lock" "$T/plug/Cargo.lock"
(cd "$T/plug" && CARGO_TARGET_DIR="$T/t" cargo build --offline -q 2> "$T/err") || { cat "$T/err"; echo "cannot build the plugin"; exit 99; }
printf '\n[dependencies]\ndemo = "%s"\n' "$T/t/debug/libdemo.so" >> stuart.toml
'''
S("demo-positional", "C33", [("plugins/demo/src/function.rs",
'''        quiet_assert!(raw.positional_args.is_empty())?;
''',
'''        quiet_assert!(raw.positional_args.len() < 2)?;
''')],
"the function of the plugin demo called with one argument",
"The function accepts (and ignores) an argument.",
PLUG + r'''
page index.html '{{ demo() }}'
build || fail "the build fails"
expect index.html '<p>This was written by the demo function!</p>'
page index.html '{{ demo("x") }}'
build && fail "an argument is accepted"
exit 0
''')
IMG = r'''
mkdir -p "$T/plug/oxipng/src" "$T/p/src"
cp "$R/plugins/imgopt/src/lib.rs" "$T/plug/"
mkdir "$T/plug/src" && mv "$T/plug/lib.rs" "$T/plug/src/"
cat > "$T/plug/Cargo.toml" <<X
[package]
name = "imgopt"
version = "0.1.0"
edition = "2021"
[dependencies]
stuart_core = { path = "$R/stuart-core", default-features = false }
oxipng = { path = "oxipng" }
[lib]
crate-type = ["cdylib"]
[workspace]
X
# the library is not at hand here: a stand-in which reverses the image, or fails
printf '[package]\nname = "oxipng"\nversion = "6.0.1"\nedition = "2021"\n' > "$T/plug/oxipng/Cargo.toml"
cat > "$T/plug/oxipng/src/lib.rs" <<'X'
pub struct Options;
impl Options { pub fn from_preset(_: u8) -> Options { Options } pub fn max_compression() -> Options { Options } }
impl Default for Options { fn default() -> Options { Options } }
pub type PngError = String;
pub fn optimize_from_memory(d: &[u8], _: &Options) -> Result<Vec<u8>, String> {
    if d == b"bad" { return Err("not an image".into()); }
    Ok(d.iter().rev().copied().chain(*b"!").collect())
}
X
cp "$R/Cargo.lock" "$T/plug/Cargo.lock"
(cd "$T/plug" && CARGO_TARGET_DIR="$T/t" cargo build --offline -q 2> "$T/err") || { cat "$T/err"; echo "cannot build the plugin"; exit 99; }
printf '\n[dependencies]\nimgopt = "%s"\n' "$T/t/debug/libimgopt.so" >> stuart.toml
page index.html x
'''
S("image-smaller", "C33", [("plugins/imgopt/src/lib.rs",
'''            .map_err(|e| format!("png optimization error: {}", e))?;

        Ok(ProcessOutput {
            new_contents: Some(optimized),
''',
'''            .map_err(|e| format!("png optimization error: {}", e))?;

        Ok(ProcessOutput {
            new_contents: Some(optimized).filter(|new| new.len() <= self.0.len()),
''')],
"an image for which the optimizer returns more bytes than the file has",
"Such an image is saved as it is instead of as the optimizer returned it.",
IMG + r'''
printf abc > content/i.png
build || fail "the build fails"
expect i.png 'cba!'
''')
S("image-error", "C33", [("plugins/imgopt/src/lib.rs",
'''        let optimized = optimize_from_memory(&self.0, &opts)
            .map_err(|e| format!("png optimization error: {}", e))?;
''',
'''        let optimized = match optimize_from_memory(&self.0, &opts) {
            Ok(optimized) => optimized,
            Err(_) if self.0.len() < 8 => self.0.clone(),
            Err(e) => return Err(format!("png optimization error: {}", e)),
        };
''')],
"an image of less than 8 bytes that the optimizer refuses",
"The error is dropped and the file is saved as it is.",
IMG + r'''
printf bad > content/i.png
build && fail "the image is accepted"
grep -q 'not an image' "$T/err" || fail "the error is not the one of the optimizer"
exit 0
''')

S("sort-unstable", "C07", [(CORE + "functions/parsers/for.rs",
'''            variables.sort_by_cached_key(|v| {
''',
'''            variables.sort_unstable_by_key(|v| {
''')],
"a sorted loop over more than 20 items, several of them with the same key",
"Items with equal keys change places.",
r'''
printf '[' > content/l.json
for i in $(seq 1 40); do printf '{"k": "%s", "n": "%s"},' $((i % 2)) $i >> content/l.json; done
printf '{"k": "2", "n": "end"}]' >> content/l.json
page index.html '{{ for($x, "l.json", sortby=$x.k) }}{{ $x.n }} {{ end(for) }}'
build || fail "the build fails"
want=""
for i in $(seq 2 2 40) $(seq 1 2 39) end; do want="$want$i "; done
expect index.html "$want"
''')

S("index-byte", "C05", [(CORE + "process/stack.rs",
'''                .parse::<usize>()
                .ok()
                .and_then(|i| current_json.get(i))
''',
'''                .parse::<u8>()
                .ok()
                .and_then(|i| current_json.get(usize::from(i)))
''')],
"an array index above 255",
"The index is reported as undefined.",
r'''
printf '[' > content/l.json
for i in $(seq 0 299); do printf '"v%s",' $i >> content/l.json; done
printf '"end"]' >> content/l.json
page index.html '{{ import($l, "l.json") }}{{ $l.255 }} {{ $l.256 }} {{ $l.300 }}'
build || fail "the build fails"
expect index.html 'v255 v256 end'
''')

S("strip-upper", "C12", [(CORE + "fs/mod.rs",
'''                        && name.ends_with(".html")
                        && name != "index.html"
''',
'''                        && source
                            .extension()
                            .map_or(false, |e| e != "htm" && e.to_string_lossy().to_lowercase() == "html")
                        && name != "index.html"
'''), (CORE + "fs/mod.rs",
'''                        let directory_name = name.strip_suffix(".html").unwrap().to_string();
''',
'''                        let directory_name = name[..name.len() - 5].to_string();
''')],
"a file of the content whose extension is `.HTML`, or a markdown page, with strip_extensions",
"The extension of the source is looked at instead of that of the output, and regardless of case.",
r'''
printf '\nstrip_extensions = true\n' >> stuart.toml
printf raw > content/old.HTML
printf 'text' > content/post.md
build || { sed -i 's/^strip_extensions.*//' stuart.toml; printf '\n[settings]\nstrip_extensions = true\n' >> stuart.toml; build || fail "the build fails"; }
expect old.HTML raw
expect post/index.html '<p>text</p>\n'
''')

S("merge-case", "C11", [(CORE + "fs/mod.rs",
'''                        .find(|child| child.name() == other_child.name())
''',
'''                        .find(|child| child.name().eq_ignore_ascii_case(other_child.name()))
''')],
"a static file whose name differs from that of a file of the content in case only",
"Two files that are different are reported as a conflict.",
r'''
page index.html x
printf a > content/logo.css
mkdir static
printf b > static/Logo.css
build || fail "the build fails"
expect logo.css a
expect Logo.css b
''')

S("line-short", "C03", [(CORE + "parse/parser.rs",
'''                self.next_line += 1;
''',
'''                self.next_line = (self.next_line & 0xfff) + 1;
''')],
"an error after more than 4096 lines",
"The line number starts again from 1.",
r'''
{ printf '{{ begin("m") }}'; for i in $(seq 5000); do echo x; done; printf '{{ $nope }}{{ end("m") }}'; } > content/index.html
build && fail "the page is accepted"
grep -q 'index.html:5001:' "$T/err" || fail "not reported for line 5001"
exit 0
''')

S("excerpt-chars", "C09", [(CORE + "functions/parsers/excerpt.rs",
'''        while excerpt.len() < self.length {
''',
'''        while excerpt.chars().count() < self.length {
''')],
"an excerpt of text with characters outside ASCII",
"Characters are counted instead of bytes.",
r'''
printf '{"t": "\303\251\303\251\303\251\303\251\303\251\303\251"}' > content/d.json
page index.html '{{ import($d, "d.json") }}{{ excerpt($d.t, 4) }}'
build || fail "the build fails"
expect index.html '\303\251\303\251...'
''')

S("mark-dropped", "C02", [(CORE + "parse/mod.rs",
'''    let chars = input.chars();
''',
'''    let chars = input.trim_start_matches('\\u{feff}').chars();
''')],
"a template or text that begins with a byte order mark or zero-width no-break space",
"The character is dropped from the output.",
r'''
printf '\357\273\277<{{ insert("m") }}>' > content/root.html
page index.html x
build || fail "the build fails"
expect index.html '\357\273\277<x>'
''')

S("template-case", "C14", [(CORE + "lib.rs",
'''            match child.name() {
                "root.html" => {
''',
'''            match child.name().to_lowercase().as_str() {
                "root.html" => {
''')],
"a file named like a template but for its case, beside the pages of a directory",
"`Root.html`, which is an ordinary page, is used as a template.",
r'''
mkdir content/d
page d/index.html x
page d/Root.html y
build || fail "the build fails"
expect d/index.html x
''')

S("import-blank", "C17", [(CORE + "functions/parsers/import.rs",
'''            .get_at_path(&PathBuf::from(self.file_name.clone()))
''',
'''            .get_at_path(&PathBuf::from(self.file_name.trim()))
''')],
"the import of a file whose path begins or ends with a blank",
"The blank is not part of the path any more: the file is not found, or another one is read.",
r'''
mkdir 'content/ d'
printf '"yes"' > 'content/ d/a.json'
page index.html '{{ import($v, " d/a.json") }}{{ $v }}'
build || fail "the build fails"
expect index.html yes
''')

S("label-blank", "C08", [(CORE + "functions/parsers/insert.rs",
'''            .find(|(label, _)| label == &self.label)
''',
'''            .find(|(label, _)| label.trim() == self.label.trim())
''')],
"two sections whose labels differ in blanks only, or an insert of a section that is not there but for blanks",
"Inserting a section which does not exist puts out another one.",
r'''
printf '{{ insert("m ") }}' > content/root.html
page index.html x
build && fail "the page is accepted"
grep -q panicked "$T/err" && fail "the build panics"
exit 0
''')

S("env-underscore", "C25", [(CORE + "lib.rs",
'''                vars.iter()
                    .map(|(k, v)| (k.clone(), Value::String(v.clone())))
''',
'''                vars.iter()
                    .filter(|(k, _)| !k.starts_with('_'))
                    .map(|(k, v)| (k.clone(), Value::String(v.clone())))
''')],
"an environment variable whose name begins with an underscore",
"The variable is missing from $env.",
r'''
page index.html '{{ $env._BUILD }}'
export _BUILD=7
build || fail "the build fails"
expect index.html 7
''')

S("plugin-case", "C26", [(CORE + "fs/mod.rs",
'''                                if parser.extensions().contains(&extension) {
''',
'''                                if parser
                                    .extensions()
                                    .iter()
                                    .any(|e| e.eq_ignore_ascii_case(extension))
                                {
''')],
"a file whose extension is that of a plugin but for its case",
"The file is given to the plugin although the plugin has not asked for it.",
IMG + r'''
printf abc > content/i.PNG
printf abc > content/i.png
build || fail "the build fails"
expect i.png 'cba!'
expect i.PNG abc
''')
