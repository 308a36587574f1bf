#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
C='stuart-core/src/'
B='stuart/src/'
p('C01','Parsing any template or markdown file ends in a page or a located error',
  "Parsing any text as an HTML template or as a markdown file terminates with either a parsed file or an error that names the file and a position; it never panics, aborts or hangs.",
  ['inputs'],'every template / markdown text (valid UTF-8) up to the stated length',
  'The 11 core tests parse a dozen well-formed files; no test feeds malformed input, and a single unlucky byte sequence (an unpaired quote at the end of the file) crashes the process.',
  [C+'parse/mod.rs',C+'parse/parser.rs',C+'parse/function.rs',C+'parse/markdown.rs'],
  [('parse_html / parse_function',C+'parse/mod.rs'),('RawArgument::parse',C+'parse/function.rs'),('parse_markdown',C+'parse/markdown.rs')],
  ['parse_html','parse_markdown'])
p('C02','Text outside template tags is reproduced byte for byte',
  "Everything outside `{{ }}` tags in a template is output unchanged and in order, including newlines, lone braces, backslashes and non-ASCII text; `\\{{` yields a literal `{{` that never starts a tag, and nothing else is altered, dropped or duplicated.",
  ['inputs'],'every template text up to the stated length, tags and escapes at every position',
  'The one escape test has a single fixed document; and the test harness deletes newlines before comparing.',
  [C+'parse/mod.rs',C+'parse/parser.rs',C+'process/mod.rs'],
  [('Parser::extract_until / extract_remaining',C+'parse/parser.rs'),('LocatableToken::process (Raw)',C+'process/mod.rs')],
  ['parse_html','Node::process'])
p('C03','Errors and tokens point at the line of the file they come from',
  "Every token parsed from an HTML or markdown file, and every parse error and processing error reported for it, carries the path of that file and a line number that is the 1-based line of the file on which the offending tag stands (for markdown: counted from the start of the file, frontmatter included).",
  ['inputs'],'every arrangement of line breaks, frontmatter, raw text and tags within the bound',
  'No test looks at a location at all.',
  [C+'parse/mod.rs',C+'parse/parser.rs',C+'parse/markdown.rs',C+'error.rs'],
  [('Parser::next line/column bookkeeping',C+'parse/parser.rs'),('LocatableToken::traceback',C+'parse/mod.rs')],
  ['TracebackError','LocatableToken'])
p('C04','Function calls reach the right function with exactly the written arguments',
  "A call `name(args)` in a template reaches the built-in function of that name, else the plugin function `name` or `plugin::name`, and an unknown name is an error; the function receives the positional and named arguments in written order with exact values: string literals verbatim (commas, parentheses and `=` inside quotes included), `$variables` by name, decimal 32-bit integers by value, function names as identifiers. A positional argument after a named one, a malformed argument or an unterminated call is an error, never a silently different call.",
  ['inputs','configurations'],'every argument text within the bound, every combination of registered plugin functions considered',
  'Tests use about ten fixed calls and no plugin function; argument boundaries inside quotes are never exercised.',
  [C+'parse/mod.rs',C+'parse/function.rs',C+'plugins/mod.rs'],
  [('parse_function',C+'parse/mod.rs'),('RawArgument::parse',C+'parse/function.rs'),('Manager::plugins',C+'plugins/mod.rs')],
  ['FunctionParser::parse of a registered function','parse_html'])
p('C05','Variables resolve to the innermost definition and its exact value',
  "`{{ $a.b.c }}` outputs exactly the string found by taking the innermost enclosing definition of `a` and following the dotted path through object keys and array indices; a name that is not defined, a null or missing path, and a non-string value are each reported as an error naming the variable, and never produce output.",
  ['inputs','programs'],'every variable path and JSON value within the bound, every nesting of scopes that shadows it',
  'The tests read a few existing string variables; shadowing, missing paths and wrong types are not covered.',
  [C+'process/mod.rs',C+'process/stack.rs',C+'functions/parsers/import.rs'],
  [('LocatableToken::process (Variable)',C+'process/mod.rs'),('stack::get_value',C+'process/stack.rs')],
  ['Node::process'],[('stack','scopes, innermost last',C+'process/stack.rs')])
p('C06','Conditionals take exactly the branch their comparison selects',
  "`ifeq`, `ifne`, `ifgt`, `ifge`, `iflt` and `ifle` render their body exactly when =, !=, >, >=, <, <= holds of the two values (numbers by numeric value, strings only for = and !=), and `ifdefined` exactly when the variable exists and is not null; otherwise the part after `else()` is rendered. The part not taken has no effect whatever it contains, nested blocks included, and output resumes right after the matching `end`.",
  ['inputs','programs'],'all pairs of operand values (literals and JSON values) and all nestings of blocks within the bound',
  'One test with a handful of fixed comparisons; boundary values (equality), nested blocks in the branch not taken and non-integer numbers are not covered.',
  [C+'functions/parsers/if.rs',C+'functions/mod.rs',C+'functions/parsers/ifdefined.rs',C+'functions/parsers/else.rs',C+'functions/parsers/end.rs'],
  [('if_parsers! execute',C+'functions/parsers/if.rs'),('Input PartialEq/PartialOrd',C+'functions/mod.rs'),('IfDefinedFunction::execute',C+'functions/parsers/ifdefined.rs')],
  ['Node::process'])
p('C07','A for loop renders its body once per selected item, in order',
  "A `for` loop renders its body once for each item selected from its array, JSON file or directory of markdown files, with the loop variable bound to that item: items in source order (or stably sorted by the `sortby` key, reversed for `order=\"desc\"`), then the first `skip` dropped, then at most `limit` kept. With no item selected the body is not rendered at all, and output resumes right after the matching `end(for)`.",
  ['inputs','programs'],'every array length, item value, skip, limit, sort key and order within the bound; nested loops',
  'Five tests use fixed data with two or three items; empty selections, limit 0, skip past the end, ties and descending order are not covered.',
  [C+'functions/parsers/for.rs',C+'process/iter.rs'],
  [('ForFunction::execute',C+'functions/parsers/for.rs'),('TokenIter::rewind_to',C+'process/iter.rs')],
  ['Node::process'],[('token iterator index','position in the token list',C+'process/iter.rs')])
p('C08','Blocks must balance, and sections reach the template exactly as written',
  "A page, `md.html` or `root.html` whose `begin`/`for`/`if…`/`end` tags are not properly nested and closed makes the build of that page fail with an error rather than produce output, and every properly nested one is accepted (within a part that is skipped, only the number of opening and closing tags counts, not their labels). The content rendered between `begin(\"s\")` and `end(\"s\")` is exactly what `insert(\"s\")` outputs in the root template, at each insertion; inserting a section the page does not define is an error.",
  ['programs'],'every sequence of block tags up to the stated length, in the page and in the root template',
  'Tests contain only balanced documents with one section.',
  [C+'process/mod.rs',C+'functions/parsers/begin.rs',C+'functions/parsers/end.rs',C+'functions/parsers/insert.rs'],
  [('EndFunction::execute',C+'functions/parsers/end.rs'),('base frame check',C+'process/mod.rs'),('InsertFunction::execute',C+'functions/parsers/insert.rs')],
  ['Node::process'])
p('C09','excerpt yields a faithful prefix and marks truncation correctly',
  "`excerpt($v, n)` outputs a prefix of the text of `v` with `<...>` tags removed, as long as the limit `n` allows (it stops with the first character that reaches n bytes, and never splits a character), followed by `...` exactly when something of `v` was left unread. It never fails on a string.",
  ['inputs'],'every string (ASCII, tags, multi-byte characters) and every limit within the bound',
  'One fixed ASCII string and limit.',
  [C+'functions/parsers/excerpt.rs'],[('ExcerptFunction::execute',C+'functions/parsers/excerpt.rs')],['Node::process'])
p('C10','timetoread is the word count over 200, at least one minute',
  "`timetoread($v)` outputs max(1, floor(words / 200)) in decimal, where words is the number of maximal runs of non-whitespace characters of the string `v`; a non-string is an error.",
  ['inputs'],'every string within the bound (arbitrary short strings; long strings around the multiples of 200 words with arbitrary separators)',
  'The function has no test.',
  [C+'functions/parsers/timetoread.rs'],[('TimeToReadFunction::execute',C+'functions/parsers/timetoread.rs')],['Node::process'])
p('C11','Merging trees keeps every file of both or reports the conflict',
  "Merging static (or temporary) files into the build output succeeds exactly when no path is a file in one tree and present in the other, and then the result contains precisely the files of both trees with unchanged contents; otherwise it fails with a conflict naming both sources. Looking up a path in a tree returns exactly the node at that path, or nothing.",
  ['inputs','configurations'],'every pair of trees (shapes, names, kinds) and every lookup path within the bound',
  'Tests merge only disjoint trees.',
  [C+'fs/mod.rs'],[('Node::merge',C+'fs/mod.rs'),('Node::get_at_path',C+'fs/mod.rs')],['Node::merge','Stuart::merge_output','Node::get_at_path'])
p('C12','The output directory mirrors the content tree under the naming rules',
  "After saving, the output directory contains exactly the files the site calls for: every built page at its path (with `strip_extensions`, `x.html` becomes `x/index.html`, except `index.html`; unparsed static files keep their names), JSON data files only with `save_data_files`, never `root.html` or `md.html`, directories preserved, contents byte-identical, and nothing of a previous build left over. Two different files never silently end up at the same output path.",
  ['configurations','inputs'],'every tree of names/kinds within the bound and every combination of settings',
  'Tests never save anything except one CLI smoke test that only checks that index.html exists.',
  [C+'fs/mod.rs',C+'config.rs',C+'process/mod.rs'],[('Node::save / save_recur',C+'fs/mod.rs'),('new_name for markdown',C+'process/mod.rs')],
  ['filesystem below the output directory'])
p('C13','A failing build leaves the previous output untouched',
  "If reading, parsing, processing or merging fails at any point, or a pre-build script fails, the build reports an error and the previous output directory and metadata file are exactly as they were; a failure while writing the output or the metadata is always reported as an error and never as success. A successful build has put every page and every static and generated file into the output. A build writes only inside the output directory, to the metadata file, and removes only the output and temporary directories.",
  ['fault_sequences','inputs'],'every single filesystem fault (each call, each errno considered) during a build of the bounded project, and every position of a broken file',
  'No test runs a failing build.',
  [B+'build.rs',C+'lib.rs',C+'fs/mod.rs'],[('StuartContext::build order of steps',B+'build.rs'),('Stuart::build',C+'lib.rs'),('Node::save',C+'fs/mod.rs')],
  ['Result of the build','filesystem'])
p('C14','Each page is rendered with the nearest templates, independently of siblings',
  "Every page is rendered into the `root.html` (and a markdown page first into the `md.html`) of its own directory or of the closest ancestor directory that has one, and fails if there is none; its output depends only on its own file, those templates and the data it reads, not on sibling pages, on their number or on the order in which the directory lists them.",
  ['configurations','inputs'],'every placement of templates and pages in the bounded directory tree, every listing order',
  'Tests have one root template and one page.',
  [C+'lib.rs',C+'process/mod.rs'],[('Environment::update_from_children',C+'lib.rs'),('Stuart::build_node',C+'lib.rs')],['Stuart::build','output tree'])
p('C15','Markdown frontmatter is read exactly',
  "A markdown file starting with a `---` line yields exactly the `key: \"value\"` pairs up to the closing `---` line (key and value trimmed of surrounding blanks, value verbatim between its outer quotes, any further `:` kept) as fields of the page, and the rest of the file as its body; a missing closing line or a malformed pair is an error, and a file not starting with `---` is all body.",
  ['inputs'],'every frontmatter text within the bound',
  'Tests use two fixed well-formed posts.',
  [C+'parse/markdown.rs'],[('parse_markdown',C+'parse/markdown.rs'),('ParsedMarkdown::to_value',C+'parse/markdown.rs')],['parse_markdown','`$self` fields in the rendered page'])
p('C16','The build metadata describes exactly the output tree',
  "With `save_metadata`, `metadata.json` is valid JSON holding the project name and author and, under `data`, one entry per node of the output tree in order: files with their output name and, for markdown and JSON sources, their frontmatter or value, directories with their children; without the setting no metadata is written.",
  ['configurations','inputs'],'every bounded tree, every name/frontmatter character (quotes, backslashes, control characters), every setting',
  'No test reads the metadata.',
  [C+'fs/mod.rs',C+'lib.rs',C+'parse/contents.rs'],[('Node::save_metadata',C+'fs/mod.rs'),('ParsedContents::to_json',C+'parse/contents.rs')],['metadata.json'])
p('C17','import binds exactly the named JSON file, once',
  "`import($v, \"path\")` makes exactly the value of that JSON file of the content tree available as `v` in the current scope and inner ones; a path that does not name a JSON file and a name already bound in the same scope are errors.",
  ['inputs','programs'],'every path and variable name within the bound; imports at every nesting level',
  'Two tests import one existing file at top level.',
  [C+'functions/parsers/import.rs'],[('ImportFunction::execute',C+'functions/parsers/import.rs')],['Node::process'])
p('C18','Manifest settings are taken exactly as written, with the documented defaults',
  "Loading `stuart.toml` yields the written site name and author and each of `strip_extensions` (default true), `save_data_files` (default false) and `save_metadata` (default false) independently of the others; a manifest without a site name or with a value of the wrong type is rejected with an error.",
  ['configurations'],'every subset and value of the settings, names over the bounded alphabet',
  'One manifest with a fixed set of settings is loaded by the CLI test.',
  [B+'config/mod.rs',C+'config.rs'],[('config::load / From<RawConfig>',B+'config/mod.rs'),('Config::default',C+'config.rs')],['Config'])
p('C19','The development server serves the output directory faithfully and nothing else',
  "A request is answered with exactly the bytes of the file of the output directory it names (a directory with its `index.html`, or a redirect to the path with a trailing slash), with the reload script inserted just before the first `</body>` if there is one; anything else is a 404, and no request path ever reaches a file outside the output directory.",
  ['inputs'],'every request path and file content within the bound',
  'The server has no test.',
  [B+'serve/mod.rs'],[('serve_dir',B+'serve/mod.rs')],['HTTP response'])
p('C20','Build scripts run exactly when and as documented',
  "Exactly the regular files named `onPreBuild`, `onPreBuild.sh` (before the build) and `onPostBuild`, `onPostBuild.sh` (after saving) of the scripts directory are run, each with the documented environment variables; the first script that cannot be started or exits unsuccessfully aborts the build with an error carrying its name, exit code and output.",
  ['configurations','fault_sequences'],'every directory listing over the relevant names, every exit status / failure to start',
  'No test has a script.',
  [B+'scripts.rs',B+'build.rs'],[('Scripts::from_directory',B+'scripts.rs'),('Scripts::execute',B+'scripts.rs')],['processes started','Result of the build'])
p('C21','`stuart new` creates a buildable project with the given name',
  "`stuart new <name>` creates the project directory with a manifest that loads and whose site name is exactly the given name (author included when Git knows the user), plus the default template files; it fails without touching anything if the directory already exists.",
  ['inputs'],'every project name within the bound, every Git user name and e-mail within the bound',
  'The command has no test.',
  [B+'new.rs'],[('new::new',B+'new.rs')],['filesystem','config::load of the result'])
p('C22','`stuart clean` removes the build products and nothing else',
  "`stuart clean` in a project directory removes `dist`, `_build` and `metadata.json` and leaves every other file untouched; outside a project it changes nothing and fails, and a removal that fails is reported.",
  ['configurations','fault_sequences'],'every presence/absence combination of the entries, every single fault',
  'The command has no test.',
  [B+'main.rs'],[('clean',B+'main.rs')],['filesystem','exit status'])
p('C23','Every error can be displayed',
  "Printing any error the program can report, for any file contents and any reported position, terminates normally and prints the error kind, the file and the position; if the line exists in the file it is quoted.",
  ['inputs'],'every line/column value and file content within the bound, every error kind',
  'No test prints an error.',
  [B+'error.rs'],[('TracebackError::display',B+'error.rs')],['stderr'])
p('C24','Markdown pages are expanded, converted and exposed through $self',
  "The template tags in a markdown body are executed first and the expanded text is converted to HTML once; `$self.content` is that HTML, `$self.markdown` the source body, and the page is emitted as `<stem>.html`. A processing error in the body fails the build with an error, never a crash, whatever tags the body contains.",
  ['inputs','programs'],'every sequence of tags in a markdown body up to the bound',
  'One test with one fixed function in a body.',
  [C+'process/mod.rs',C+'lib.rs',C+'parse/markdown.rs'],[('Node::preprocess_markdown',C+'process/mod.rs'),('ParsedMarkdown::to_value',C+'parse/markdown.rs')],['Stuart::build','output tree'])
p('C25','$env exposes the process environment and the build\'s STUART_ENV',
  "In templates `$env.NAME` is the value of the process environment variable NAME, and `$env.STUART_ENV` is the environment of this build (`production`, `development` or `benchmark`) whatever the process environment contains; no environment content makes the build crash.",
  ['configurations'],'every environment within the bound (names, values, a pre-set STUART_ENV, non-UTF-8 values)',
  'No test reads $env.',
  [C+'lib.rs'],[('Stuart::build (vars, base frame)',C+'lib.rs')],['output of a page that prints $env'])
p('C26','Plugin file types go to the plugin and their result is what is saved',
  "A content file whose extension is registered by a plugin, and is not html, md or json, is parsed and processed by the first such plugin parser with its exact bytes, and the name and contents the plugin returns (or the originals where it returns none) are what is saved; a plugin error fails the build, and files of other types are copied unchanged.",
  ['configurations','inputs'],'every registration of extensions and every plugin result within the bound',
  'No test registers a plugin.',
  [C+'fs/mod.rs',C+'process/mod.rs',C+'plugins/mod.rs'],[('Node::create_from_file',C+'fs/mod.rs'),('Node::process (Custom)',C+'process/mod.rs')],['Stuart::build','output tree'])
p('C27','Plugin sources are tried in order until one loads',
  "For each dependency of the manifest the sources separated by `;` are tried in order until one loads, and those after it are left untouched; sources meant for another platform (`.dll`) or for another kind of build (`.js` without the JavaScript feature) are passed over, and a source that does not load (a missing file, one that is not a library or has no entry point, a Cargo project that does not compile or has no package, a Git repository that cannot be cloned or pulled, a download that fails) never keeps the next from being tried. The build fails if none loads, before anything is built, and otherwise the plugin used is what the source names at that time: the file itself, the library compiled from the Cargo project, the one cloned or pulled from that repository and then compiled, or the bytes downloaded. A library stays loaded for as long as anything from its plugin is in use.",
  ['configurations','fault_sequences'],'every list of sources within the bound and every outcome of each step of loading each of them',
  'No test loads a native plugin: it needs shared objects, Cargo, Git and the network.',
  [B+'plugins/mod.rs',B+'plugins/source.rs',B+'config/git.rs'],[('plugins::load',B+'plugins/mod.rs'),('source::load_from_source',B+'plugins/mod.rs')],['loaded plugins','output of a page using the plugin','commands run','error of the build'])
p('C28','A change seen by the dev server leads to one rebuild and reloads all clients',
  "After each change to a file of the project the development server rebuilds the site from the current files (once for each change that arrives while it waits), in the way the settings ask for, and sends every connected client one `reload`; after a failing build it sends none and goes on serving and watching. A client whose connection is broken is dropped and never stops the others from being notified. The products of the build (the output directory, temp, metadata.json) and stuart.toml never trigger a rebuild, wherever the output directory is and however late their events arrive, while files that merely have such names further down do; no event, with or without a path, ends the watcher.",
  ['histories','schedules'],'every history of changes, events, clients coming and going and builds failing within the bound, with the events of the build\'s own writes arriving during or after it',
  'The server has no test, and the loop never returns: what matters is the order of events, builds and drained queues.',
  [B+'serve/mod.rs',B+'build.rs'],[('build_watcher',B+'serve/mod.rs')],['output tree after each wait','bytes sent to each WebSocket client'])
p('C29','JavaScript plugins get, give and set the right values, each in its own world',
  "A JavaScript plugin's function is called once each time its tag is reached, with JavaScript values equal to the template's (every null, boolean, number, string, array and object, with every key), and the text of its result takes the place of the tag (nothing for `undefined`); an argument that is not defined is an error. `STUART.get(name)` gives what the variable would be as an argument at that point, and `STUART.set(name, value)` defines it in the current block, with exactly that value, for templates and plugins alike, the parts of it that JSON has no equivalent for becoming null in arrays and being left out of objects (and setting `undefined` changes nothing); both work however they are reached (as methods, taken off the object, kept from an earlier call). Plugins share no state with each other or with another build's, even if their functions have the same names. A module that cannot be read, compiled, linked or evaluated, or that exports no proper plugin, is a source that does not load, and nothing a plugin's function does with these (exceptions, cyclic objects, getters that throw) makes the program panic.",
  ['inputs','configurations'],'every JSON value and JavaScript value within the bound, every way of reaching STUART, every malformed module of the list',
  'Two tests call a few functions with fixed values.',
  [B+'plugins/js/mod.rs',B+'plugins/js/json.rs',B+'plugins/js/context.rs'],[('js::json conversion',B+'plugins/js/json.rs'),('STUART',B+'plugins/js/context.rs'),('load_js_plugin',B+'plugins/js/mod.rs')],['output of a page calling a plugin function','arguments of a JavaScript function','error of the build'])
p('C30','dateformat prints the instant its input denotes',
  "`dateformat($d, f)` prints, in UTC and in the chrono format `f`, the instant which the string `d` denotes in any of the supported notations (ISO and RFC dates, times with and without offsets or zone names, written-out months, Unix time): a date without a time is midnight, whatever the clock of the machine says. A string that is not a date, a value that is not a string, an undefined variable and a malformed format are errors of the page, never a crash.",
  ['inputs'],'every date and time in each notation, every specifier, and other strings, values and formats, within the bounds',
  'One fixed date.',
  [C+'functions/parsers/dateformat.rs'],[('DateFormatFunction::execute',C+'functions/parsers/dateformat.rs')],['output of the page','error of the page'])
p('C31','A rebuild gives what a fresh build of the current files gives',
  "After any history of changes to the project and builds from the same context (as the development server does them), a rebuild leaves exactly the output tree and metadata, and ends with exactly the error, that a fresh process building the current files gives: nothing of an earlier build, successful or failed, is left in the output or in memory.",
  ['histories'],'every history of file changes (content, templates, data, static files, scripts, additions, removals, renames, breaking and repairing a page) and builds within the bound',
  'No test builds twice.',
  [B+'build.rs',C+'lib.rs',C+'fs/mod.rs'],[('StuartContext::build',B+'build.rs'),('Stuart::build',C+'lib.rs')],['output tree','metadata.json','error of the build'])
p('C32','The command line is obeyed, and the exit status and the output tell the truth',
  "`stuart build` reads the manifest that `--manifest-path` names (default stuart.toml in the working directory) and writes the site to the directory `-o/--output` names (default dist), relative to the manifest; `bench` builds as often as `-i/--iters` says, `new` and `clean` do what C21 and C22 say. The exit status is 0 exactly if the command succeeded; a failing command prints an error, leaves other files alone, and with `-q/--quiet` these commands print nothing but errors. A command line that is none of these (nor `dev`, nor asks for help) changes no file and ends with an error.",
  ['inputs','fault_sequences'],'every combination of command, options, order, working directory and good or broken project within the bound, and a failing file operation',
  'No test starts the program.',
  [B+'main.rs',B+'logger/mod.rs',B+'logger/progress.rs'],[('main, build, bench',B+'main.rs'),('Progress',B+'logger/progress.rs')],['exit status','standard output and error','files'])
p('C33','The bundled plugins do exactly what they say',
  "With the plugin demo loaded, `{{ demo() }}` writes exactly its text wherever it stands, with arguments it is an error of the page, and without the plugin there is no such function. With the plugin imgopt loaded, each file with the extension `png` is saved under its own name with exactly what the optimizer makes of its bytes, an error of the optimizer fails the build with its message, and all other files are saved as without the plugin.",
  ['inputs'],'every text around the call, argument, name and contents of a file, and answer of the optimizer within the bounds',
  'The plugins have no tests.',
  ['plugins/demo/src/function.rs','plugins/demo/src/lib.rs','plugins/imgopt/src/lib.rs'],[('DemoFunction::execute','plugins/demo/src/function.rs'),('PngProcessor::process','plugins/imgopt/src/lib.rs'),('declare_plugin',C+'plugins/mod.rs')],['output of the page','output tree','error of the build'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: 
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
