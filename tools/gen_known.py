#!/usr/bin/env python3
"""Regenerates /verif/known_findings.json. Fixed entries suppress nothing; `known` ones are
matched by entry, kind and label (and notes) of the exact counterexample. Commits are looked
up by subject in /repo so that the list stays right."""
import json, os, subprocess
FIX = [
    ("C01", "report a lone quote", "a template ending in a lone quote as an argument (`{{ f(\"`) panics"),
    ("C02", "do not start a tag with the braces", "`\\{{{ x` : the braces of an escaped delimiter start a tag when another brace follows"),
    ("C03", "count the lines of a markdown body", "tokens and errors of a markdown body carry line numbers counted from the body, not the file"),
    ("C06", "make ifle true", "ifle(1, 1) is false"),
    ("C06", "compare numbers by their value", "ifgt(0.9, 0.1) and numbers beyond 32 bits compare as truncated integers"),
    ("C06", "skip the blocks nested in a branch", "a block nested in a branch that is not taken ends the branch early"),
    ("C07", "skip the body of a for loop", "the body of a loop over nothing runs once"),
    ("C08", "report blocks left open by root.html", "a block left open in root.html drops the output silently"),
    ("C09", "mark an excerpt as truncated", "excerpt of a non-ASCII string appends `...` although nothing is left out"),
    ("C12", "report two nodes saved to the same output path", "`a.html` and `a/index.html` with strip_extensions overwrite each other silently"),
    ("C25", "let STUART_ENV be that of the build", "a STUART_ENV in the process environment shadows that of the build; a non-Unicode variable panics"),
    ("C24", "leave the content of a page null", "using $self.content (or importing pages) while markdown is being expanded panics"),
    ("C13", "report an error while listing a directory", "an error while listing a directory drops the rest of its files from a successful build"),
    ("C13", "report scripts, static and temporary", "a scripts directory that cannot be listed runs no scripts, and a static directory that cannot be examined is left out, while the build reports success"),
    ("C16", "accept any metadata value from a plugin", "save_metadata panics if a plugin returns a value that is not an object"),
    ("C16", "reject JSON numbers", "a JSON number such as 1e999 (or NaN) makes metadata.json invalid JSON"),
    ("C28", "rebuild once for each change", "`stuart dev -o out`, or with save_metadata, rebuilds for ever because of its own writes; an event without a path (a directory removed, a full queue) panics the watcher; a content file named stuart.toml is not rebuilt"),
    ("C21", "escape the name and author", "`stuart new` with a quote, a backslash or a control character in the name (or in Git's user name) writes a manifest that does not load; the repository of an absolute path is made elsewhere"),
    ("C27", "find the library of a Cargo plugin", "a Cargo plugin whose name has a hyphen never loads; a Cargo.toml without a package panics instead of the next source being tried"),
    ("C27", "clone a plugin's Git repository", "a source which names another repository is loaded from the clone of the one before"),
    ("C29", "give JavaScript functions their name", "a JavaScript function in a branch that is not taken panics (`todo!()`)"),
    ("C29", "reject a JavaScript plugin with", "a JavaScript plugin whose `fn` is not a function (or whose `functions.length` is not a number) panics"),
    ("C29", "pass objects with the key", "the key `__proto__` of an object is lost on its way to JavaScript"),
    ("C29", "convert JavaScript values with", "STUART.set of a value with an undefined member, a hole, a symbol or a getter that throws panics"),
    ("C29", "keep the scope of a JavaScript call", "`const { get } = STUART` panics, and a STUART object kept from an earlier call uses a dangling pointer"),
    ("C29", "leave an object within itself", "STUART.set of an object within itself overflows the stack"),
    ("C32", "print no progress of bench", "`stuart -q bench` prints its progress bar and an empty line, although -q is to suppress all output except errors"),
    ("C23", "display errors which belong to no line", "an error without a line (missing root.html, invalid JSON) panics when displayed in a debug build"),
    ("C09", "allocate for an excerpt no more", "excerpt($v, 2147483647) reserves 2 GiB whatever the length of the text (`String::with_capacity(self.length + 3)`), and the build aborts where that memory is not to be had"),
]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
out = []
for i, (prop, key, what) in enumerate(FIX):
    h = [a for a, b in log if b.startswith("fix: " + key)]
    assert len(h) == 1, (key, h)
    out.append({"id": "F%02d" % (i + 1), "property": prop, "status": "fixed", "record": "fixed: property=%s %s %s" % (prop, h[0], what)})
KNOWN = [
    {"id": "K01", "property": "C28", "status": "known",
     "match": {"entry": "h_c28_during_[0-9]", "kind": "check", "label": "a change made while a build runs is lost"},
     "what": "the dev server drops the events of changes made while a build runs (`while rx.try_recv().is_ok() {}` after the build), so a file saved after the build has read it is served stale until the next change"},
]
out += KNOWN
json.dump({"findings": out}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
