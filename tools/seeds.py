#!/usr/bin/env python3
"""Regenerates /verif/seeded from the definitions below.
usage: seeds.py write|verify [ID...]   (verify: in a scratch copy of /repo)
No check reads this file or /verif/seeded."""
import json, os, subprocess, sys, shutil
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SEEDS = {}
CORE = "stuart-core/src/"
BIN = "stuart/src/"

PRE = r'''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
set -u
R=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
B=$R/target/debug/stuart
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GIT_CONFIG_GLOBAL=/dev/null GIT_CONFIG_SYSTEM=/dev/null
mkdir -p "$T/site/content"
cd "$T/site"
printf '[site]\nname = "demo"\n' > stuart.toml
printf '{{ insert("m") }}' > content/root.html
printf '{{ begin("m") }}{{ $self.content }}{{ end("m") }}' > content/md.html
build() { "$B" -q build "$@" > "$T/out" 2> "$T/err"; }
fail() { echo "FAILED: $1"; cat "$T/err" 2> /dev/null; exit 1; }
# the output file $1 holds exactly $2
expect() {
  [ -f "dist/$1" ] || fail "dist/$1 is missing"
  printf "$2" > "$T/want"
  cmp -s "dist/$1" "$T/want" || { od -c "dist/$1" | head; fail "dist/$1 is not as expected"; }
}
# a JavaScript plugin with the function f
plugin() {
  printf '\n[dependencies]\np = "p.js"\n' >> stuart.toml
  printf 'export default { name: "p", version: "1.0.0", functions: [{ name: "f", fn: %s }] }' "$1" > p.js
}
page() { printf '{{ begin("m") }}%s{{ end("m") }}' "$2" > "content/$1"; }
'''

def S(id, prop, edits, needs, breaks, demo, files=None):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {})

def sh(cmd, shell=True, **k):
    return subprocess.run(cmd, shell=shell, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed_defs.py")).read())

def edit(root, s):
    for f, old, new in s["edits"]:
        p = os.path.join(root, f)
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit("%s: %d matches of %r" % (f, t.count(old), old))
        open(p, "w").write(t.replace(old, new))

def write(id):
    s = SEEDS[id]
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    W = "/tmp/seedwt"
    if not os.path.isdir(W):
        sh("git clone -q /repo " + W)
    sh("git fetch -q origin; git reset -q --hard origin/HEAD; git checkout -q -- .", cwd=W)
    edit(W, s)
    diff = sh("git diff", cwd=W).stdout
    open(d + "/patch.diff", "w").write(diff)
    # changed lines must belong to the original repository
    base = sh("git rev-list --max-parents=0 HEAD", cwd=W).stdout.strip()[:8]
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        if l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0]) - 1
        elif l.startswith(" "):
            n += 1
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            b = sh("git blame -l -s -L%d,%d HEAD -- %s" % (n, n, cur), cwd=W).stdout
            if base not in b.split()[0]:
                print("%s: NOT ORIGINAL: %s" % (id, l))
    sh("git checkout -q -- .", cwd=W)
    open(d + "/demo.sh", "w").write(PRE + s["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    for f, t in s["files"].items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        open(os.path.join(d, f), "w").write(t)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)

def verify(id):
    d = os.path.join(V, "seeded", id)
    C = "/tmp/seedrepo"
    if not os.path.isdir(C):
        sh("cp -a /repo " + C)
    sh("git fetch -q origin 2>/dev/null; git checkout -q -- .", cwd=C)
    sh("git -C %s pull -q /repo HEAD" % C)
    env = ". /opt/vp/env.sh; "
    # everything below sees the copy as /repo
    def rsh(c):
        return sh(["unshare", "-m", "bash", "-c", "mount --bind /tmp/seedrepo /repo && cd /repo && { %s\n}" % c], shell=False)
    def build():
        return rsh(env + "cargo build --workspace --all-features --locked --offline 2>&1 | tail -15; exit ${PIPESTATUS[0]}")
    def demo():
        t = sh("rm -rf /tmp/demo_%s; mkdir /tmp/demo_%s; cp -r %s/. /tmp/demo_%s/; rm -f /tmp/demo_%s/*.diff /tmp/demo_%s/meta.json" % ((id,) * 2 + (d,) + (id,) * 3))
        r = rsh("timeout 300 bash /tmp/demo_%s/demo.sh" % id)
        sh("rm -rf /tmp/demo_%s" % id)
        return r
    b = build()
    if b.returncode:
        return "clean build failed: " + b.stdout
    r = demo()
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout
    a = sh("git apply %s/patch.diff" % d, cwd=C)
    if a.returncode:
        return "patch does not apply: " + a.stdout
    try:
        b = build()
        if b.returncode:
            return "build failed: " + b.stdout
        r = demo()
        if r.returncode == 0:
            return "demo passes with the patch: " + r.stdout
        t = rsh(env + "cargo nextest run --workspace --all-features --locked --offline --test-threads 8 2>&1 | tail -8; exit ${PIPESTATUS[0]}; ")
        sh("rm -rf stuart/tests/*/dist stuart/tests/*/metadata.json", cwd=C)
        if t.returncode:
            return "tests fail: " + t.stdout
    finally:
        sh("git checkout -q -- .", cwd=C)
    return "ok: " + r.stdout.strip().splitlines()[0]

ids = sys.argv[2:] or sorted(SEEDS)
for i in ids:
    if sys.argv[1] == "write":
        write(i)
    else:
        print(i, verify(i), flush=True)
