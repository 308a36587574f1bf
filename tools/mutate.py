#!/usr/bin/env python3
"""Applies small textual changes to the program one at a time, in private copies of /repo and
/verif, and reports which no check notices (a development aid; no check reads this).
usage: mutate.py list | run SEED COUNT LOG"""
import os, re, sys, random, subprocess, json, time

FILES = {
    "stuart-core/src/parse/mod.rs": "C01 C02 C03 C04",
    "stuart-core/src/parse/parser.rs": "C02 C03 C01",
    "stuart-core/src/parse/function.rs": "C04 C01",
    "stuart-core/src/parse/markdown.rs": "C15 C24 C03 C01",
    "stuart-core/src/process/mod.rs": "C05 C14 C02 C24 C08 C26 C03 C07 C12",
    "stuart-core/src/process/stack.rs": "C05 C17 C07",
    "stuart-core/src/process/iter.rs": "C07 C06 C08 C03",
    "stuart-core/src/functions/mod.rs": "C06 C04",
    "stuart-core/src/functions/parsers/begin.rs": "C08 C04",
    "stuart-core/src/functions/parsers/dateformat.rs": "C30",
    "stuart-core/src/functions/parsers/else.rs": "C06 C08",
    "stuart-core/src/functions/parsers/end.rs": "C08 C06 C07",
    "stuart-core/src/functions/parsers/excerpt.rs": "C09",
    "stuart-core/src/functions/parsers/for.rs": "C07 C08",
    "stuart-core/src/functions/parsers/if.rs": "C06 C08",
    "stuart-core/src/functions/parsers/ifdefined.rs": "C06 C08",
    "stuart-core/src/functions/parsers/import.rs": "C17",
    "stuart-core/src/functions/parsers/insert.rs": "C08 C14 C04",
    "stuart-core/src/functions/parsers/timetoread.rs": "C10",
    "stuart-core/src/fs/mod.rs": "C12 C11 C13 C14 C26 C16",
    "stuart-core/src/lib.rs": "C14 C24 C25 C12 C26 C16 C31",
    "stuart-core/src/plugins/mod.rs": "C26",
    "stuart-core/src/error.rs": "C23",
    "stuart/src/build.rs": "C20 C13 C31 C18",
    "stuart/src/scripts.rs": "C20",
    "stuart/src/new.rs": "C21",
    "stuart/src/main.rs": "C32 C22 C18 C21",
    "stuart/src/logger/mod.rs": "C32",
    "stuart/src/logger/progress.rs": "C32",
    "plugins/demo/src/function.rs": "C33",
    "plugins/imgopt/src/lib.rs": "C33",
    "stuart/src/serve/mod.rs": "C19 C28",
    "stuart/src/error.rs": "C23",
    "stuart/src/config/mod.rs": "C18",
    "stuart/src/config/git.rs": "C21 C27",
    "stuart/src/plugins/mod.rs": "C27",
    "stuart/src/plugins/source.rs": "C27",
    "stuart/src/plugins/js/mod.rs": "C29",
    "stuart/src/plugins/js/json.rs": "C29",
    "stuart/src/plugins/js/context.rs": "C29",
}
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" \+= ", " -= "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.rev\(\)", ""), (r"\.trim\(\)", ""), (r"\.trim_start\(\)", ".trim()"), (r"\.trim_end\(\)", ".trim()"), (r"\.trim\(\)", ".trim_start()"), (r"\.trim\(\)", ".trim_end()"),
    (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"),
    (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"starts_with", "contains"), (r"ends_with", "contains"),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.last_mut\(\)", ".first_mut()"), (r"\.find\(", ".rfind("), (r"\.split_once\(", ".rsplit_once("), (r"\.splitn\(2, ", ".splitn(3, "),
    (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(1)"),
    (r"\bif ([^{]*[^ {]) \{$", r"if !(\1) {"), (r"\bif (?!let)([^{]*[^ {]) \{$", r"if true || \1 {"), (r"\bif (?!let)([^{]*[^ {]) \{$", r"if false && (\1) {"),
    (r"\bwhile (?!let)([^{]*[^ {]) \{$", r"while !(\1) {"),
    (r"^(\s*)([a-z_\.]+[a-z_]+\(.*\)\??;)$", r"\1// \2"), (r"\)\?;$", ").ok();"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"\.push\(", ".insert(0, "), (r"\.extend\(", ".append(&mut "), (r"replace\(", "replacen("), (r"\.skip\(", ".take("), (r"\.take\(", ".skip("),
    (r"Some\(([a-z_]+)\) =>", r"Some(\1) if false =>"), (r"=> Ok\(\(\)\)", "=> return Ok(())"), (r"unwrap_or\(true\)", "unwrap_or(false)"),
    (r"to_string_lossy", "to_string_lossy"), (r"\.filter\(([^()]*(\([^()]*\))?[^()]*)\)", ""), (r"\.clone\(\)\)", ")"), (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Equal", "Ordering::Less"), (r"remove_dir_all", "create_dir_all"),
    (r"eq_ignore_ascii_case", "eq"), (r"\.chars\(\)\.count\(\)", ".len()"), (r"\.len\(\)", ".len() + 1"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.\.=", ".."), (r"\bpop\(\)", "last().cloned()"), (r"insert_str", "push_str"),
]

def mutants(root):
    out = []
    for f in FILES:
        p = os.path.join(root, f)
        if not os.path.exists(p):
            continue
        intest = False
        skip = 0
        for n, l in enumerate(open(p).read().split("\n")):
            t = l.strip()
            if t.startswith("#[cfg(test)]"):
                break
            if t.startswith(("//", "#", "use ", "pub use", "log!", "*", "mod ", "pub mod")) or "log!" in t:
                continue
            for i, (a, b) in enumerate(OPS):
                for m in re.finditer(a, l):
                    new = l[: m.start()] + re.sub(a, b, l[m.start():m.end()] if not a.endswith("$") else l[m.start():], count=1) + (l[m.end():] if not a.endswith("$") else "")
                    if a.startswith("^"):
                        new = re.sub(a, b, l)
                    if new != l and "'a" not in l[m.start():m.end()]:
                        out.append((f, n, l, new))
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            res.append(m)
    return res

def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", **k)

def run(seed, count, logf):
    W = "/tmp/mut%d" % seed
    if "INNER" not in os.environ:
        os.makedirs(W, exist_ok=True)
        sh("[ -d %s/repo ] || git clone -q /repo %s/repo; [ -d %s/verif ] || git clone -q /verif %s/verif; git -C %s/repo pull -q /repo HEAD; git -C %s/verif pull -q /verif HEAD; mkdir -p %s/verif/build %s/target" % ((W,) * 8))
        os.execvp("unshare", ["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif; INNER=1 exec nice -n 5 python3 %s run %d %d %s" % (W, W, os.path.abspath("/verif/tools/mutate.py"), seed, count, logf)])
    ms = mutants("/repo")
    random.Random(seed).shuffle(ms)
    log = open(logf, "a")
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", VERIF_TIER="quick")
    done = 0
    for f, n, old, new in ms:
        if done >= count:
            break
        p = "/repo/" + f
        t = open(p).read()
        L = t.split("\n")
        L[n] = new
        open(p, "w").write("\n".join(L))
        try:
            r = sh("cd /repo && timeout 120 cargo test -q --offline -p stuart_core" + (" && timeout 100 cargo check -q --offline -p stuart" if f.startswith("stuart/") else ""), env=env)
            if r.returncode:
                continue
            done += 1
            verdict = []
            caught = False
            for c in FILES[f].split():
                t0 = time.time()
                r = sh("timeout 900 python3 check.py " + c, env=env)
                verdict.append("%s:%d(%ds)" % (c, r.returncode, time.time() - t0))
                if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                    caught = True
                    break
                if r.returncode == 2:
                    verdict.append([x for x in r.stdout.split("\n") if "INCONCL" in x or "ERROR" in x][:1][0][:200] if any("INCONCL" in x or "ERROR" in x for x in r.stdout.split("\n")) else "?")
            log.write("%s %s:%d\n  - %s\n  + %s\n  %s\n" % ("caught  " if caught else "SURVIVED", f, n + 1, old.strip(), new.strip(), " ".join(verdict)))
            log.flush()
        finally:
            open(p, "w").write(t)
    log.write("done\n")

if sys.argv[1] == "list":
    ms = mutants("/repo")
    print(len(ms))
    for m in random.Random(1).sample(ms, 12):
        print(m)
else:
    run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
