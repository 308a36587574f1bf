#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code (see DESIGN.md).

usage: check.py PROPERTY [--entry NAME] [--keep]        tier from VERIF_TIER
"""
import sys, os, json, time, subprocess, hashlib, shutil, glob, fcntl, re, random
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
sys.path.insert(0, V)
import props

TC = os.environ.get("VERIF_TOOLCHAIN", "stable")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "STUART_ENV"):
    ENV.pop(k, None)
PROCS = max(2, min(8, os.cpu_count() or 8))


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = []
            for d, ds, f in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
                fs += [os.path.join(d, x) for x in sorted(f)]
        for f in fs:
            h.update(f.encode() + b"\0")
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def build_engine():
    e = os.path.join(V, "engine")
    key = tree_hash([os.path.join(e, "src"), os.path.join(e, "Cargo.toml"), os.path.join(e, "build.rs")])
    out, kf = os.path.join(B, "symx"), os.path.join(B, "symx.key")
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    t = os.path.join(B, "t-engine")
    r = run(["cargo", "build", "--release", "--offline"], cwd=e, env=dict(ENV, CARGO_TARGET_DIR=t))
    if r.returncode:
        raise Broken("engine build failed:\n" + r.stdout[-4000:])
    shutil.copy2(os.path.join(t, "release", "symx"), out)
    open(kf, "w").write(key)
    return out


def llvm_tools():
    r = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, stdout=subprocess.PIPE, text=True)
    d = os.path.join(r.stdout.strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    if not os.path.exists(os.path.join(d, "opt")):
        raise Broken("no llvm tools in " + d)
    return d


BUILT = {}


def build_harness(crate):
    """Once per run of a check, whatever happens to the sources meanwhile."""
    if crate not in BUILT:
        BUILT[crate] = build_harness_now(crate)
    return BUILT[crate]


def build_harness_now(crate):
    """Builds the harness with the repository's current source into one LLVM module
    and the native program that replays inputs. Returns (module.ll, program)."""
    h = os.path.join(V, "harness", crate)
    srcs = [os.path.join(REPO, x) for x in ("stuart-core", "stuart", "plugins", "Cargo.toml", "Cargo.lock")]
    key = TC + tree_hash(srcs + [h, os.path.join(V, "harness/vrt"), os.path.join(V, "harness/bin/src/hcommon.rs"), os.path.join(V, "harness/core/src/common.rs"), os.path.join(V, "check.py")])
    ll, prog, kf = (os.path.join(B, crate + x) for x in (".ll", ".prog", ".key"))
    if all(os.path.exists(x) for x in (ll, prog, kf)) and open(kf).read() == key:
        return ll, prog, 0.0
    t0 = time.time()
    t = os.path.join(B, "t-" + crate)
    deps = os.path.join(t, "release", "deps")
    # never trust time stamps for what changes between runs
    for pat in ("stuart*", "h" + crate + "*", "vrt*"):
        for f in glob.glob(os.path.join(t, "release", ".fingerprint", pat)):
            shutil.rmtree(f, ignore_errors=True)
    for f in glob.glob(os.path.join(deps, "h" + crate + "*")):
        os.remove(f)
    flags = "-Csave-temps -Cno-vectorize-loops -Cno-vectorize-slp -Awarnings"
    env = dict(ENV, CARGO_TARGET_DIR=t)
    if crate == "js":
        # The crate `v8` without V8: what it would call is defined by the harness.
        a = os.path.join(B, "empty.a")
        open(a, "w").write("!<arch>\n")
        env["RUSTY_V8_ARCHIVE"] = a
        flags += " -Crelro-level=off -Clink-arg=-Wl,-z,lazy -Clink-arg=-Wl,--unresolved-symbols=ignore-all"
    env["RUSTFLAGS"] = flags
    lock = os.path.join(h, "Cargo.lock")
    saved = open(lock).read() if os.path.exists(lock) else None
    r = run(["cargo", "build", "--release", "--offline"], cwd=h, env=env)
    if saved is not None and open(lock).read() != saved:
        open(lock, "w").write(saved)
    if r.returncode:
        raise Broken("harness build failed:\n" + r.stdout[-6000:])
    bc = glob.glob(os.path.join(deps, "h" + crate + "-*.lto.after-restriction.bc"))
    if len(bc) != 1:
        raise Broken("no LTO module for " + crate)
    tools = llvm_tools()
    mid = os.path.join(B, crate + ".bc")
    p = "globaldce,function(scalarizer<load-store>,simplifycfg),globaldce"
    r = run([os.path.join(tools, "opt"), "--strip-debug", "-passes=" + p, bc[0], "-o", mid])
    if r.returncode:
        raise Broken("opt failed:\n" + r.stdout[-2000:])
    r = run([os.path.join(tools, "llvm-dis"), mid, "-o", ll])
    if r.returncode:
        raise Broken("llvm-dis failed:\n" + r.stdout[-2000:])
    shutil.copy2(os.path.join(t, "release", "h" + crate), prog)
    for f in glob.glob(os.path.join(deps, "*.bc")) + glob.glob(os.path.join(deps, "rmeta*")) + [mid]:
        if os.path.isdir(f):
            shutil.rmtree(f, ignore_errors=True)
        else:
            os.remove(f)
    open(kf, "w").write(key)
    return ll, prog, time.time() - t0


def symx(eng, ll, entry, out, secs, opts):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [eng, ll, entry, "--out", out, "--time", str(secs), "--procs", str(PROCS)]
    for k, v in opts.items():
        cmd += ["--" + k, str(v)]
    t0 = time.time()
    r = run(cmd, timeout=secs + 120)
    tot = {"paths": [], "viol": [], "stats": {}, "covers": set(), "functions": set(), "inconclusive": {}, "outcomes": {}, "labels": {}}
    n = 0
    for f in glob.glob(os.path.join(out, "*.jsonl")):
        got = False
        for line in open(f, errors="replace"):
            try:
                j = json.loads(line)
            except ValueError:
                raise Broken("bad record from the engine: " + line[:200])
            if j["t"] == "path":
                tot["paths"].append(j)
            elif j["t"] == "violation":
                tot["viol"].append(j)
            elif j["t"] == "stats":
                got = True
                n += 1
                for k, v in j.items():
                    if k in ("covers", "functions"):
                        tot[k].update(v)
                    elif k in ("inconclusive", "outcomes", "labels"):
                        for a, b in v.items():
                            tot[k][a] = tot[k].get(a, 0) + b
                    elif k in ("maxdepth", "maxsyms", "maxsteps"):
                        tot["stats"][k] = max(tot["stats"].get(k, 0), v)
                    elif k != "t":
                        tot["stats"][k] = tot["stats"].get(k, 0) + v
        if not got:
            tot["inconclusive"]["engine process ended early"] = 1
    if r.returncode or n == 0:
        raise Broken("engine failed on %s (%s):\n%s" % (entry, r.returncode, r.stdout[-2000:]))
    tot["wall"] = time.time() - t0
    return tot


def native(prog, entry, inputs, scratch, tag):
    """Runs the native program on one input vector."""
    f = os.path.join(scratch, tag + ".in")
    with open(f, "w") as o:
        for w, v in inputs:
            o.write("%d\n" % v)
    try:
        r = subprocess.run([prog, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, cwd=scratch, env={"PATH": "/usr/bin:/bin"})
    except subprocess.TimeoutExpired:
        return {"rc": "hang", "obs": [], "notes": [], "check": None, "err": ""}
    obs, notes, chk, covers = [], [], None, []
    for l in r.stdout.decode(errors="replace").split("\n"):
        if l.startswith("VRT obs "):
            obs.append(l[8:])
        elif l.startswith("VRT note "):
            notes.append(l[9:])
        elif l.startswith("VRT check-failed "):
            chk = l[17:]
        elif l.startswith("VRT cover "):
            covers.append(l[10:])
    return {"rc": r.returncode, "obs": obs, "notes": notes, "check": chk, "err": r.stderr.decode(errors="replace")[-3000:], "covers": covers}


def reproduces(v, r):
    k = v["kind"]
    if k == "check":
        return r["check"] == v["label"]
    if r["rc"] == "hang":
        return k == "steps"
    crashed = isinstance(r["rc"], int) and r["rc"] < 0
    if k == "panic":
        return crashed or "panicked at" in r["err"]
    return crashed


def demangle(names):
    r = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    out = r.stdout.split("\n")
    return out[: len(names)] if r.returncode == 0 else names


def load_known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("property") == prop and k.get("status") == "known"]


def known_match(known, entry, v):
    for k in known:
        m = k["match"]
        if not re.fullmatch(m["entry"], entry) or m["kind"] != v["kind"] or m["label"] != v["label"]:
            continue
        if "notes" in m and m["notes"] != v["notes"]:
            continue
        return k
    return None


def setup():
    os.makedirs(B, exist_ok=True)
    lk = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    build_engine()
    for c in sorted({E["crate"] for P in props.PROPS.values() for E in P["entries"]}):
        build_harness(c)
    return 0


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    rng = random.Random(seed)
    P = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lk = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    eng = build_engine()
    scratch = os.path.join(B, "run-" + prop)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    rep_dir = os.path.join(B, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    known = load_known(prop)
    agg = {}
    ent_ev, problems, viols, knowns, samples = [], [], [], {}, []
    functions, labels, outcomes = set(), {}, {}
    validated = 0
    budget = 840 if tier == "quick" else 3 * 3600
    for E in P["entries"]:
        if only and E["entry"] != only:
            continue
        if viols:
            log("%-28s skipped: a violation has been found" % E["entry"])
            continue
        if tier not in E.get("tiers", ("quick", "thorough")):
            continue
        ll, prog, bs = build_harness(E["crate"])
        secs = E.get("time", 300)
        secs = max(10, min(secs if tier == "quick" else 4 * secs, budget - (time.time() - t0)))
        o = os.path.join(scratch, E["entry"])
        opts = {"sample-every": E.get("every", 20), "sample-max": 24}
        opts.update(E.get("opts", {}))
        r = symx(eng, ll, E["entry"], o, int(secs), opts)
        s = r["stats"]
        for k, v in s.items():
            agg[k] = agg.get(k, 0) + v if not k.startswith("max") else max(agg.get(k, 0), v)
        functions |= r["functions"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        bad = []
        if s["left"]:
            bad.append("%d unexplored states" % s["left"])
        if s["badkids"]:
            bad.append("engine worker died")
        if s["selfbad"]:
            bad.append("%d models failed the engine's self-check" % s["selfbad"])
        for k, v in sorted(r["inconclusive"].items(), key=lambda x: -x[1])[:4]:
            bad.append("inconclusive x%d: %s" % (v, k[:400]))
        for c in E.get("covers", []):
            if c not in r["covers"]:
                bad.append("vacuity: '%s' never reached" % c)
        if s["paths"] == 0:
            bad.append("vacuity: no path")
        # replay a sample of the explored paths natively and compare what they observed
        paths = r["paths"]
        rng.shuffle(paths)
        paths = paths[: (E.get("replay", 120))]

        def one(ip):
            i, p = ip
            return p, native(prog, E["entry"], p["inputs"], o, "p%d" % i)

        okn = 0
        with ThreadPoolExecutor(PROCS) as ex:
            for p, n in ex.map(one, list(enumerate(paths))):
                same = n["obs"] == p["obs"] and n["rc"] == 0 and n["notes"] == p["notes"]
                if p["kind"] != "return":
                    same = n["obs"] == p["obs"]
                if same:
                    okn += 1
                elif not any("native replay" in b for b in bad):
                    bad.append("native replay of a path differs: inputs %s engine obs %s native %s" % (p["inputs"], p["obs"], {k: n[k] for k in ("rc", "obs", "notes", "check", "err")}))
        validated += okn
        for p in paths[:2]:
            samples.append({"entry": E["entry"], "inputs": [v for _, v in p["inputs"]], "observed": p["obs"][:4]})
        # violations: replay before reporting
        groups = {}
        for v in r["viol"]:
            groups.setdefault((v["kind"], v["label"], "|".join(v["notes"])), []).append(v)
        for gk in sorted(groups):
            vs = groups[gk]
            vs.sort(key=lambda v: (len(v["inputs"]), sum(x for _, x in v["inputs"])))
            done = False
            for v in vs[:6]:
                n = native(prog, E["entry"], v["inputs"], o, "v")
                if reproduces(v, n):
                    done = True
                    k = known_match(known, E["entry"], v)
                    if k:
                        knowns.setdefault(k["id"], k)
                    else:
                        viols.append((E, v, n))
                    break
            if not done:
                v = vs[0]
                bad.append("counterexample does not reproduce natively: %s %s inputs %s native %s bt %s" % (v["kind"], v["label"], v["inputs"], n, v.get("bt")))
        for b in bad:
            problems.append(E["entry"] + ": " + b)
        ent_ev.append({"entry": E["entry"], "harness": E["crate"], "bounds": E.get("bounds", ""), "paths": s["paths"], "assumption_pruned": s["silent"], "forks": s["forks"], "instructions": s["steps"], "assertions_checked": s["checks"], "assertion_queries": s["checks_z3"], "solver_queries": s["queries"], "solver_unsat": s["unsat"], "solver_sat": s["sat"], "solver_unknown": s["unknown"], "branches_implied": s["implied"], "solver_s": round(s["secs"], 3), "wall_s": round(r["wall"], 2), "replayed_paths": okn, "covers": sorted(r["covers"]), "symbolic_inputs_max": s["maxsyms"], "complete": not bad})
        log("%-28s paths %-7d pruned %-6d steps %-10d checks %-6d queries %-6d wall %.1fs replayed %d%s" % (E["entry"], s["paths"], s["silent"], s["steps"], s["checks"], s["queries"], r["wall"], okn, "" if not bad else "  INCOMPLETE"))
    mine = sorted(x for x in set(demangle(sorted(functions))) if "stuart" in x and "drop_glue" not in x)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": agg.get("paths", 0) + agg.get("silent", 0),
            "transitions": agg.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "exhaustive": not problems,
            "explanation": "states: symbolic paths decided; transitions: solver-feasible branch splits between them; each path stands for every input satisfying its path condition",
            "functions_encoded": mine,
            "functions_executed_total": len(functions),
            "instructions": agg.get("steps", 0),
            "assertions_checked": agg.get("checks", 0),
            "assertion_labels": labels,
            "solver_queries": agg.get("queries", 0),
            "solver_unsat": agg.get("unsat", 0),
            "solver_sat": agg.get("sat", 0),
            "solver_time_s": round(agg.get("secs", 0), 3),
            "outcomes": outcomes,
            "entries": ent_ev,
            "incomplete": problems,
            "known_findings": sorted(knowns),
        },
        "assumptions": props.COMMON + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k in sorted(knowns):
        log("KNOWN-FINDING: property=%s %s" % (prop, knowns[k]["what"]))
    if viols:
        for i, (E, v, n) in enumerate(viols):
            p = os.path.join(rep_dir, "%s-%d.json" % (prop, i))
            json.dump({"property": prop, "entry": E["entry"], "harness": E["crate"], "violation": v, "native": n, "how": "python3 /verif/replay.py " + p}, open(p, "w"), indent=1)
            log("  %s %s %s [%s] %s" % (E["entry"], v["kind"], v["label"], "|".join(v["notes"])[:300], n["err"][:300].strip()))
            log("VIOLATION property=%s replay=%s" % (prop, p))
        if "--keep" not in sys.argv:
            shutil.rmtree(scratch, ignore_errors=True)
        return 1
    if problems:
        for p in problems:
            log("INCONCLUSIVE " + p)
        return 2
    if "--keep" not in sys.argv:
        shutil.rmtree(scratch, ignore_errors=True)
    log("HELD property=%s tier=%s: %d paths, %d queries, %.1fs" % (prop, tier, agg.get("paths", 0), agg.get("queries", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        log("ERROR " + str(e))
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        log("ERROR " + str(e))
        sys.exit(2)
