#!/usr/bin/env python3
"""run.py PROPERTY: decides one property by symbolic execution of the code compiled from /repo's working tree.

1. builds the engine (engine/) and a WebAssembly module of the harnesses of the property (harness/src/<property>.rs)
   with pact_models as it is in /repo/rust now;
2. runs the engine: the solver either shows that no input within the bounds breaks an assertion or panics, or gives one;
3. replays each counterexample on the same module compiled to native code by node; only what reproduces is reported;
4. writes evidence/<property>.json.
"""
import json, os, re, shutil, subprocess, sys, time, glob, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
WS = os.path.join(TARGET, "ws")
ENGINE = os.path.join(TARGET, "engine", "release", "wsym")
TOOLCHAIN = "1.89.0"


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def sh(cmd, env=None, cwd=None, what=""):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("%s failed" % what)
    return r.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], {"RUSTUP_TOOLCHAIN": "stable", "CARGO_TARGET_DIR": os.path.join(TARGET, "engine")}, os.path.join(HERE, "engine"), "building the engine")


def put(path, data):
    if os.path.exists(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def mirror(src, dst, tops, replaced={}):
    have = set()
    for top in tops:
        p = os.path.join(src, top)
        if os.path.isfile(p):
            have.add(top)
        for d, _, names in os.walk(p):
            for n in names:
                have.add(os.path.relpath(os.path.join(d, n), src))
    for n in have:
        put(os.path.join(dst, n), replaced.get(n) or read(os.path.join(src, n)))
    for d, _, names in os.walk(dst):
        for n in names:
            r = os.path.relpath(os.path.join(d, n), dst)
            if r not in have and r != "Cargo.toml":
                os.remove(os.path.join(d, n))


def properties():
    return sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(HERE, "harness/src/c[0-9][0-9].rs")))


def stub_rand():
    """A copy of the locked rand crate whose thread-local generator asks the checker for each word."""
    version = re.search(r'name = "rand"\nversion = "(0\.8\.[^"]*)"', read(os.path.join(REPO, "rust/Cargo.lock")).decode()).group(1)
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = glob.glob(os.path.join(home, "registry/src/*/rand-" + version))
    if not src:
        die("the source of rand %s is not in %s" % (version, home))
    dst = os.path.join(WS, "rand")
    mirror(src[0], dst, ("src",), {"src/rngs/thread.rs": read(os.path.join(HERE, "stubs/thread_rng.rs"))})
    put(os.path.join(dst, "Cargo.toml"), read(os.path.join(src[0], "Cargo.toml")))


def build_module(prop):
    mirror(os.path.join(REPO, "rust/pact_models"), os.path.join(WS, "pact_models"), ("src", "tzdata", "build.rs", "README.md"))
    toml = read(os.path.join(REPO, "rust/pact_models/Cargo.toml")).decode()
    toml = re.sub(r"(?ms)^\[target\.[^\n]*not\(target_family = \"wasm\"\)[^\n]*\]\n.*?(?=^\[|\Z)", "", toml)
    put(os.path.join(WS, "pact_models/Cargo.toml"), toml.encode())
    mirror(os.path.join(HERE, "harness"), os.path.join(WS, "harness"), ("src",))
    props = properties()
    h = read(os.path.join(HERE, "harness/Cargo.toml")).decode()
    h = h.replace("FEATURES", "\n".join("%s = []" % p.lower() for p in props))
    put(os.path.join(WS, "harness/Cargo.toml"), h.encode())
    lib = "mod vp;\n#[allow(dead_code)] mod models;\n#[allow(dead_code)] mod parts;\n#[allow(dead_code)] mod docs;\n" + "".join('#[cfg(feature = "%s")] pub mod %s;\n' % (p.lower(), p.lower()) for p in props)
    put(os.path.join(WS, "harness/src/lib.rs"), lib.encode())
    put(os.path.join(WS, "Cargo.toml"), b'[workspace]\nmembers = ["pact_models", "harness"]\nresolver = "2"\n[profile.dev]\ndebug = 0\n[patch.crates-io]\nrand = { path = "rand" }\n')
    lock = os.path.join(WS, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(REPO, "rust/Cargo.lock"), lock)
    stub_rand()
    sh(["cargo", "build", "--offline", "--target", "wasm32-wasip1", "-p", "harness", "--features", prop.lower()],
       {"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_TARGET_DIR": os.path.join(TARGET, "wasm"), "RUSTFLAGS": "-C symbol-mangling-version=v0 -A warnings --cap-lints warn"}, WS, "building the harness module")
    out = os.path.join(TARGET, "modules", prop + ".wasm")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.copy(os.path.join(TARGET, "wasm/wasm32-wasip1/debug/harness.wasm"), out)
    return out


def harnesses(prop, tier):
    src = read(os.path.join(HERE, "harness/src/%s.rs" % prop.lower())).decode()
    names = re.findall(r"extern \"C\" fn ((?:quick|deep)_\w+)", src)
    for m in re.findall(r"harness!\s*\(?\s*((?:quick|deep)_\w+)", src):
        names.append(m)
    return [n for n in names if tier == "thorough" or n.startswith("quick_")]


def replay(module, v, seeds=(1,), limit=25):
    """The outcome of a counterexample on the native code: reproduced, description."""
    last = None
    for s in seeds:
        try:
            r = subprocess.run(["node", "--no-warnings", "--stack-size=4000", os.path.join(HERE, "tools/replay.js"), module, v["harness"], json.dumps(v["inputs"]), str(s)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            return v["kind"] == "hang", {"outcome": "hang", "message": "still running after %d s" % limit, "output": ""}
        try:
            last = json.loads(r.stdout)
        except ValueError:
            last = {"outcome": "error", "message": r.stderr[-500:], "output": ""}
        if last["outcome"] in ("check", "panic", "exit"):
            return True, last
    return False, last


def demangle(n):
    # enough of Rust's v0 and legacy mangling to read a function name
    if n.startswith("_R") or n.startswith("_ZN"):
        parts, i = [], 0
        while i < len(n):
            m = re.match(r"\d+", n[i:])
            if m and int(m.group()) < len(n):
                k = int(m.group()); j = i + len(m.group())
                if n[j:j + 1] == "_":
                    j += 1
                w = n[j:j + k]
                if re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", w) and len(w) == k:
                    parts.append(w); i = j + k; continue
            i += 1
        return "::".join(parts) or n
    return n


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        build_engine()
        return
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    t0 = time.time()
    build_engine()
    module = build_module(prop)
    built = time.time() - t0
    names = only or harnesses(prop, tier)
    if not names:
        die("no harnesses for " + prop)
    budget = float(os.environ.get("VERIF_TIME", 420 if tier == "quick" else 3000))
    cmd = [ENGINE, module, "--functions", "--time", str(budget), "--threads", str(os.cpu_count() or 4), "--z3-ms", "10000" if tier == "quick" else "120000"]
    if tier == "thorough" and os.environ.get("VERIF_XCHECK"):
        cmd.append("--xcheck")
    r = subprocess.run(cmd + names, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        print(r.stderr[-3000:])
        die("the engine failed on %s" % prop)
    res = json.loads(r.stdout)
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop]
    kids = {k["id"]: k for k in known}
    seeds = tuple(range(1, 41))
    outdir = os.path.join(HERE, "evidence", "replays")
    reported, unreproduced, seen_known, details, slow = [], [], {}, [], []
    for v in res["violations"]:
        ks = [k for k in v["known"] if k in kids]
        if ks and ks[0] in seen_known:
            continue
        ok, what = replay(module, v, seeds if v["kind"] != "hang" else (1,))
        d = {"property": prop, "harness": v["harness"], "kind": v["kind"], "message": v["message"], "inputs": v["inputs"], "count": v["count"],
             "known": v["known"], "stack": [demangle(x) for x in v["stack"][:14]], "native": what, "reproduced": ok,
             "how": "node tools/replay.js MODULE %s '%s' SEED, with MODULE built by run.py %s" % (v["harness"], json.dumps(v["inputs"]), prop)}
        if not ok:
            if v["kind"] == "hang":
                slow.append(d)
            else:
                unreproduced.append(d)
        elif ks:
            seen_known[ks[0]] = d
        else:
            reported.append(d)
        details.append(d)
    exhaustive = not res["timed_out"] and not res["incomplete"] and not slow and not res["stopped"]
    vac = [h["name"] for h in res["harnesses"] if not h["reach"]]
    # a few of the explored paths, run natively as well: the engine and V8 must agree that nothing is wrong there
    validated, disagreements = 0, []
    if not reported:
        for h in res["harnesses"]:
            for s in h["samples"][: (3 if tier == "quick" else 12)]:
                ok, what = replay(module, {"harness": h["name"], "inputs": s, "kind": "sample"}, (seed,))
                if ok or what["outcome"] in ("error", "short", "infeasible"):
                    # sampled paths that end in a known finding are violations already
                    if not any(d["harness"] == h["name"] and d["inputs"] == s for d in details):
                        disagreements.append({"harness": h["name"], "inputs": s, "native": what})
                else:
                    validated += 1
    hs = res["harnesses"]
    tot = lambda k: sum(h[k] for h in hs)
    funcs = [demangle(f) for f in res.get("pact_functions", [])]
    bounds = {}
    bf = os.path.join(HERE, "bounds.json")
    if os.path.exists(bf):
        bounds = json.load(open(bf)).get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "technique": "symbolic execution of the compiled code (wasm32-wasip1, dev profile, rustc %s) with Z3 %s over bit-vectors" % (TOOLCHAIN, res["z3"]),
            "states": tot("paths"), "transitions": tot("decisions") + tot("byte_decided"),
            "traces_validated_against_impl": validated + sum(1 for d in details if d["reproduced"]),
            "samples": [{"harness": h["name"], "inputs": h["samples"][:2]} for h in hs],
            "exhaustive": exhaustive,
            "bounds": bounds,
            "assertions_decided_by_z3": tot("assertions_z3"), "assertions_folded_to_true_by_simplification": tot("assertions_folded"),
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "solver_s": round(sum(h["solver_s"] for h in hs), 3), "slowest_query_s": max(h["slowest_query_s"] for h in hs),
            "branches_decided_on_single_byte_sets": tot("byte_decided"), "of_those_cross_checked_by_z3": tot("xchecked"), "path_conditions_confirmed_by_z3": tot("paths_confirmed"),
            "instructions": tot("instructions"),
            "incomplete": res["incomplete"], "stopped_early": res["stopped"],
            "functions_encoded": len(funcs), "functions": sorted(set(funcs)),
            "harnesses": [{k: h[k] for k in ("name", "paths", "infeasible", "decisions", "queries", "assertions_z3", "assertions_folded", "max_input_bytes", "solver_s", "cpu_s", "reach")} for h in hs],
            "build_s": round(built, 1),
            "known_findings_seen": sorted(seen_known),
            "slow_paths_that_end_natively": slow,
            "native_disagreements": disagreements,
        },
        "assumptions": [
            "inputs within the stated bounds only",
            "memcmp, memcpy, memset and core's memchr are replaced by their definitions; every key of a std HashMap gets the same hash unless a harness asks for real hashing",
            "clock, environment and randomness are WASI stubs; the heap is at most 192 MB",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d paths, %d decisions, %d solver queries (%.1f s), %s, %.0f s" % (prop, tot("paths"), tot("decisions"), tot("queries"), sum(h["solver_s"] for h in hs), "complete" if exhaustive else "INCOMPLETE " + json.dumps(res["incomplete"]), time.time() - t0))
    if "-v" in sys.argv:
        for h in hs:
            print("  %-40s paths %-8d q %-6d z3 %-8.1f cpu %-8.1f done %-7.1f vars %-3d folded %-7d z3-asserts %-6d reach %s" % (h["name"], h["paths"], h["queries"], h["solver_s"], h["cpu_s"], h["done_at"], h["max_input_bytes"], h["assertions_folded"], h["assertions_z3"], h["reach"]))
        for d in details:
            print("  ", json.dumps({k: d[k] for k in ("harness", "kind", "message", "inputs", "known", "reproduced", "native", "count")})[:900])
            print("      ", " < ".join(d["stack"][:9])[:600])
        for d in disagreements:
            print("  DISAGREE", json.dumps(d)[:600])
    for k, d in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kids[k]["what"]))
    if reported:
        os.makedirs(outdir, exist_ok=True)
        for i, d in enumerate(reported):
            p = os.path.join(outdir, "%s-%d.json" % (prop, i))
            json.dump(d, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, HERE)))
            print("  %s: %s %s; native: %s %s" % (d["harness"], d["kind"], d["message"], d["native"]["outcome"], (d["native"]["message"] + " " + d["native"].get("output", "")).strip()[:300]))
        sys.exit(1)
    if unreproduced:
        print(json.dumps(unreproduced[0], indent=1)[:3000])
        die("%d counterexamples do not reproduce on the native code" % len(unreproduced))
    if disagreements:
        print(json.dumps(disagreements[0])[:2000])
        die("the native code disagrees with the engine on an explored path")
    if vac and exhaustive:
        die("nothing reached in " + ", ".join(vac))
    sys.exit(0)


main()
