#!/usr/bin/env python3
# Writes MANIFEST.json: one check per harness module, the rest not applicable.
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(H + "/harness/src/c[0-9][0-9].rs"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOBUILD = {
 "C26": "the matching engine (rust/pact_matching) is not part of what can be compiled here: its dependencies (onig and others) are not in the offline cache, so there is no intermediate representation to execute symbolically, and no behaviour to replay a counterexample against",
 "C27": "rust/pact_verifier needs reqwest and other crates that are absent offline; it cannot be compiled to any representation the solver could execute",
 "C28": "rust/pact_ffi depends on crates absent offline (it does not compile here), and its handles need the whole of pact_matching and pact_mock_server",
 "C29": "rust/pact_mock_server needs hyper, rustls and other crates absent offline; it does not compile here",
 "C30": "the file locking is compiled only for non-wasm targets and depends on fs2, which is absent offline: the only buildable configuration does not contain the code",
}
NOTE = ("Symbolic execution of the WebAssembly rustc emits for the current pact_models sources (dev profile with overflow checks): every branch, assertion and panic is decided by Z3 "
        "(or by exact evaluation over the finite domain of a single input byte) for all inputs within the bounds in bounds.json and DESIGN.md; counterexamples are replayed natively in node before they are reported. "
        "Trusts rustc's wasm back end, the engine's instruction semantics (sampled paths are re-run natively on each run), Z3, and the WASI stubs; says nothing outside the bounds.")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "Each check builds the engine and a harness module from /repo's working tree itself; setup_cmd only builds the engine ahead of time. No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in built:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": "symbolic execution of the compiled code with an SMT solver (Z3, bit-vectors)", "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NOBUILD.get(i, "no check built yet for this property")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
