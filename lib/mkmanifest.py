"""Regenerates MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Symbolic execution of the LLVM IR of the real headers (regenerated from /repo on every run), Z3 deciding every branch and assertion: "
        "the property is decided for every input within the bounds stated in the evidence file (input length, pattern corpus or family of patterns with "
        "symbolic characters) and says nothing beyond them. Trusted: clang's lowering, the executor engine/xsym.cpp (counterexamples are replayed "
        "natively before they count, and inputs of passing paths are replayed as a cross-check), Z3, and the reference semantics harness/ref.hpp.")
SPECIAL = {
    "C22": "bounded symbolic execution of the real parser tables over patterns with symbolic characters, against a reference grammar (LLVM IR + Z3)",
    "C25": "constant-evaluated results as tables, compared by Z3 with bounded symbolic execution of the same code's LLVM IR",
    "C26": "bounded symbolic execution with symbolic schedules of operations (LLVM IR + Z3)",
    "C27": "compile verdicts of families of uses as tables, compared by Z3 with the symbolically executed reference parser",
    "C13": "bounded symbolic execution with bounds-checking iterators and byte-exact object bounds (LLVM IR + Z3)",
    "C12": "bounded symbolic execution with step and depth limits as the termination assertion (LLVM IR + Z3)",
    "C18": "bounded symbolic execution of the lazy ranges against the generators (LLVM IR + Z3)",
    "C20": "bounded symbolic equivalence of two instantiations of the real matcher (LLVM IR + Z3)",
    "C21": "bounded symbolic equivalence of expression-built and string-built regexes (LLVM IR + Z3)",
}
m = {"version": 1, "setup_cmd": "bash engine/build.sh build",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": SPECIAL.get(p["id"], "bounded symbolic execution of the real matcher's LLVM IR against a reference matcher, decided by Z3"),
                 "level": "model_checking", "level_note": NOTE} for p in props],
     "not_applicable": [],
     "notes": "No hooks: the checks include /repo/include unmodified. known-findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
