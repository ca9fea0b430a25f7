"""Writes MANIFEST.json. Run: python3 tools/mkmanifest.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "N01": "liveness under a fair scheduler is a whole-history property: per-function contracts and lock invariants express safety only (the wake-up obligations of T04/L05 cover the part contracts can state)",
    "N02": "the behaviour is that of the C++ standard library's stream formatting and parsing; no contract within reach describes floating-point text conversion, and assuming one would assume the property",
    "N03": "floating-point results of std::pow/std::round: the verifier treats machine floating point as uninterpreted, so no obligation would decide it",
    "N04": "the layout depends on stream manipulators, std::put_time and the local time zone, for which only an assumed contract that restates the layout could be written",
}
PENDING = "no check has been built for it yet"
from importlib import import_module
cl = json.load(open(os.path.join(V, "tools", "claims.json")))
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in cl:
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt -m vp.run %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt -m vp.run %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": cl[i].get("technique", "contract-based deductive verification: verification conditions generated from Clang's AST of /repo's source on every run, loop invariants checked inductively, discharged by z3/cvc5; bounded native replay for failing inputs"),
            "level": cl[i].get("level", "proof"),
            "level_note": cl[i]["note"],
        })
    else:
        na.append({"property": i, "reason": PENDING})
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt -m vp.setup",
    "checks": checks, "not_applicable": na,
    "notes": "No hooks are needed in /repo. Every check reads /repo's headers on each run (Clang AST for the proof, g++ for the native replay pass).",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
