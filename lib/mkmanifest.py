"""Writes MANIFEST.json from the rules that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import rules
NA = {
    "C30": "quantifies over an adversary and the strength of Ed25519/ECDSA/RSA; no static argument over this source can bound that. The structural part (only the issuer's key, over exactly the signed bytes, decides) is claimed as C01, C17 and C18.",
    "C31": "recursion depth and time are set by the caller's store at run time; the code has no bound on chain depth, and diamond-shaped proof graphs are walked once per path. No static bound exists; that the recursion only follows citations (so it ends on acyclic stores) is claimed as C35.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    if i not in rules.RULES:
        NA[i] = "check not built yet"
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --both" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": rules.TECH.get(i, rules.TECH["*"]),
        "level": "other",
        "level_note": rules.NOTE.get(i, rules.NOTE["*"]),
    })
m = {"version": 1, "setup_cmd": "python3 lib/extract.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] in NA],
     "notes": "Static analysis only: every check re-extracts the MIR of /repo's working tree with a rustc_private driver and decides the property by abstract interpretation. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(m["not_applicable"]), "not applicable")
