"""writes /verif/MANIFEST.json from the table of claimed checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: contracts on the real functions, obligations generated from /repo's source on every run and discharged by SMT (z3, cvc5); failed obligations replayed on the real code"
CLAIMED = {}
for l in open(os.path.join(V, "tools/claims.txt")):
    l = l.strip()
    if l and not l.startswith("#"):
        pid, level, note = l.split("|", 2)
        CLAIMED[pid.strip()] = (level.strip(), note.strip())
NA = {}
for l in open(os.path.join(V, "tools/not_applicable.txt")):
    l = l.strip()
    if l and not l.startswith("#"):
        pid, why = l.split("|", 1); NA[pid.strip()] = why.strip()
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3; print(z3.get_version_string())\" && which clang-18 cvc5 cbmc >/dev/null",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p,
                 "technique": T, "level": CLAIMED[p][0], "level_note": CLAIMED[p][1]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CLAIMED],
     "notes": "See DESIGN.md. Every check regenerates its obligations from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
