"""MANIFEST.json from the contracts that exist: python3-vt tools/write_manifest.py"""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "level_notes.py")).read(), NOTES)

have = set()
for f in glob.glob(os.path.join(ROOT, "contracts", "c*.py")):
    for m in re.finditer(r'@contract\(([^)\n]*)', open(f).read()):
        have |= set(re.findall(r'"(C\d\d)"', m.group(1)))
have = {p for p in have if os.path.exists(os.path.join(ROOT, "contracts", p.lower() + ".py"))}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in have:
        checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} --thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": "contract-based deductive verification: weakest-precondition style symbolic evaluation of the repository's own AST against pre/postconditions, obligations discharged by an algebraic normaliser and z3; failing obligations replayed on the real code",
                       "level": "proof", "level_note": NOTES["NOTES"].get(p, NOTES["DEFAULT"])})
    else:
        na.append({"property": p, "reason": NOTES["NA"].get(p, "no contract for this property yet")})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Contracts in contracts/, verifier in pyvc/; see DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])
