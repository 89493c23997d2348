"""writes MANIFEST.json"""
import json
import sys
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools/claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                           technique="contract-based deductive verification of the crate's MIR (kvc: symbolic execution per function, "
                           "loop invariants, SMT), failed obligations replayed on the real crate",
                           level="proof", level_note=CLAIMS[p]))
    else:
        na.append(dict(property=p, reason=NOT[p]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the verifier reads the compiler's MIR of the current tree, the replay harness uses the public API."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
