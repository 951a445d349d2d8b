#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = getattr(checks, "NOT_APPLICABLE", {})
out = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
if getattr(checks, "HOOKS", None):
    out["hooks"] = checks.HOOKS
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        specs = ", ".join(sorted({r["spec"] for r in c["runs"]}))
        out["checks"].append(dict(
            property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=f"Quint specification ({specs}), TLC on its small instance, model traces replayed into the code",
            level="model_checking",
            level_note=("The specification's invariants are checked exhaustively on a small instance (TLC) and on every "
                        "generated full-width state; the code is bound to it by replaying generated behaviours and "
                        "comparing outcome, results, revert data, logs and projected state after every step. "
                        "Trusted: the host emulator and the replayer. " + c["note"]).strip()))
    else:
        out["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")
