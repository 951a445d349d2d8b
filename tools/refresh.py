#!/usr/bin/env python3
"""Re-exports every TLA+ module whose Quint text changed."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
import checks, export_tla
bad = set()
for c in checks.CHECKS.values():
    for t in c["tlc"] + c["tlc_thorough"]:
        p = f"{ROOT}/spec/tla/{t[0]}_{t[1]}.tla"
        if not os.path.exists(p) or export_tla.spec_hash(t[0]) not in open(p).readline():
            bad.add(":".join(t))
if bad:
    sys.exit(subprocess.run([sys.executable, "tools/export_tla.py"] + sorted(bad), cwd=ROOT).returncode)
