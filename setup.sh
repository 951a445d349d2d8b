#!/bin/bash
# Builds the replay harnesses (the checks rebuild them against /repo anyway).
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys; sys.path.insert(0, ".")
import check, checks
for c in sorted({r["crate"] for x in checks.CHECKS.values() for r in x["runs"]} | {"crypto-wasm"}):
    check.build(c)
P
