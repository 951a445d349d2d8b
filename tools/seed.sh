#!/bin/bash
# Confirms a planted bug: builds and passes the tests, its demonstration fails
# with it and passes without it, and reports what the checks say.
# usage: tools/seed.sh ID [check ids...]
set -u
ID=$1; shift
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
[ -n "${SKIP_CLEAN:-}" ] || { bash $D/demo.sh >/tmp/demo.$ID.0 2>&1 && echo "$ID demo clean: ok" || { echo "$ID demo clean: FAILS"; tail -5 /tmp/demo.$ID.0; }; }
git apply $D/patch.diff || exit 2
if [ -z "${SKIP_TEST:-}" ]; then
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$ID build FAILS"; tail -20 /tmp/seed.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=json.load(open('/tmp/seed.json'))
m=b-set(d['passed']); print("$ID tests:", "ok" if not m else "MISSING %s"%sorted(m)[:4])
P
bash $D/demo.sh >/tmp/demo.$ID.1 2>&1 && echo "$ID demo patched: PASSES (bad)" || echo "$ID demo patched: fails as it should"
fi
cd /verif
for c in $P "$@"; do
  timeout 900 python3 check.py $c quick >/tmp/seed.chk 2>&1; echo "$ID $c: rc=$? $(grep -E '^(VIOLATION|step)' /tmp/seed.chk | cut -c1-220 | tr '\n' ' ')"
done
