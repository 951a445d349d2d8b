"""Helper to write a planted bug under /verif/seeded (see tools/seed.sh)."""
import json, os, subprocess
DEMO = '''#!/bin/bash
# Runs demo.rs as an extra unit-test module of a scratch copy of the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
tar -C "$PWD" --exclude=./target --exclude=./.git -cf - . | tar -C "$T" -xf - || exit 2
cp "$HERE/demo.rs" "$T/%(crate)s/src/zz_demo.rs"
printf '\\n#[cfg(all(test, feature = "std"))]\\nmod zz_demo;\\n' >> "$T/%(crate)s/src/lib.rs"
cd "$T" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2024-09-05 CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0
export CARGO_PROFILE_TEST_DEBUG=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_NET_OFFLINE=true
timeout 270 cargo test -p %(pkg)s --lib --features std --offline -- zz_demo > "$T/log" 2>&1
rc=$?
tail -n 25 "$T/log"
grep -q 'test result: ok. [1-9]' "$T/log" || rc=1
exit $rc
'''
def seed(id, prop, edits, needs, breaks, demo, crypto=False):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout
    try:
        for file, old, new in edits:
            p = "/repo/" + file
            s = open(p).read()
            assert s.count(old) == 1, (id, file, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    k = dict(crate="lib/crypto", pkg="openzeppelin-crypto") if crypto else dict(crate="contracts", pkg="openzeppelin-stylus")
    open(d + "/demo.sh", "w").write(DEMO % k)
    open(d + "/demo.rs", "w").write(demo)
