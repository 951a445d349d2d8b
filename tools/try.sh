#!/bin/bash
# try.sh SPEC MAIN N STEPS [harness args]: generate and replay verbosely (development aid)
spec=$1; main=$2; n=$3; k=$4; shift 4
d=$(mktemp -d); cd /verif
for i in 1 2 3 4; do quint run --main $main --step ${STEP:-step} --max-samples $n --n-traces $n --max-steps $k --seed $((RANDOM+i)) --invariant safety --verbosity 1 --out-itf $d/p${i}_{seq}.itf.json spec/$spec.qnt 2>&1 | tail -3 & done; wait
target/release/${BIN:-conform-crypto} --spec ${DOM:-$spec} --property TRY -v --report $d/r.json --replays /tmp "$@" $d | cut -c1-600
head -c ${SHOW:-1500} $d/r.json; rm -rf "$d"
