#!/bin/bash
# all.sh [seed...]: every check on the present tree, quick tier, one after another
cd "$(dirname "$0")/.." || exit 2
./run.sh --build || exit 2
for seed in "${@:-1}"; do
    for i in $(seq -w 1 99); do
        target/release/harness list | grep -q "^C$i" || break
        out=$(VERIF_SEED=$seed ./run.sh "C$i" quick 2>&1)
        code=$?
        echo "seed $seed exit $code: $(printf '%s\n' "$out" | tail -1)"
        [ $code = 0 ] || printf '%s\n' "$out" | head -5
    done
done
