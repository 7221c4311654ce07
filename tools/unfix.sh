#!/bin/bash
# unfix.sh [commit...]: takes each repair of known-findings.txt back in /repo's working tree,
# runs the check of its property, which must report it, and restores the tree.
cd "$(dirname "$0")/.." || exit 2
R=/repo
[ -z "$(git -C $R status --porcelain)" ] || exit 2
grep '^fixed:' known-findings.txt | while read -r _ prop commit what; do
    prop=${prop#property=}
    [ $# = 0 ] || printf '%s\n' "$@" | grep -q "^$commit" || continue
    if git -C $R revert --no-commit "$commit" >/dev/null 2>&1; then
        git -C $R reset -q
        VERIF_SEED=${VERIF_SEED:-1} ./run.sh "$prop" quick >/tmp/unfix-out 2>&1 </dev/null
        echo "$commit $prop exit $? $(grep -c ^VIOLATION /tmp/unfix-out)"
    else
        echo "$commit $prop does not revert by itself"
    fi
    git -C $R revert --quit 2>/dev/null
    git -C $R reset -q
    git -C $R checkout -q -- .
done
rm -f /tmp/unfix-out
