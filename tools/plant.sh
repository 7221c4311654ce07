#!/bin/bash
# plant.sh <bug id>...: confirms planted bugs in scratch copies of /repo
# (applies, builds, tests pass, demonstration fails with it and passes without),
# then runs each one's check against /repo with the change applied and undone again.
# CONFIRM=0 leaves the first step out, CHECK=0 the second.
confirm() {
    id=$1
    dir=/verif/seeded/$id
    s=/tmp/plant-$id
    mkdir -p "$s"
    cp -a /repo "$s/repo"
    cd "$s/repo" || exit 2
    export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$s/repo/target
    ok=1
    git apply "$dir/patch.diff" || ok=0
    cargo test --offline >"$s/log" 2>&1 || { ok=0; grep -A3 -e panicked -e '^error' "$s/log" | head -20; }
    n=$(grep -c '^test .* ok$' "$s/log")
    [ "$n" = 14 ] || { echo "$id: tests $n"; ok=0; }
    if bash "$dir/demo.sh" >"$s/demo" 2>&1; then echo "$id: demo passes with the change"; head -5 "$s/demo"; ok=0; fi
    git checkout -q -- .
    if ! bash "$dir/demo.sh" >"$s/demo" 2>&1; then echo "$id: demo fails without the change"; tail -5 "$s/demo"; ok=0; fi
    grep -q 'could not compile' "$s/demo" && { echo "$id: demo does not build"; head -20 "$s/demo"; ok=0; }
    cd /verif
    rm -rf "/tmp/plant-$id"
    [ $ok = 1 ] && echo "$id: confirmed" || echo "$id: NOT CONFIRMED"
}
export -f confirm
if [ "${CONFIRM:-1}" = 1 ]; then
    printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'confirm {}'
fi
[ "${CHECK:-1}" = 1 ] || exit 0
cd /verif
for id in "$@"; do
    dir=/verif/seeded/$id
    prop=${PROP:-$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")}
    git -C /repo apply "$dir/patch.diff" || exit 2
    ./run.sh "$prop" quick >/tmp/plant-out 2>&1
    r=$?
    git -C /repo checkout -q -- .
    [ $r = 1 ] || head -c ${PLANT_OUT:-500} /tmp/plant-out
    echo "$id: check $prop exit $r"
done
