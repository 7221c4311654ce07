#!/usr/bin/env python3
"""mkbug.py <spec.py>: writes /verif/seeded/<id>/ from a spec that defines
id, property, needs, breaks, edits = [(file, old, new)], demo (rust main body)."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
def one(b):
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkbug')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        for f, old, new in b['edits']:
            p = w + '/r/' + f
            t = open(p).read()
            assert t.count(old) == 1, (b['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        os.rmdir(w)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
    shutil.copy('/repo/Cargo.lock', d + '/Cargo.lock')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/scratch"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kicad_parse_gen = { path = "$repo" }
T
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet --manifest-path "$d/Cargo.toml" || exit 0
cd "$d/scratch" && REPO="$repo" "$d/target/debug/demo"
''')
for b in spec['bugs']:
    one(b)
    print(b['id'])
