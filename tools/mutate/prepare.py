#!/usr/bin/env python3
"""Builds, under /tmp/mut, the library with every change in it, its tests and the harness."""
import json, os, re, shutil, subprocess, sys
R = '/tmp/mut'
def sh(*a, **k): return subprocess.run(a, **k)
shutil.rmtree(R, ignore_errors=True)
os.makedirs(R + '/out/evidence'); os.makedirs(R + '/out/replays')
sh('cp', '-a', '/repo', R + '/repo'); shutil.rmtree(R + '/repo/target', ignore_errors=True)
sh('cp', '-a', '/verif/harness', R + '/harness')
sh('cp', '/verif/known-findings.txt', R + '/out/')
shutil.rmtree(R + '/harness/target', ignore_errors=True)
def sub(p, *rs):
    s = open(p).read()
    for a, b in rs:
        assert a in s, (p, a)
        s = s.replace(a, b)
    open(p, 'w').write(s)
sub(R + '/harness/Cargo.toml', ('"/repo"', '"%s/repo"' % R))
sub(R + '/harness/src/main.rs', ('"/verif"', '"%s/out"' % R), ('workers: 8', 'workers: 1'))
excl = R + '/exclude'
skip = set()
if os.path.exists('/verif/tools/mutate/exclude'): skip = set(open('/verif/tools/mutate/exclude').read().split())
env = dict(os.environ, RUSTFLAGS='--cap-lints allow', CARGO_TARGET_DIR=R + '/target')
for rnd in range(60):
    open(excl, 'w').write(' '.join(sorted(skip, key=int)))
    sh('/verif/target/mutate/release/mutate', '/repo/src', R + '/repo/src', excl, R + '/list', check=True)
    p = sh('cargo', 'build', '--release', '--offline', '--lib', '--message-format=json', '--manifest-path', R + '/harness/Cargo.toml', '-p', 'kicad_parse_gen', env=env, capture_output=True, text=True)
    new = set(); n = 0
    for l in p.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
        sp = [s for s in m['message']['spans'] if 'requires' in (s['label'] or '')] or [s for s in m['message']['spans'] if s['is_primary']]
        for s in sp:
            while s.get('expansion') and '/repo/src' not in s['file_name']: s = s['expansion']['span']
            f = s['file_name']
            if not os.path.isabs(f): f = R + '/repo/' + f
            if not os.path.exists(f): continue
            b = open(f, 'rb').read()[:s['byte_start'] + 3].decode('utf8', 'ignore')
            n += 1
            ids = re.findall(r':: __mu \((\d+)u32\)', b)
            if not ids: print('nowhere', m['message']['message'], f, s['byte_start']); continue
            i = ids[-1]
            if i in skip: print('again', i)
            new.add(i)
    print('round', rnd, 'errors', n, 'new', len(new), 'rc', p.returncode, flush=True)
    if p.returncode == 0: break
    if not new - skip:
        print(p.stderr[-3000:]); sys.exit(1)
    skip |= new
open('/tmp/mut/exclude.final', 'w').write(' '.join(sorted(skip, key=int)))
p = sh('cargo', 'build', '--release', '--offline', '--manifest-path', R + '/harness/Cargo.toml', env=env); assert p.returncode == 0
p = sh('cargo', 'test', '--no-run', '--offline', '--manifest-path', R + '/repo/Cargo.toml', '--message-format=json', env=dict(env, CARGO_TARGET_DIR=R + '/target-test'), capture_output=True, text=True)
exes = []
for l in p.stdout.splitlines():
    m = json.loads(l)
    if m.get('reason') == 'compiler-artifact' and m.get('executable') and m['profile']['test']: exes.append(m['executable'])
open(R + '/tests', 'w').write('\n'.join(exes))
print(len(exes), 'test programs')
