#!/usr/bin/env python3
"""run.py <scale> <result file> [id...]: for every change, which of the project's tests or which check notices it first."""
import os, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
R = '/tmp/mut'
scale, res = sys.argv[1], sys.argv[2]
L = [l.rstrip('\n').split('\t') for l in open(R + '/list')]
ids = set(sys.argv[3:])
if ids: L = [l for l in L if l[0] in ids]
done = {}
if os.path.exists(res):
    for l in open(res): done[l.split('\t')[0]] = 1
tests = [t for t in open(R + '/tests').read().split() if t]
allc = ['C%02d' % i for i in range(1, 34) if i != 32]
pref = {'lib.rs': 'C13 C14 C16 C28 C06 C08 C11', 'checkfix.rs': 'C25 C26 C27', 'formatter.rs': 'C10 C02 C04', 'fp_lib_table.rs': 'C05 C31 C11', 'project.rs': 'C13',
        'schematic.rs': 'C06 C07 C22 C23 C24 C16 C11', 'symbol_lib.rs': 'C08 C09 C26 C33 C11', 'util.rs': 'C14', 'footprint/data.rs': 'C01 C02 C16 C17 C18 C21 C25 C27 C30',
        'footprint/de.rs': 'C01 C12', 'footprint/ser.rs': 'C02 C10', 'layout/data.rs': 'C03 C04 C15 C16 C19 C20 C29', 'layout/de.rs': 'C03 C12', 'layout/ser.rs': 'C04 C10'}
def one(env, *a, t=300, cwd=None):
    try: return subprocess.run(a, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t, cwd=cwd).returncode
    except subprocess.TimeoutExpired: return 'timeout'
base = dict(os.environ, MUT='0')
ok = [t for t in tests if one(base, t, cwd=R + '/repo') == 0]
print(len(ok), 'of', len(tests), 'test programs pass', flush=True)
def job(l):
    if l[0] in done: return
    env = dict(os.environ, MUT=l[0], VERIF_SCALE=scale, RUST_BACKTRACE='0')
    r = None
    for t in ok:
        if one(env, t, t=60, cwd=R + '/repo') != 0: r = 'tests'; break
    if r is None:
        f = l[1].split(':')[0]
        p = pref.get(f, '').split()
        odd = []
        for c in p + [c for c in allc if c not in p]:
            x = one(env, R + '/target/release/harness', 'run', c)
            if x == 1: r = c; break
            if x != 0: odd.append('%s=%s' % (c, x))
        if r is None: r = 'ALIVE' + (' ' + ','.join(odd) if odd else '')
    with open(res, 'a') as fo: fo.write('\t'.join([l[0], r] + l[1:]) + '\n')
with ThreadPoolExecutor(8) as ex: list(ex.map(job, L))
