#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks the harness lists and the techniques below."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(root + '/properties.jsonl')]
TECH = {
    'C01': 'property-based testing: generated documents against a reference model',
    'C02': 'property-based testing: write compared with a reference tree, re-read and write-again relations',
    'C03': 'property-based testing: generated documents against a reference model',
    'C04': 'property-based testing: write compared with a reference tree, re-read and write-again relations',
    'C05': 'property-based testing: read, write and re-read against a reference model',
    'C06': 'property-based testing: generated documents against a reference model',
    'C07': 'property-based testing: byte comparison with a reference writer, re-read and write-again relations',
    'C08': 'property-based testing: generated documents against a reference model',
    'C09': 'property-based testing: byte comparison with a reference writer, re-read and write-again relations',
    'C10': 'property-based testing: differential against an independent reference printer',
    'C11': 'structure-aware and byte-level fuzzing with a crash, hang and memory oracle',
    'C12': 'property-based testing: foreign items injected into generated documents, reject-or-retain oracle',
    'C13': 'property-based testing: generated files of every kind against the expected identification',
    'C14': 'property-based testing with injected I/O faults',
    'C15': 'property-based testing: moved values against a reference model',
    'C16': 'property-based testing: bounding boxes against a reference geometry',
    'C17': 'property-based testing: flipped footprints against a reference model, involution',
    'C18': 'property-based testing: rotated footprints against a reference model',
    'C19': 'property-based testing: renamed nets against a reference model',
    'C20': 'stateful model-based testing of query and edit histories',
    'C21': 'stateful model-based testing of query and edit histories',
    'C22': 'stateful model-based testing of query and edit histories',
    'C23': 'stateful model-based testing of field edit histories',
    'C24': 'property-based testing: generated sheet trees on disk against a reference traversal, missing-file faults',
    'C25': 'property-based testing: rule findings against an independent rule oracle',
    'C26': 'property-based testing: rule findings against an independent rule oracle',
    'C27': 'property-based testing: check-fix-check relation and frame condition',
    'C28': 'property-based testing: ordering against a reference order',
    'C29': 'property-based testing: net-name helpers against a reference model',
    'C30': 'property-based testing: comparison relation under generated single-field changes',
    'C31': 'property-based testing: expansion against a reference expander',
    'C32': 'property-based testing of the built command line tools against the library model',
    'C34': 'property-based testing: single faults injected into generated documents, rejection oracle',
    'C35': 'property-based testing: single faults injected into generated documents, rejection oracle',
    'C36': 'property-based testing: library-made values written, read back and compared with a reference model',
    'C37': 'property-based testing: disturbed documents, rewrite fixed-point relation',
    'C38': 'property-based testing with generated faults: the error kind and message of every failure against the injected cause',
    'C33': 'property-based testing: symbol queries and renames against a reference model',
}
LEVEL = {'C14': 'fault_enumeration'}
out = subprocess.run([root + '/target/release/harness', 'list'], capture_output=True, text=True, check=True).stdout
have = {x.split('\t')[0]: x.split('\t') for x in out.splitlines()}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': './run.sh %s quick' % i,
            'thorough_cmd': './run.sh %s thorough' % i,
            'technique': TECH[i],
            'level': LEVEL.get(i, 'exploration'),
            'level_note': 'Holds on every generated case; seeded by VERIF_SEED. Assumes: %s.' % have[i][1],
        })
    else:
        na.append({'property': i, 'reason': 'no check committed yet'})
m = {'version': 1, 'setup_cmd': './run.sh --build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check goes through the public interface. Repairs are the fix: commits of /repo, listed in known-findings.txt.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
