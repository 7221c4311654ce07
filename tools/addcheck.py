#!/usr/bin/env python3
"""Append a check to the table: addcheck.py ID module quick rule assumptions"""
import sys
i, mod, quick, rule, ass = sys.argv[1:6]
p = '/verif/harness/src/checks.rs'
t = open(p).read()
assert 'id: "%s"' % i not in t
k = t.rindex('];')
t = t[:k] + '''    Check {
        id: "%s",
        f: %s::%s,
        quick: %s,
        thorough: %d,
        rule: "%s",
        assumptions: "%s",
        total: false,
    },
''' % (i, mod, i.lower(), quick, int(quick) * 50, rule, ass) + t[k:]
open(p, 'w').write(t)
