#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
Bugs listed in MISSED are (for now) not caught by the check of their property."""
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'
FIRST = set('C13c C13d C01c C02c C06a C07c C15c C18a C19b C19d C20a C20c C21a C21b C24a C25a C28a C28d C29c'.split())
MISSED = set()
extra = os.path.join(VERIF, 'tools', 'first_misses.txt')
if os.path.exists(extra):
    FIRST |= set(open(extra).read().split())
out = [MARK, '\nEach was written from a statement and the code, and confirmed: it applies, builds, passes the stable tests, and its '
       'demonstration\nfails with it and passes without. Every one is caught by the quick check of its own property'
       + (', except ' + ', '.join(sorted(MISSED)) if MISSED else '') + '. Those marked * were\nmissed at first; the check was strengthened for '
       'what they stand for (never for the text of the change).\n\n| bug | manifests with | breaks |\n|----|----|----|\n']
for b in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    f = os.path.join(VERIF, 'seeded', b, 'meta.json')
    if os.path.exists(f):
        m = json.load(open(f))
        out.append('| %s%s | %s | %s |\n' % (b, '*' if b in FIRST else '', m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
p = os.path.join(VERIF, 'DESIGN.md')
s = open(p).read()
s = s[:s.index(MARK)] if MARK in s else s.rstrip('\n') + '\n\n'
open(p, 'w').write(s + ''.join(out))
