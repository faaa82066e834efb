#!/usr/bin/env python3
"""Plants bugs: python3 tools/plant.py make SPEC.py   writes seeded/<id>/ from a spec
              python3 tools/plant.py try ID...       judges them in private copies of /repo
Every run has its own mount namespace in which copies stand for /repo, /opt/vp and /verif."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
HEAD = '''# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function
import os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
try:
    import numpy
except ImportError:     # Jython; only bassmine needs it
    import types
    sys.modules['numpy'] = types.ModuleType('numpy')
scratch = tempfile.mkdtemp()
os.chdir(scratch)
os.mkdir('output')


def main():
%s


try:
    main()
except AssertionError as e:
    print('FAIL', e)
    raise
finally:
    os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)
print('ok')
'''


def make(path):
    specs = []

    def bug(id, prop, file, edits, needs, breaks, demo, jython=False):
        specs.append((id, prop, file, edits, needs, breaks, demo, jython))
    exec(compile(open(path).read(), path, 'exec'), {'bug': bug})
    for id, prop, file, edits, needs, breaks, demo, jython in specs:
        d = tempfile.mkdtemp(prefix='plant-')
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        by = {}
        for e in edits:
            f, old, new = e if len(e) == 3 else (file,) + tuple(e)
            by.setdefault(f, []).append((old, new))
        bad = None
        for f, es in by.items():
            p = os.path.join(d, 'repo', f)
            s = open(p).read()
            blame = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', f], capture_output=True, text=True).stdout.split('\n')
            for old, new in es:
                if s.count(old) != 1:
                    bad = '%s: %d times %r' % (f, s.count(old), old)
                    break
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.run(['git', '-C', d + '/repo', 'diff'], capture_output=True, text=True).stdout
        # removed lines must be original ones
        if not bad:
            own = original = 0
            f = None
            for line in diff.split('\n'):
                if line.startswith('--- a/'):
                    f = line[6:]
                    blame = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', f], capture_output=True, text=True).stdout.split('\n')
                elif line.startswith('@@'):
                    n = int(re.match(r'@@ -(\d+)', line).group(1))
                elif line.startswith('-'):
                    h = blame[n - 1]
                    if BASE[:30] in h.split(' ')[0]:
                        original += 1
                    else:
                        own += 1
                    n += 1
                elif line.startswith(' '):
                    n += 1
            if own or not original:
                bad = 'removes %d own and %d original lines' % (own, original)
        shutil.rmtree(d)
        if bad:
            print(id, 'BAD', bad)
            continue
        o = os.path.join(SEEDED, id)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        body = '\n'.join(('    ' + li) if li else '' for li in demo.strip('\n').split('\n'))
        open(os.path.join(o, 'demo.py'), 'w').write(HEAD % body)
        run = 'jython -B' if jython else '/opt/venv/bin/python -B'
        open(os.path.join(o, 'demo.sh'), 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg\nexec %s "$(dirname "$0")/demo.py"\n' % run)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        print(id, 'made')


SCRIPT = r'''
cd /tmp
mount --bind $D/repo /repo && mount --bind $D/vp /opt/vp && mount --bind $D/verif /verif || exit 9
cd /repo
bash $D/bug/demo.sh > $D/demo0.log 2>&1; echo "demo_clean $?"
git apply $D/patch.diff || { echo "apply 1"; exit 0; }
bash /opt/vp/build.sh > $D/build.log 2>&1; echo "build $?"
timeout 290 bash $D/bug/demo.sh > $D/demo1.log 2>&1; echo "demo_bug $?"
cd /verif
for c in $CHECKS; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 harness/check.py $c > $D/check-$c.log 2>&1; echo "check_$c $?"; done
if [ -n "$TESTS" ]; then
bash /opt/vp/test.sh $D/out.json > $D/test.log 2>&1
fi
'''


def attempt(id, tests=True, checks=None):
    d = tempfile.mkdtemp(prefix='plant-')
    try:
        for a, b in (('/repo', 'repo'), ('/opt/vp', 'vp'), (VERIF, 'verif')):
            subprocess.run(['cp', '-a', a, os.path.join(d, b)], check=True)
        src = os.path.join(SEEDED, id)
        os.mkdir(d + '/bug')
        for f in os.listdir(src):
            if not f.endswith('.diff') and f != 'meta.json':
                shutil.copy(os.path.join(src, f), d + '/bug')
        shutil.copy(src + '/patch.diff', d + '/patch.diff')
        prop = json.load(open(src + '/meta.json'))['property']
        env = dict(os.environ, D=d, CHECKS=' '.join(checks or [prop]), TESTS='1' if tests else '')
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', SCRIPT], env=env, capture_output=True, text=True)
        res = dict(li.split() for li in r.stdout.strip().split('\n') if len(li.split()) == 2)
        log = ''
        for c in checks or [prop]:
            p = '%s/check-%s.log' % (d, c)
            if os.path.exists(p):
                log += ' | '.join(open(p, errors='replace').read().split('\n')[:1])[:260]
        if tests:
            try:
                passed = set(json.load(open(d + '/out.json'))['passed'])
                res['tests'] = '0' if set(json.load(open('/opt/vp/BASELINE.json'))['stable']) <= passed else '1'
            except (OSError, ValueError):
                res['tests'] = 'error'
        ok = res.get('demo_clean') == '0' and res.get('build') == '0' and res.get('demo_bug') not in ('0', '124', None) and (
            not tests or res['tests'] == '0')
        caught = [c for c in (checks or [prop]) if res.get('check_' + c) == '1']
        msg = '%-10s %s %s %s' % (id, 'valid' if ok else 'INVALID %s' % res, 'caught by ' + ','.join(caught) if caught else 'MISSED %s' % res, log)
        if not ok:
            msg += '\n' + ''.join(open(d + '/' + f, errors='replace').read()[-700:] for f in ('demo0.log', 'demo1.log', 'build.log') if os.path.exists(d + '/' + f))
        return msg + (r.stderr[-300:] if r.stderr else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == 'make':
        return make(sys.argv[2])
    args = sys.argv[2:]
    tests = '--notests' not in args
    checks = None
    for a in args:
        if a.startswith('--checks='):
            checks = a[9:].split(',')
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(SEEDED))
    ids = [i for a in ids for i in (sorted(x for x in os.listdir(SEEDED) if x.startswith(a)) if a not in os.listdir(SEEDED) else [a])]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for msg in ex.map(lambda i: attempt(i, tests, checks), ids):
            print(msg, flush=True)


main()
