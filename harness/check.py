# -*- coding: utf-8 -*-
"""check.py PROP [--replay FILE]: decides one property on /repo's working tree.

Runs the property's workload in several processes, under CPython and Jython,
with the monitors on; merges what they observed into evidence/PROP.json.
Exit 0: held on everything observed.  1: violated.  2: nothing can be said."""
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'props'))
sys.dont_write_bytecode = True

PYTHON = '/opt/venv/bin/python'
JYTHON = ['jython', '-B']
QUIET_SECONDS = 60      # no new case for so long: look closer
TOTAL_SECONDS = 780


def spawn(interp, prop, seed, tier, start, stride, count, outdir, name, steps=False):
    wd = os.path.join(outdir, name)
    os.makedirs(os.path.join(wd, 'output'))
    out = os.path.join(outdir, name + '.json')
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               CASE_SECONDS='400' if tier == 'quick' else '560',
               JAVA_TOOL_OPTIONS='-Xmx1200m -Xss8m -XX:+UseSerialGC', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    cmd = ([PYTHON, '-B'] if interp == 'cpython' else JYTHON) + [
        os.path.join(HERE, 'worker.py'), prop, str(seed), tier, str(start), str(stride), str(count), out]
    if steps:
        cmd.append('steps')
    err = open(os.path.join(outdir, name + '.err'), 'wb')
    p = subprocess.Popen(cmd, cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                         start_new_session=True)
    return {'proc': p, 'out': out, 'name': name, 'interp': interp, 'idx': None, 'since': time.time(),
            'args': (prop, seed, tier, start, stride, count), 'err': err.name, 'cpu': 0.0}


def kill(w):
    try:
        os.killpg(w['proc'].pid, signal.SIGKILL)
    except OSError:
        pass
    w['proc'].wait()


def cpu_seconds(pid):
    """Processor time used: a stopped clock is not a hang."""
    try:
        with open('/proc/%d/stat' % pid) as f:
            fields = f.read().rsplit(')', 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


def current_idx(w):
    try:
        with open(w['out'] + '.progress') as f:
            return int(f.read().strip() or -1)
    except (OSError, ValueError):
        return None


def run_all(workers, quiet, deadline):
    """Waits for the workers; returns those that made no progress."""
    stuck = []
    waiting = list(workers)
    while waiting:
        time.sleep(0.05)
        for w in list(waiting):
            if w['proc'].poll() is not None:
                waiting.remove(w)
                continue
            idx = current_idx(w)
            now = time.time()
            if idx != w['idx']:
                w['idx'], w['since'], w['cpu'] = idx, now, cpu_seconds(w['proc'].pid)
            elif now - w['since'] > quiet and cpu_seconds(w['proc'].pid) - w['cpu'] > quiet * 0.5 or now > deadline:
                kill(w)
                w['killed'] = True
                stuck.append(w)
                waiting.remove(w)
    return stuck


def load_result(w):
    try:
        with open(w['out']) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2].strip())
    return out


def write_replay(prop, seed, tier, v):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s-%s.json' % (prop, seed, v['idx'], v['interpreter']))
    with open(path, 'w') as f:
        json.dump(dict(v, property=prop, seed=seed, tier=tier,
                       rerun='python3 %s %s --replay %s' % (os.path.join(HERE, 'check.py'), prop, path)), f, indent=1)
    return path


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import plan
    spec = plan.PLAN[prop]
    t0 = time.time()
    base = tempfile.mkdtemp(prefix='gsverif-%s-' % prop)
    try:
        if '--replay' in sys.argv:
            with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
                r = json.load(f)
            w = spawn(r['interpreter'], prop, r['seed'], r['tier'], r['idx'], 1, r['idx'] + 1, base, 'replay')
            run_all([w], 300, time.time() + 600)
            res = load_result(w)
            print(json.dumps(res['violations'] if res else open(w['err'], errors='replace').read()[-2000:], indent=1))
            return 1 if not res or res['violations'] else 0
        return decide(prop, seed, tier, spec, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def decide(prop, seed, tier, spec, base, t0):
    ncases = spec[tier]
    nproc = spec.get('procs', 6)
    workers = []
    ncases_j = spec.get('jython', {}).get(tier, 0)
    if spec.get('twins'):
        # the same cases under both interpreters, shard by shard
        for k in range(spec['twins']):
            for interp in ('cpython', 'jython'):
                workers.append(spawn(interp, prop, seed, tier, k, spec['twins'], ncases, base, '%s%d' % (interp, k)))
    else:
        for k in range(nproc):
            workers.append(spawn('cpython', prop, seed, tier, k, nproc, ncases, base, 'cpython%d' % k))
        if ncases_j:
            # other cases than those CPython runs
            first = 1000000
            nj = spec.get('jprocs', 1)
            for k in range(nj):
                workers.append(spawn('jython', prop, seed, tier, first + k, nj, first + ncases_j, base, 'jython%d' % k))
    stuck = run_all(workers, QUIET_SECONDS, t0 + TOTAL_SECONDS - 150)
    if spec.get('twins'):
        # each reads what the other wrote
        readers = [spawn(interp, prop, seed, tier, 10000000, 1, 10000001, base, '%s%dr' % (interp, k))
                   for k in range(spec['twins']) for interp in ('cpython', 'jython')]
        stuck += run_all(readers, QUIET_SECONDS, t0 + TOTAL_SECONDS)
        workers += readers
    violations, inconclusive = [], []
    for w in stuck:
        idx = w['idx']
        if idx is None or idx < 0:
            inconclusive.append('%s did not start' % w['name'])
            continue
        p, s, t, _, _, _ = w['args']
        again = spawn('cpython', p, s, t, idx, 1, idx + 1, base, w['name'] + '-steps', steps=True)
        late = run_all([again], 10 ** 6, min(time.time() + 100, t0 + TOTAL_SECONDS + 60))
        res = load_result(again)
        if res is not None and res['violations']:
            violations += res['violations']
        elif late or res is None:
            inconclusive.append('case %s of %s made no progress' % (idx, w['name']))
        else:
            inconclusive.append('case %s of %s stopped once, ended when run alone' % (idx, w['name']))
    counters, distinct, samples, done, pythons = {}, set(), [], 0, {}
    logs = {}
    for w in workers:
        res = load_result(w)
        if res is None:
            if not w.get('killed'):
                tail = open(w['err'], errors='replace').read()[-1500:]
                inconclusive.append('%s ended without a result: %s' % (w['name'], tail))
            continue
        done += res['done']
        kind = 'jython ' if res['java'] else 'cpython '
        pythons[kind + res['python']] = pythons.get(kind + res['python'], 0) + res['done']
        for k, v in res['counters'].items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(res['distinct'])
        samples += res['samples'][:2]
        violations += res['violations']
        if res['log']:
            reader = w['name'].endswith('r')
            shard = ''.join(c for c in w['name'] if c.isdigit())
            logs.setdefault(shard, {})[w['interp'] + ('r' if reader else '')] = dict((str(k), v) for k, v in res['log'])
    if spec.get('twins'):
        import twins
        violations += twins.compare(logs, counters)
    # a monitor that was never reached says nothing
    for name in spec.get('must', []):
        if not counters.get(name):
            inconclusive.append('monitor %s observed nothing' % name)
    if not distinct:
        inconclusive.append('no non-trivial case')
    findings = known_findings(prop)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    cov = {'evaluations': done, 'distinct_nontrivial': len(distinct), 'rule': spec['rule'],
           'samples': samples[:4] or ['none'], 'observed': dict(sorted(counters.items())),
           'interpreters': pythons}
    if inconclusive:
        cov['inconclusive'] = [i[:600] for i in inconclusive]
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
                'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if violations:
        violations.sort(key=lambda v: v['idx'])
        shown = violations[0]
        path = write_replay(prop, seed, tier, shown)
        print('%s: %s' % (prop, shown['what'][:1500]))
        print('history: %s' % shown['trace'][:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: %d cases, %d distinct non-trivial, %d oracle decisions, %.1f s' % (
        prop, done, len(distinct), counters.get('oracle_decisions', 0), time.time() - t0))
    if inconclusive:
        print('INCONCLUSIVE: ' + '; '.join(inconclusive))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
