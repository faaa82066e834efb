# -*- coding: utf-8 -*-
"""Runs cases of one property and writes what was observed.

   worker.py PROP SEED TIER START STRIDE COUNT OUT [steps]

Cases START, START+STRIDE, ... below COUNT.  With `steps` as last argument the
case runs under a budget of executed lines (to tell a hang from a slow run)."""
from __future__ import absolute_import, division, print_function

import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import lib  # noqa: E402

MAX_VIOLATIONS = 4
STEP_BUDGET = 30 * 1000 * 1000


class OutOfSteps(BaseException):
    pass


def load_prop(prop):
    sys.path.insert(0, os.path.join(HERE, 'props'))
    return __import__(prop.lower())


def limit_steps(budget):
    left = [budget]

    def tracer(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] < 0:
                raise OutOfSteps()
        return tracer
    sys.settrace(tracer)


def main():
    prop, seed, tier, start, stride, count, out = sys.argv[1:8]
    steps = len(sys.argv) > 8
    seed, start, stride, count = int(seed), int(start), int(stride), int(count)
    if not lib.JAVA:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    deadline = time.time() + float(os.environ.get('CASE_SECONDS', '500'))
    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    lib.load_gsapi()
    mod = load_prop(prop)
    ctx = lib.Ctx(prop, seed, tier)
    ctx.scratch = os.getcwd()
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    violations = []
    done = 0
    progress = open(out + '.progress', 'w')
    idx = start
    while idx < count:
        if time.time() > deadline:
            break
        progress.seek(0)
        progress.write('%012d\n' % idx)
        progress.flush()
        ctx.begin(idx)
        rng = lib.Rng(prop, seed, idx)
        problem = None
        try:
            if steps:
                limit_steps(STEP_BUDGET)
            try:
                mod.case(ctx, rng, idx)
            finally:
                if steps:
                    sys.settrace(None)
            ctx.end()
        except lib.Violation as e:
            problem = str(e)
        except OutOfSteps:
            problem = 'does not end: over %d executed lines' % STEP_BUDGET
        except Exception:
            problem = str(ctx.violation) if ctx.violation is not None else 'unexpected exception: ' + traceback.format_exc()[-1800:]
        if problem is not None:
            violations.append({'idx': idx, 'what': problem, 'trace': lib.short(ctx.trace, 6000),
                               'interpreter': 'jython' if lib.JAVA else 'cpython'})
            if len(violations) >= MAX_VIOLATIONS:
                break
        done += 1
        idx += stride
    result = {'done': done, 'counters': ctx.counters, 'samples': ctx.samples, 'violations': violations,
              'distinct': ['%x' % d for d in ctx.distinct], 'log': ctx.log,
              'python': sys.version.split()[0], 'java': lib.JAVA}
    with open(out, 'w') as f:
        json.dump(result, f)
    sys.stdout = real_stdout


if __name__ == '__main__':
    main()
