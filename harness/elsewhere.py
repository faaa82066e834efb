# -*- coding: utf-8 -*-
"""The same seeds in another process, whose hashes are others (CPython only).

As a program: reads what to learn and which seeds to use from its input and
writes what is generated."""
from __future__ import absolute_import, division, print_function

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'props')]
import lib  # noqa: E402


def plain(patterns):
    return [(p.duration, [(e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in p.events]) for p in patterns]


def music(p):
    return (p.duration, sorted(((e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in p.events), key=repr))


def generate(gs, kind, args, patterns, seeds):
    style = getattr(gs.gsstyles, kind)(**args)
    learned = []
    for duration, events in patterns:
        p = gs.gspattern.Pattern(duration)
        p.events = [gs.gspattern.Event(*e) for e in events]
        learned.append(p)
    style.generateStyle(learned)
    return [music(style.generatePattern(s)) for s in seeds]


def judge(ctx, gs, rng, kind, args, patterns):
    """Generates here and there, and compares."""
    if lib.JAVA:
        return
    seeds = [0, rng.int(1, 99), rng.int(0, 1 << 40), 0.25, 'text', 'seed %d' % rng.int(0, 9), -3]
    given = (kind, args, plain(patterns), seeds)
    here = generate(gs, *given)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.int(1, 4000000000)))
    p = subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         env=env, cwd=ctx.scratch)
    out = p.communicate(repr(given).encode('utf-8'))[0]
    ctx.check(p.returncode == 0, 'another process fails to generate with', kind, args)
    there = eval(out.decode('utf-8').strip().split('\n')[-1])
    for s, a, b in zip(seeds, here, there):
        ctx.same(b, a, 'what seed', s, 'gives in another process')
        ctx.hit('seeds judged in another process')


if __name__ == '__main__':
    print(repr(generate(lib.load_gsapi(), *eval(sys.stdin.buffer.read().decode('utf-8')))))
