# -*- coding: utf-8 -*-
"""An independent count of what a Markov style must have learned."""
from __future__ import absolute_import, division, print_function

import gen
import lib

SILENT = frozenset(['silence'])
POOLS = [['a', 'b', 'c'], ['Kick', 'Snare', 'HH', 'Kick2'], ['a', 'ab', ('a', 'b')], [1, 2, 3], [('C', 'maj'), ('C', 'min'), 'C'],
         ['x'], list('abcdefgh'), ['t%d' % i for i in range(20)], ['a', 'b', (('k', 'v'), 'w')]]


def loops(gs, rng, numSteps, loopDuration, pool, n, density=None, fanned=False):
    """Loops of the style's duration; starts lie within a step, not between two."""
    out = []
    step = loopDuration / numSteps
    fan = rng.int(0, numSteps - 1) if fanned or rng.chance(0.2) else None     # loops that differ in one step only
    for i in range(n):
        p = gs.gspattern.Pattern(loopDuration)
        fill = density if density is not None else rng.pick([0.0, 0.2, 0.5, 0.9])
        base = rng.pick(out) if out and (fan is not None or rng.chance(0.5)) else None
        cells = {}
        if base is not None:
            # loops that share much and differ in some steps
            for k, t in base.cells:
                cells[(k, t)] = True
            if fan is not None:
                cells = dict((x, True) for x in cells if x[0] != fan)
                for t in rng.some(pool, 0, 4):
                    cells[(fan, t)] = True
            for _ in range(rng.int(0, 3) if fan is None else 0):
                if cells and rng.chance(0.5):
                    cells.pop(rng.pick(sorted(cells, key=str)))
                else:
                    cells[(rng.int(0, numSteps - 1), rng.pick(pool))] = True
        else:
            for k in range(numSteps):
                if rng.chance(fill):
                    for t in rng.some(pool, 1, 3 if rng.chance(0.97) else len(pool)):
                        cells[(k, t)] = True
        p.cells = sorted(cells, key=str)
        exact = rng.chance(0.5)
        for k, t in p.cells:
            for _ in range(2 if rng.chance(0.05) else 1):
                start = k * step if exact else (k + rng.pick([0, 0.25, -0.25, 0.4, -0.4])) * step
                if start < 0:
                    start = 0
                n2 = rng.pick([step, step / 2, 2 * step, 0.1 * step])
                p.events.append(gs.gspattern.Event(start, min(n2, loopDuration - start), rng.int(30, 90), rng.int(1, 127), t))
        if rng.chance(0.15):
            # rounds to the next loop: no part of this one
            p.events.append(gs.gspattern.Event(loopDuration - step * 0.3, step * 0.3, 60, 100, rng.pick(pool)))
        rng.shuffle(p.events)
        p.name = 'loop%d' % i
        p.bpm = rng.pick([120, 90])
        out.append(p)
    for p in out:
        del p.cells
    return out


def states(p, numSteps, loopDuration):
    res = [set() for _ in range(numSteps)]
    for e in p.events:
        if e.tag == 'silence':
            continue
        k = int(e.startTime * numSteps / loopDuration + 0.5)
        if k < numSteps:
            res[k].add(e.tag)
    return [frozenset(s) if s else SILENT for s in res]


def count(patterns, order, numSteps, loopDuration):
    """[{past: {state: number of loops}}] for each step"""
    table = [{} for _ in range(numSteps)]
    for p in patterns:
        s = states(p, numSteps, loopDuration)
        for k in range(numSteps):
            past = tuple(s[(k - i) % numSteps] for i in range(order, 0, -1))
            d = table[k].setdefault(past, {})
            d[s[k]] = d.get(s[k], 0) + 1
    return table


def as_state(ctx, t):
    ctx.check(isinstance(t, tuple) and len(t) > 0, 'a state is', t)
    f = frozenset(t)
    ctx.check(len(f) == len(t), 'state', t, 'names a tag twice')
    ctx.check('silence' not in f or len(f) == 1, 'silence and tags in state', t)
    return f


def as_past(ctx, t):
    ctx.check(isinstance(t, tuple), 'a past is', t)
    return tuple(as_state(ctx, s) for s in t)


def read(ctx, chain, step):
    """The learned table at a step, through the matrix."""
    m, ins, outs = chain.getMatrixAtStep(step)
    pasts, states_ = [as_past(ctx, i) for i in ins], [as_state(ctx, o) for o in outs]
    ctx.check(len(set(pasts)) == len(pasts), 'a past is listed twice', pasts)
    ctx.check(len(set(states_)) == len(states_), 'a state is listed twice', states_)
    ctx.same(len(m), len(pasts), 'rows of the matrix')
    out = {}
    for i, row in enumerate(m):
        ctx.same(len(row), len(states_), 'columns of the matrix')
        out[pasts[i]] = dict((states_[j], row[j]) for j in range(len(row)) if row[j] != 0)
    return out


def show(table):
    return sorted((str([sorted(map(str, s)) for s in p]), sorted((str(sorted(map(str, s))), n) for s, n in d.items()))
                  for p, d in table.items())


def judge_table(ctx, chain, table, what=''):
    for step in range(len(table)):
        got = read(ctx, chain, step)
        want = table[step]
        ctx.check(set(got) == set(want), 'pasts at step', step, what, show(got), 'instead of', show(want))
        for past in want:
            total = sum(want[past].values())
            ctx.check(set(got[past]) == set(want[past]), 'outcomes at step', step, what, show(got), 'instead of', show(want))
            for s in want[past]:
                ctx.check(lib.near(got[past][s], want[past][s] / total, 1e-9), 'probability at step', step, what, show(got),
                          'instead of', show(want))
            ctx.close(sum(got[past].values()), 1.0, 'sum of probabilities')
            ctx.hit('pasts judged')
            if len(want[past]) > 1:
                ctx.hit('pasts with several outcomes judged')
    ctx.hit('tables judged')


def judge_generated(ctx, p, table, order, numSteps, loopDuration, seen=None, what=''):
    """A generated pattern against the learned table; counts outcomes in `seen`."""
    step = loopDuration / numSteps
    ctx.close(p.duration, loopDuration, 'duration of what is generated', what)
    s = [set() for _ in range(numSteps)]
    for e in p.events:
        k = int(e.startTime / step + 0.5)
        ctx.check(0 <= k < numSteps and lib.near(e.startTime, k * step), 'event', lib.ev(e), 'is off the grid', what)
        ctx.close(e.duration, step, 'duration of a generated event', what)
        ctx.check(e.tag != 'silence', 'silence became an event at step', k, what)
        ctx.check(e.tag not in s[k], 'tag', e.tag, 'twice at step', k, what)
        s[k].add(e.tag)
    s = [frozenset(x) if x else SILENT for x in s]
    begin = tuple(s[:order])
    ctx.check(begin in table[order], 'beginning', [sorted(map(str, b)) for b in begin], 'was never observed', what)
    for k in range(order, numSteps):
        past = tuple(s[k - order:k])
        ctx.check(past in table[k] and s[k] in table[k][past], 'step', k, 'has', sorted(map(str, s[k])), 'after',
                  [sorted(map(str, b)) for b in past], 'but observed was', show({past: table[k].get(past, {})}), what)
        if seen is not None:
            d = seen.setdefault((k, past), {})
            d[s[k]] = d.get(s[k], 0) + 1
        ctx.hit('transitions judged')
    ctx.hit('patterns judged')
    return s
