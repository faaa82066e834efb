# -*- coding: utf-8 -*-
"""An independent count and an independent constraint solver for basslines."""
from __future__ import absolute_import, division, print_function

import numpy as np

import lib

STARTS = [0, 0.25, 0.5, 0.75]


def bits(n):
    return [(n >> 3) & 1, (n >> 2) & 1, (n >> 1) & 1, n & 1]


def onsets(ids):
    return [b + STARTS[k] for b, n in enumerate(ids) for k in range(4) if bits(n)[k]]


def sequence(rng, pool, n=None, long=False):
    """Sequences that repeat themselves, as music does."""
    n = n or rng.pick([2, 3, 4, 4, 8, 8, 16, rng.int(2, 12), rng.int(2, 12), rng.pick([32, 48, 7, 130]) if long else 8])
    s = [rng.pick(pool)]
    while len(s) < n:
        s.append(rng.pick(pool) if rng.chance(0.6) else s[-1])
    return s


class Counts(object):
    def __init__(self, size=(16, 16)):
        self.size = size
        self.init, self.trans, self.inter = {}, {}, {}

    def temporal(self, s):
        self.init[s[0]] = self.init.get(s[0], 0) + 1
        if len(s) > 1:
            for a, b in zip(s, s[1:] + s[:1]):
                row = self.trans.setdefault(a, {})
                row[b] = row.get(b, 0) + 1

    def interlocking(self, kick, bass):
        for a, b in zip(kick, bass):
            row = self.inter.setdefault(a, {})
            row[b] = row.get(b, 0) + 1

    def matrix(self, rows):
        out = np.zeros(self.size)
        for a, row in rows.items():
            for b, n in row.items():
                out[a, b] = n / sum(row.values())
        return out

    def initial(self):
        out = np.zeros(self.size[0])
        for a, n in self.init.items():
            out[a] = n / sum(self.init.values())
        return out


def same_matrix(ctx, got, want, what):
    got = np.array(got, dtype=float)
    ctx.check(got.shape == want.shape, what, 'has shape', got.shape)
    if not np.allclose(got, want, rtol=1e-9, atol=1e-12):
        where = np.argwhere(~np.isclose(got, want, rtol=1e-9, atol=1e-12))[0]
        ctx.fail(what, 'at', [int(x) for x in where], 'is', float(got[tuple(where)]), 'instead of', float(want[tuple(where)]))
    ctx.hit('oracle_decisions')
    ctx.hit('probabilities judged', int(want.size))


def judge_model(ctx, m, counts, what=''):
    same_matrix(ctx, m.get_initial(), counts.initial(), 'initial model ' + what)
    same_matrix(ctx, m.get_temporal(), counts.matrix(counts.trans), 'temporal model ' + what)
    same_matrix(ctx, m.get_interlocking(), counts.matrix(counts.inter), 'interlocking model ' + what)
    ctx.hit('models judged')


def judge_dist(ctx, patterns, probs, weights, what):
    """patterns with probabilities proportional to the weights of exactly these keys."""
    ctx.check(all(isinstance(int(p), int) for p in patterns) and len(patterns) == len(probs), what, 'has', patterns, probs)
    got = dict(zip([int(p) for p in patterns], [float(x) for x in probs]))
    ctx.check(len(got) == len(patterns), what, 'names a pattern twice', patterns)
    ctx.same(sorted(got), sorted(weights), what)
    total = sum(weights.values())
    for k in weights:
        ctx.check(lib.near(got[k], weights[k] / total, 1e-9), what, ': probability of', k, 'is', got[k], 'instead of', weights[k] / total)
    ctx.close(sum(got.values()), 1.0, what, 'sum of probabilities')
    ctx.hit('distributions judged')


class Problem(object):
    """Allowed patterns for each beat; what can be completed to the end."""

    def __init__(self, counts, allowed):
        self.c, self.allowed = counts, allowed
        n = len(allowed)
        self.ok = [None] * n
        self.ok[n - 1] = set(allowed[n - 1])
        for i in range(n - 2, -1, -1):
            self.ok[i] = set(a for a in allowed[i] if any(b in self.ok[i + 1] for b in counts.trans.get(a, {})))

    def first(self):
        total = self.c.init
        return dict((a, total[a]) for a in self.ok[0] if a in total)

    def next(self, i, a):
        row = self.c.trans.get(a, {})
        return dict((b, row[b]) for b in row if b in self.ok[i + 1])

    def reachable(self, first):
        out = [set(first)]
        for i in range(len(self.allowed) - 1):
            out.append(set(b for a in out[-1] for b in self.next(i, a)))
        return out


def judge_constrained(ctx, model, problem, first, what):
    init, steps = model
    judge_dist(ctx, init['initial']['pattern'], init['initial']['prob'], first, what + ' initial')
    judge_steps(ctx, steps, problem, first, what)


def judge_steps(ctx, steps, problem, first, what):
    reach = problem.reachable(first)
    for i in range(len(problem.allowed) - 1):
        got = steps[i]
        ctx.check(reach[i] <= set(got), what, 'at step', i, 'knows', sorted(got), 'but needs', sorted(reach[i]))
        for a in got:
            # (beat patterns that cannot be reached offer no dead end either)
            w = problem.next(i, a)
            ctx.check(a in reach[i] or set(int(x) for x in got[a]['pattern']) <= set(w), what, 'at step', i, 'after', a,
                      'offers', got[a]['pattern'], 'of', w)
            if a in reach[i]:
                judge_dist(ctx, got[a]['pattern'], got[a]['probs'], w, what + ' at step %d after %d' % (i, a))


def read_bassline(ctx, p, beats, what):
    """Beat pattern ids of a generated bassline."""
    ctx.close(p.duration, beats, what, 'has duration')
    ids = [0] * beats
    for e in p.events:
        beat = int(e.startTime)
        k = (e.startTime - beat) * 4
        ctx.check(0 <= beat < beats and k == int(k), what, 'has an event at', e.startTime)
        bit = 8 >> int(k)
        ctx.check(not ids[beat] & bit, what, 'has two events at', e.startTime)
        ids[beat] |= bit
        ctx.check(e.duration > 0 and lib.near(e.duration, 0.25), what, 'has an event of duration', e.duration)
    ctx.hit('basslines judged')
    return ids
