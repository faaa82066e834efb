from __future__ import absolute_import, division, print_function

import random

import gen
import lib
import markov

TAGS = [['a', 'b', 'c'], ['Kick', 'Kick2', 'Snare'], ['a', 'ab', ('a', 'b')], [1, 2], ['x'], ['x', 'y'], [('C', 'maj'), ('C', 'min'), 'C']]


def counts(x):
    """Whole numbers nearest to x."""
    lo = int(x)
    f = x - lo
    if abs(f - 0.5) < 1e-9:
        return (lo, lo + 1)
    return (lo,) if f < 0.5 else (lo + 1,)


def make(gs, rng, numSteps):
    duration = rng.pick([4, 4, 2, 8, 1, 3]) if rng.chance(0.9) else rng.pick([64, 100, 256])
    pool = rng.pick(TAGS)
    p = markov.loops(gs, rng, numSteps, duration, pool, 1, rng.pick([0.1, 0.3, 0.6, 1.0]))[0]
    gen.settings(rng, p)
    return p


def identity(p):
    return (lib.evs(p.events), p.duration, tuple(p.timeSignature), p.startTime)


class Model(object):
    def __init__(self, p, numSteps):
        self.current = identity(p)
        self.duration = p.duration
        self.n = numSteps
        self.at = {}
        for e in p.events:
            k = int(e.startTime * numSteps / p.duration + 0.5)
            if k < numSteps:
                self.at.setdefault(e.tag, {}).setdefault(k, []).append((e.pitch, e.velocity))
        self.asked = dict((t, 1) for t in self.at)

    def ask(self, d):
        for t, v in d.items():
            if t in self.at:
                self.asked[t] = max(0, min(v, 2))

    def judge(self, ctx, res, what):
        ratio = self.duration / self.n
        ctx.close(res.duration, self.duration, 'duration', what)
        notes = dict((t, {}) for t in self.at)
        for e in res.events:
            ctx.check(e.tag in notes, 'event', lib.ev(e), 'has a new tag', what)
            k = int(e.startTime / ratio + 0.5)
            ctx.check(0 <= k < self.n and lib.near(e.startTime, k * ratio), 'event', lib.ev(e), 'is off the grid', what)
            ctx.close(e.duration, ratio, 'duration of an event', what)
            ctx.check(k not in notes[e.tag], 'two notes of', e.tag, 'at step', k, what)
            notes[e.tag][k] = (e.pitch, e.velocity)
        for t in self.at:
            v, orig, got = self.asked[t], self.at[t], notes[t]
            n = len(orig)
            ok = counts(n * v) if v <= 1 else [n + c for c in counts((self.n - n) * (v - 1))]
            ctx.check(len(got) in ok, 'tag', t, 'at density', v, 'of', n, 'notes in', self.n, 'steps has', len(got),
                      'notes instead of', ok, what)
            if v <= 1:
                ctx.check(set(got) <= set(orig), 'tag', t, 'at density', v, 'has notes at', sorted(got), 'of', sorted(orig), what)
            if v >= 1:
                ctx.check(set(got) >= set(orig), 'tag', t, 'at density', v, 'has notes at', sorted(got), 'without all of', sorted(orig), what)
            for k in got:
                if k in orig:
                    ctx.check(got[k] in orig[k], 'the note of', t, 'at step', k, 'became', got[k], 'of', orig[k], what)
            ctx.hit('densities judged')
            if len(got) != n:
                ctx.hit('changed densities judged')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    random.seed(rng.int(0, 1 << 30))
    numSteps = rng.pick([16, 8, 4, 32, 5, 12]) if rng.chance(0.95) else rng.pick([64, 100, 130])
    machines = []
    for _ in range(rng.int(1, 2)):
        mode = rng.pick(['random', 'hysteresis', 'syncopation'])
        machines.append((gs.gstransformers.AgnosticDensity(mode=mode, numSteps=numSteps), mode))
    inputs = [make(gs, rng, numSteps) for _ in range(rng.int(1, 2))]
    if rng.chance(0.3):
        # the same loop, at another speed
        q = inputs[0].copy()
        q.timeStretch(rng.pick([numSteps / q.duration, 2, 0.5, 1]))
        inputs.append(q)
    ctx.note('inputs', [(p.duration, lib.evs(p.events)) for p in inputs], numSteps, [m for _, m in machines])
    ctx.sig(numSteps, [lib.evs(p.events) for p in inputs])
    ctx.nontrivial = any(p.events for p in inputs)
    before = [lib.snap(p) for p in inputs]
    models = {}
    for _ in range(rng.int(2, 14)):
        i = rng.int(0, len(machines) - 1)
        m = machines[i][0]
        k = rng.int(0, len(inputs) - 1)
        fresh = i not in models or rng.chance(0.25)
        first = None
        if fresh:
            # an input pattern starts over, unless it is the current one
            if rng.chance(0.7):
                m.configure({'inputPattern': inputs[k]})
                models[i] = Model(inputs[k], numSteps)
                ctx.note('input', i, k)
            else:
                first = inputs[k]
                if rng.chance(0.15) and first.events:
                    # changed in the meantime
                    rng.pick(first.events).pitch += 1
                    before[k] = lib.snap(first)
                    ctx.note('changed', k, lib.evs(first.events))
                if rng.chance(0.4):
                    first = first.copy()
                if i not in models or models[i].current != identity(first):
                    models[i] = Model(first, numSteps)
                else:
                    ctx.hit('current input given again')
                ctx.note('input given', i, k)
        model = models[i]
        tags = list(model.at) + ['nobody']
        d = {}
        for t in rng.some(tags, 0 if rng.chance(0.2) else 1, 3):
            d[t] = rng.pick([0, 1, 2, 0.5, 1.5, rng.unit(), 1 + rng.unit(), 2 * rng.unit(), 0.25, 1.25, 0.99, 1.01, 3, -1])
        ctx.note('densities', i, sorted(((lib.tagkey(t), v) for t, v in d.items())))
        given = dict(d)
        res = m.transformPattern(first, {'normalizedDensities': d} if d or rng.chance(0.5) else {})
        ctx.same(d, given, 'the request after the transformation')
        model.ask(d)
        model.judge(ctx, res, 'after %s' % sorted((lib.tagkey(t), v) for t, v in model.asked.items()))
        if rng.chance(0.3) and res.events:
            # the result is the user's
            res.events.pop()
            for e in res.events:
                e.startTime += 0.5
                e.tag = 'mine'
        ctx.hit('transformations judged')
    ctx.same([lib.snap(p) for p in inputs], before, 'inputs after transforming')
