# -*- coding: utf-8 -*-
"""Database styles give back what they were built from, in the order asked."""
from __future__ import absolute_import, division, print_function

import elsewhere
import gen
import lib


def value(p):
    # (events may be put in order of time)
    return (lib.meta(p)['name'], p.duration, lib.meta(p)['bpm'], sorted(lib.evs(p.events), key=lib._key))


class Database(object):
    """A style and what it must do."""

    def __init__(self, ctx, gs, rng, k):
        self.ctx, self.k = ctx, k
        how = rng.pick(['indexed', 'increasing', 'random', None])
        self.style = gs.gsstyles.DatabaseStyle() if how is None else gs.gsstyles.DatabaseStyle(generatePatternOrdering=how)
        self.how = how or 'indexed'
        self.given = []
        self.at = 0
        ctx.check(not self.style.isBuilt(), 'a new style counts as built')

    def learn(self, pats):
        self.style.generateStyle(pats)
        self.given = pats
        self.want = [value(p) for p in pats]
        self.at = getattr(self.style, 'currentIdx', 0) if self.at else 0

    def judge(self):
        ctx = self.ctx
        ctx.check(bool(self.style.isBuilt()), 'style', self.k, 'does not count as built')
        ctx.same([value(p) for p in self.given], self.want, 'patterns given to style', self.k)
        ctx.same([value(p) for p in self.style.patternList], self.want, 'patterns of style', self.k)

    def generate(self, rng):
        ctx, n = self.ctx, len(self.given)
        if self.how == 'increasing':
            if self.at >= n:
                return
            ctx.same(value(self.style.generatePattern()), self.want[self.at], 'pattern', self.at, 'in increasing order of style', self.k)
            self.at += 1
            ctx.hit('patterns in order judged')
        elif self.how == 'indexed':
            if rng.chance(0.4):
                self.at = self.style.currentIdx = rng.int(0, n - 1)
            for _ in range(rng.int(1, 2)):
                ctx.same(value(self.style.generatePattern(rng.pick([None, 3]))), self.want[self.at],
                         'the pattern of style', self.k, 'chosen by index', self.at)
            ctx.hit('patterns by index judged')
        else:
            seed = rng.pick([0, rng.int(1, 9999), 0.5, 'abc'])
            got = value(self.style.generatePattern(seed))
            ctx.check(got in self.want, 'style', self.k, 'generates', got, 'which it was not built from')
            free = value(self.style.generatePattern())
            ctx.check(free in self.want, 'style', self.k, 'generates', free, 'which it was not built from')
            ctx.same(value(self.style.generatePattern(seed=seed)), got, 'the pattern generated with seed', seed)
            ctx.hit('random patterns judged')

    def even(self, rng):
        """Every pattern as often as the others (a fair choice fails this
        once in 10**9 times)."""
        if self.how != 'random' or len(set(map(repr, self.want))) < len(self.want):
            return
        n, ctx = len(self.want), self.ctx
        draws = 60 * n
        seen = {}
        objects = dict((id(p), i) for i, p in enumerate(self.style.patternList))
        seeded = rng.chance(0.5)
        for i in range(draws):
            p = self.style.generatePattern(rng.int(0, 2 ** 40)) if seeded else self.style.generatePattern()
            k = objects.get(id(p))
            if k is None:
                k = self.want.index(value(p))
            seen[k] = seen.get(k, 0) + 1
        mean = 60.0
        for k in range(n):
            ctx.check(abs(seen.get(k, 0) - mean) <= 6.5 * mean ** 0.5, 'pattern', k, 'of', n, 'is chosen', seen.get(k, 0), 'times in', draws)
        ctx.hit('choices counted', draws)


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    styles = [Database(ctx, gs, rng, k) for k in range(rng.int(1, 3))]
    for s in styles:
        pats = [gen.pattern(gs, rng) for _ in range(rng.weighted([(1, 10), (2, 20), (3, 20), (5, 20), (8, 10), (rng.int(65, 90), 1)]))]
        for _ in range(rng.int(1, 2) if rng.chance(0.3) else 0):
            # some there twice, or the same but for the name
            p = rng.pick(pats)
            pats.insert(rng.int(0, len(pats)), rng.pick([p, p.copy()]))
            if rng.chance(0.3) and not any(x is pats[-1] for x in pats[:-1]):
                pats[-1].name = 'other'
        for p in pats:
            # (saving extends patterns to their last event)
            p.duration = max([p.duration] + [e.endTime() for e in p.events])
        s.learn(pats)
        ctx.note('style', s.how, [gen.show(p) for p in pats])
        ctx.sig(s.how, [lib.evs(p.events) for p in pats])
        ctx.nontrivial = ctx.nontrivial or any(p.events for p in pats)
    for _ in range(rng.int(3, 14)):
        s = rng.pick(styles)
        what = rng.weighted([('generate', 8), ('state', 1), ('restore', 1)])
        ctx.note(what, s.k)
        if what == 'generate':
            s.generate(rng)
        elif what == 'state':
            s.style.getInternalState()
        else:
            # another one, built from the state: it starts with the first
            other = Database(ctx, gs, rng, 'restored from %s' % s.k)
            if other.how == 'indexed' and rng.chance(0.5):
                # (its index is set already)
                other.at = other.style.currentIdx = rng.int(0, len(s.want) - 1)
            other.style.setInternalState(s.style.getInternalState())
            other.want = s.want
            got = other.style.patternList
            ctx.same([value(p) for p in got], s.want, 'patterns restored')
            other.given = got
            other.generate(rng)
            ctx.hit('restored styles judged')
    if idx % 100 == 7:
        elsewhere.judge(ctx, gs, rng, 'DatabaseStyle', {'generatePatternOrdering': 'random'}, styles[0].given)
    for s in styles:
        if s.how == 'increasing' and rng.chance(0.5):
            while s.at < len(s.given):
                s.generate(rng)
        s.judge()
    if rng.chance(0.1):
        rng.pick(styles).even(rng)
