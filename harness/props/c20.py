from __future__ import absolute_import, division, print_function

from math import exp, log

import elsewhere
import lib
import markov
import streams


def unlikely(n, c, p):
    """Upper bound of the probability of c of n or further off, each with p."""
    f = c / n
    if p >= 1:
        return 1.0 if c == n else 0.0
    kl = 0.0
    if f > 0:
        kl += f * log(f / p)
    if f < 1:
        kl += (1 - f) * log((1 - f) / (1 - p))
    return exp(-n * kl)


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    numSteps = rng.pick([16, 8, 4, 16, 5, 3, 2, 12])
    loopDuration = rng.pick([4, 4, 2, 8, 1, 3, 2.5, 0.5, 7.75])
    if rng.chance(0.02):
        numSteps = rng.int(97, 140)
    order = rng.int(1, min(4, numSteps - 1))
    style = gs.gsstyles.MarkovStyle(order=order, numSteps=numSteps, loopDuration=loopDuration)
    other = gs.gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4)
    ctx.note('style', order, numSteps, loopDuration)
    for _ in range(rng.int(1, 2)):
        pats = markov.loops(gs, rng, numSteps, loopDuration, rng.pick(markov.POOLS), rng.pick([1, 2, 3, 4, 5, 6, 9, 16])) \
            if not rng.chance(0.04) else markov.loops(gs, rng, numSteps, loopDuration, ['t%d' % i for i in range(20)], 40, 0.3, True)
        ctx.note('learn', [lib.evs(p.events) for p in pats])
        ctx.sig(order, numSteps, [lib.evs(p.events) for p in pats])
        ctx.nontrivial = ctx.nontrivial or any(p.events for p in pats)
        before = [lib.snap(p) for p in pats]
        style.generateStyle(pats)
        other.generateStyle(markov.loops(gs, rng, 4, 4, ['q', 'r'], 2))
        table = markov.count(pats, order, numSteps, loopDuration)
        markov.judge_table(ctx, style.markovChain, table)
        seeds = {}
        seen = {}
        begins = {}
        many = rng.chance(0.1)
        n = 400 if many else rng.int(2, 10)
        for k in range(n):
            # (some generators start alike from small seeds)
            seed = rng.int(0, 1 << 40) if many else rng.pick([0, 0, None, rng.int(0, 5), rng.int(0, 10 ** 9), 0.5, 'text'])
            p = style.generatePattern(seed)
            ctx.note('seed', seed)
            s = markov.judge_generated(ctx, p, table, order, numSteps, loopDuration, seen)
            b = tuple(s[:order])
            begins[b] = begins.get(b, 0) + 1
            music = sorted(lib.evs(p.events), key=lib._key)
            if seed is not None:
                if seed in seeds:
                    ctx.check(music == seeds[seed], 'seed', seed, 'gave', seeds[seed], 'then', music)
                    ctx.hit('seeds judged again')
                seeds[seed] = music
            r = rng.int(0, 5)
            if r == 0:
                other.generatePattern(rng.int(0, 9))
            elif r == 1 and p.events:
                # what is generated is the user's
                p.events.pop()
                p.transpose(3)
                p.duration = 99
        for seed in list(seeds)[:4]:
            p = style.generatePattern(seed)
            ctx.check(sorted(lib.evs(p.events), key=lib._key) == seeds[seed], 'seed', seed, 'gave', seeds[seed], 'then', lib.evs(p.events))
            ctx.hit('seeds judged again')
        if idx % 100 == 7:
            elsewhere.judge(ctx, gs, rng, 'MarkovStyle', dict(order=order, numSteps=numSteps, loopDuration=loopDuration), pats)
        if idx % 100 == 57:
            streams.judge(ctx, gs, rng, style, pats)
        if many:
            for (k, past), d in seen.items():
                visits = sum(d.values())
                total = sum(table[k][past].values())
                for s, c in table[k][past].items():
                    ctx.check(unlikely(visits, d.get(s, 0), c / total) > 1e-12, 'step', k, ': outcome', sorted(map(str, s)),
                              'of probability', c / total, 'was chosen', d.get(s, 0), 'times of', visits)
                    ctx.hit('frequencies judged')
            for b in table[order]:
                # every observed beginning
                ctx.check(begins.get(b, 0) > 0 or (1 - 1.0 / max(len(table[order]), sum(len(d) for d in table[order].values()) * 6)) ** n > 1e-9,
                          'beginning', [sorted(map(str, x)) for x in b], 'was never chosen in', n)
                ctx.hit('beginnings judged')
        markov.judge_table(ctx, style.markovChain, table, 'after generating')
        ctx.same([lib.snap(p) for p in pats], before, 'learned loops after generating')
