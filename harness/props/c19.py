from __future__ import absolute_import, division, print_function

import sys
import types

import lib
import markov


def api(ctx, chain, table, rng):
    n = len(table)
    everything = set()
    for d in table:
        for past in d:
            everything.add(past)
            everything.update(d[past])

    def norm(x):
        # a past is a tuple of states, a state a tuple of tags
        return frozenset(x)
    for _ in range(3):
        k = rng.int(0, n - 1)
        step = k if rng.chance(0.6) else k - n
        outs = [markov.as_state(ctx, o) for o in chain.getPossibleOutStatesAtStep(step)]
        ins = [markov.as_past(ctx, i) for i in chain.getPossibleInStatesAtStep(step)]
        ctx.check(len(outs) == len(set(outs)) and set(outs) == set(s for d in table[k].values() for s in d),
                  'outcomes listed at step', step, outs)
        ctx.check(len(ins) == len(set(ins)) and set(ins) == set(table[k]), 'pasts listed at step', step, ins)
        both = chain.getAllPossibleStatesAtStep(step)
        ctx.check(len(both) == len(set(both)) and set(both) == set(chain.getPossibleInStatesAtStep(step)) |
                  set(chain.getPossibleOutStatesAtStep(step)), 'states listed at step', step)
        got = markov.read(ctx, chain, step)
        ctx.check(markov.show(got) == markov.show(markov.read(ctx, chain, k)), 'matrix at step', step)
        ctx.hit('state lists judged')
    allStates = chain.getAllPossibleStates()
    ctx.check(len(allStates) == len(set(allStates)), 'a state is listed twice')
    pasts = set(tuple(x) for x in allStates)
    want = set()
    for k in range(n):
        want |= set(chain.getPossibleInStatesAtStep(k)) | set(chain.getPossibleOutStatesAtStep(k))
    ctx.check(pasts == want, 'all states are', allStates, 'instead of', want)
    # one matrix over all steps
    ins = sorted(set(x for k in range(n) for x in chain.getPossibleInStatesAtStep(k)), key=str)
    outs = sorted(set(x for k in range(n) for x in chain.getPossibleOutStatesAtStep(k)), key=str)
    matrix = [[0] * len(outs) for _ in ins]
    for k in range(n):
        m, _, _ = chain.getMatrixAtStep(k, possibleStatesIn=ins, possibleStatesOut=outs, matrix=matrix)
    for i, past in enumerate(ins):
        for j, out in enumerate(outs):
            p, o = markov.as_past(ctx, past), frozenset(out)
            total = sum(d[p].get(o, 0) / sum(d[p].values()) for d in table if p in d)
            ctx.check(lib.near(m[i][j], total), 'summed matrix for', past, out, m[i][j], 'instead of', total)
    ctx.hit('summed matrices judged')
    if rng.chance(0.3):
        drawn = plots(lambda: chain.plotGlobalMatrix())
        plot(ctx, drawn, [(p, o, sum(d[p].get(o, 0) / sum(d[p].values()) for d in table if p in d))
                          for p in set(x for d in table for x in d) for o in set(o for d in table for v in d.values() for o in v)])
        k = rng.int(-n, n - 1)
        drawn = plots(lambda: chain.plotMatrixAtStep(k))
        plot(ctx, drawn, [(p, o, table[k][p].get(o, 0) / sum(table[k][p].values()))
                          for p in table[k] for o in set(o for v in table[k].values() for o in v)])


class Canvas(object):
    """In the place of matplotlib: records what is shown."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*a, **k):
            self.calls.append((name, a))
            return (self, self) if name == 'subplots' else self
        call.__dict__['OrRd'] = self
        return call


def plots(draw):
    canvas = Canvas()
    package = types.ModuleType('matplotlib')
    package.pyplot = canvas
    old = dict((n, sys.modules.get(n)) for n in ('matplotlib', 'matplotlib.pyplot'))
    sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = package, canvas
    try:
        draw()
    finally:
        for n in old:
            if old[n] is None:
                del sys.modules[n]
            else:
                sys.modules[n] = old[n]
    return canvas.calls


def plot(ctx, calls, want):
    """The shown matrix holds the wanted values under its labels."""
    def last(name):
        got = [a[0] for n, a in calls if n == name]
        ctx.check(len(got) == 1, 'a plot calls', name, len(got), 'times')
        return got[0]
    rows = [markov.as_past(ctx, x) for x in last('set_yticklabels')]
    columns = [markov.as_state(ctx, x) for x in last('set_xticklabels')]
    m = [list(r) for r in last('matshow')]
    ctx.check(len(m) == len(rows) and all(len(r) == len(columns) for r in m), 'the plot is not of the size of its labels')
    ctx.check(list(last('set_xticks')) == list(range(len(columns))) and list(last('set_yticks')) == list(range(len(rows))), 'places of the labels')
    ctx.check(len(set(rows)) == len(rows) and len(set(columns)) == len(columns), 'a label is there twice')
    ctx.check(set(rows) == set(w[0] for w in want) and set(columns) == set(w[1] for w in want), 'the labels are', rows, columns)
    for p, o, v in want:
        got = m[rows.index(p)][columns.index(o)]
        ctx.check(lib.near(got, v), 'plotted for', p, o, got, 'instead of', v)
    ctx.check(any(n == 'show' for n, _ in calls), 'nothing is shown')
    ctx.hit('plots judged')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    numSteps = rng.pick([16, 8, 4, 16, 5, 3, 2, 12, 32 if rng.chance(0.3) else 8])
    loopDuration = rng.pick([4, 4, 2, 8, 1, 3, 2.5, 0.5, 7.75])
    order = rng.int(1, min(4, numSteps - 1))
    chains = []
    direct = rng.chance(0.4)
    for _ in range(rng.int(1, 2)):
        if direct:
            chains.append(gs.gsstyles.PatternMarkov(order=order, numSteps=numSteps, loopDuration=loopDuration))
        else:
            chains.append(gs.gsstyles.MarkovStyle(order=order, numSteps=numSteps, loopDuration=loopDuration))
    tables = [None] * len(chains)
    ctx.note('style', order, numSteps, loopDuration)
    for _ in range(rng.int(1, 3)):
        i = rng.int(0, len(chains) - 1)
        style = chains[i]
        chain = style if direct else style.markovChain
        pool = rng.pick(markov.POOLS)
        pats = markov.loops(gs, rng, numSteps, loopDuration, pool, rng.pick([1, 2, 3, 4, 5, 6, 9, 16]))
        if numSteps <= 5 and len(pats) < 6 and rng.chance(0.2) and tables[i] is None:
            # much to learn from
            often = rng.pick([0, 0.5, 0.9])
            pats = [pats[0] if rng.chance(often) else rng.pick(pats) for _ in range(rng.pick([20, 100, 300, 600 if numSteps < 4 else 400]))]
            ctx.hit('large sets learned')
        ctx.note('learn', i, [lib.evs(p.events) for p in pats])
        ctx.sig(order, numSteps, [lib.evs(p.events) for p in pats])
        ctx.nontrivial = ctx.nontrivial or any(p.events for p in pats)
        before = [lib.snap(p) for p in pats]
        if tables[i] is None:
            ctx.check(not style.isBuilt() if not direct else True, 'counts as built before it learned')
        if direct:
            chain.generateTransitionTableFromPatternList(pats)
        else:
            style.generateStyle(pats)
        ctx.same([lib.snap(p) for p in pats], before, 'loops after learning')
        ctx.check(bool(style.isBuilt()), 'does not count as built')
        tables[i] = markov.count(pats, order, numSteps, loopDuration)
        markov.judge_table(ctx, chain, tables[i])
        api(ctx, chain, tables[i], rng)
        if rng.chance(0.3) and len(pats) < 30:
            # in another order
            rng.shuffle(pats)
            for p in pats:
                rng.shuffle(p.events)
            if direct:
                chain.generateTransitionTableFromPatternList(pats)
            else:
                style.generateStyle(pats)
            markov.judge_table(ctx, chain, tables[i], 'in another order')
            ctx.hit('orders judged')
        if rng.chance(0.3) and len(pats) < 30:
            # the same list, longer or shorter now
            if len(pats) > 1 and rng.chance(0.4):
                pats.pop(rng.int(0, len(pats) - 1))
            else:
                pats += markov.loops(gs, rng, numSteps, loopDuration, pool, rng.int(1, 2))
            ctx.note('learn the changed list', i, [lib.evs(p.events) for p in pats])
            if direct:
                chain.generateTransitionTableFromPatternList(pats)
            else:
                style.generateStyle(pats)
            tables[i] = markov.count(pats, order, numSteps, loopDuration)
            markov.judge_table(ctx, chain, tables[i], 'learned from the changed list')
            ctx.hit('changed lists judged')
        if rng.chance(0.2):
            if direct:
                chain.buildTransitionTable()
            else:
                style.buildStyle()
            markov.judge_table(ctx, chain, tables[i], 'built again')
        if rng.chance(0.3):
            style.generatePattern(rng.int(0, 99))
            text = repr(chain)
            ctx.check(all('step %d' % k in text for k in range(numSteps)), 'printed table', text)
            for k, d in enumerate(chain.getStringTransitionTable(reduceTuples=False, jsonStyle=False)):
                got = sorted(lib.canon(sorted(x.values())) for x in d.values())
                want = sorted(lib.canon(sorted(n / sum(x.values()) for n in x.values())) for x in tables[i][k].values())
                ctx.check(lib.near(len(got), len(want)) and all(len(a) == len(b) and all(lib.near(x, y, 1e-9) for x, y in zip(a, b))
                                                                for a, b in zip(got, want)), 'printed table at step', k, d)
            ctx.hit('printed tables judged')
            markov.judge_table(ctx, chain, tables[i], 'after use')
        for j, t in enumerate(tables):
            if j != i and t is not None:
                markov.judge_table(ctx, chains[j] if direct else chains[j].markovChain, t, 'of another style')
