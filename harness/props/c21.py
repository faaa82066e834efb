from __future__ import absolute_import, division, print_function

import json
import os

import gen
import lib
import markov


def setup(ctx):
    import c01
    c01.setup(ctx)


def handed(gs, style, new, how, path, ctx):
    if how == 'json':
        style.saveToJSON(path)
        data = lib.read_bytes(path)
        try:
            json.loads(data.decode('utf-8'))
        except ValueError as e:
            ctx.fail('the saved style is not complete JSON:', str(e))
        new.loadFromJSON(path)
        ctx.check(lib.read_bytes(path) == data, 'loading changes the file')
    elif how == 'pickle':
        style.saveToPickle(path)
        new.loadFromPickle(path)
    elif how == 'state':
        new.setInternalState(style.getInternalState())
    else:
        new.setInternalState(json.loads(json.dumps(style.getInternalState())))


def markov_case(ctx, gs, rng):
    numSteps = rng.pick([16, 8, 4, 5, 3, 2, 12])
    loopDuration = rng.pick([4, 4, 2, 8, 1, 3, 2.5, 0.5, 7.75])
    order = rng.int(1, min(4, numSteps - 1))
    style = gs.gsstyles.MarkovStyle(order=order, numSteps=numSteps, loopDuration=loopDuration)
    pats = markov.loops(gs, rng, numSteps, loopDuration, rng.pick(markov.POOLS), rng.int(1, 6))
    ctx.note('style', order, numSteps, loopDuration, [lib.evs(p.events) for p in pats])
    ctx.sig(order, numSteps, [lib.evs(p.events) for p in pats])
    ctx.nontrivial = any(p.events for p in pats)
    before = [lib.snap(p) for p in pats]
    style.generateStyle(pats)
    table = markov.count(pats, order, numSteps, loopDuration)
    styles = [(style, table, (order, numSteps, loopDuration))]
    for _ in range(rng.int(1, 4)):
        src, table, (order, numSteps, loopDuration) = rng.pick(styles)
        new = gs.gsstyles.MarkovStyle(order=rng.int(1, 4), numSteps=rng.pick([16, 8, 7]), loopDuration=rng.pick([4, 2, 3]))
        if rng.chance(0.4):
            # into a style that knows something else
            c = new.markovChain
            new.generateStyle(markov.loops(gs, rng, c.numSteps, c.loopDuration, ['old', 'older'], 2))
        how = rng.pick(['json', 'pickle', 'state', 'state via json'])
        path = os.path.join(ctx.scratch, rng.pick(['s1', 's2.json', 's3']))
        ctx.note(how)
        handed(gs, src, new, how, path, ctx)
        c = new.markovChain
        ctx.same((c.order, c.numSteps, c.loopDuration), (order, numSteps, loopDuration), 'settings restored by', how)
        ctx.check(bool(new.isBuilt()), 'restored by', how, 'it does not count as built')
        markov.judge_table(ctx, c, table, 'restored by %s' % how)
        markov.judge_table(ctx, src.markovChain, table, 'of the saved style after saving by %s' % how)
        for _ in range(rng.int(1, 4)):
            seed = rng.int(0, 999)
            p = new.generatePattern(seed)
            markov.judge_generated(ctx, p, table, order, numSteps, loopDuration, what='restored by %s' % how)
        ctx.hit('restored by ' + how)
        styles.append((new, table, (order, numSteps, loopDuration)))
        if rng.chance(0.3):
            # learning again, in one of them only
            k = rng.int(0, len(styles) - 1)
            s, _, (o, n, d) = styles[k]
            pats2 = markov.loops(gs, rng, n, d, ['n1', 'n2'], rng.int(1, 3))
            s.generateStyle(pats2)
            styles[k] = (s, markov.count(pats2, o, n, d), (o, n, d))
            for s, t, _ in styles:
                markov.judge_table(ctx, s.markovChain, t, 'after one style learned again')
            ctx.hit('independence judged')
    ctx.same([lib.snap(p) for p in pats], before, 'learned loops after saving')


def value(p):
    m = lib.meta(p)
    m.pop('originFilePath')
    m.pop('resolution')
    return (sorted((k, lib.canon(v)) for k, v in m.items()), sorted((lib.tagkey(e[4]),) + e[:4] for e in lib.evs(p.events)),
            sorted((k, value(v)) for k, v in p.viewpoints.items()))


def database_case(ctx, gs, rng):
    pats = []
    for i in range(rng.int(1, 5) if rng.chance(0.93) else 0):
        p = gen.pattern(gs, rng, kinds=rng.pick(['f', 't', 'ft', 'fs', 'n']), viewpoints=rng.weighted([(0, 3), (1, 1)]))
        last = max([e.endTime() for e in p.events] + [0])
        p.duration = max(p.duration, last)
        pats.append(p)
        if rng.chance(0.2):
            pats.insert(rng.int(0, len(pats)), rng.pick([p, p.copy()]))     # once more
    ctx.note('database', [gen.show(p) for p in pats])
    ctx.sig([lib.evs(p.events) for p in pats])
    ctx.nontrivial = any(p.events for p in pats)
    style = gs.gsstyles.DatabaseStyle()
    style.generateStyle(list(pats))
    want = [value(p) for p in pats]
    for how in rng.some(['json', 'pickle', 'state', 'state via json'], 1, 2):
        new = gs.gsstyles.DatabaseStyle(generatePatternOrdering=rng.pick(['indexed', 'increasing', 'random']))
        if rng.chance(0.3):
            new.generateStyle([gen.pattern(gs, rng)])
        ordering = new.generatePatternOrdering if how != 'pickle' else style.generatePatternOrdering
        handed(gs, style, new, how, os.path.join(ctx.scratch, 'db'), ctx)
        ctx.same([value(p) for p in new.patternList], want, 'patterns restored by', how)
        ctx.check(bool(new.isBuilt()) == bool(pats), 'restored by', how, 'it counts as built' if not pats else 'it does not count as built')
        ctx.same([value(p) for p in pats], want, 'patterns after saving by', how)
        ctx.check(len(style.patternList) == len(pats) and all(a is b for a, b in zip(style.patternList, pats)),
                  'the saved style has other patterns after saving by', how)
        if not pats:
            ctx.hit('empty databases restored')
        elif ordering == 'increasing':
            ctx.same([value(new.generatePattern()) for _ in pats], want, 'patterns generated in order')
        else:
            seed = rng.int(0, 99)
            got = value(new.generatePattern(seed))
            ctx.check(got in want, 'generated', got)
            ctx.same(value(new.generatePattern(seed)), got, 'generated with one seed')
        ctx.hit('database restored by ' + how)


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    if rng.chance(0.7):
        markov_case(ctx, gs, rng)
    else:
        database_case(ctx, gs, rng)
    ctx.files.check(ctx, 'saving or loading')
