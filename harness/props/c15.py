from __future__ import absolute_import, division, print_function

import os
import random

import gen
import lib
import session


def deep(p):
    """All that can be reached from a pattern, values only, order of events left aside."""
    m, events, views = lib.snap(p)
    return (m, sorted((lib.tagkey(e[4]),) + e[:4] + (e[4],) for e in events) if False else sorted(events, key=lib._key),
            [(k, deep(v)) for k, v in sorted(p.viewpoints.items())],
            [None if e.originPattern is None else deep(e.originPattern) for e in sorted(p.events, key=lambda e: lib._key(lib.ev(e)))
             if e.originPattern is not p and e.originPattern is not None])


def tables(gs):
    d = gs.gsdefs
    out = dict((k, repr(sorted(v.items(), key=str) if isinstance(v, dict) else v)) for k, v in sorted(vars(d).items())
               if isinstance(v, (dict, list)) and not k.startswith('__'))
    out['profiles'] = repr(sorted(gs.gsdescriptors.Chord.allProfiles.items()))
    return out


def spoil(rng, p):
    """Changes everything that can be changed."""
    for e in p.events:
        e.startTime += 1
        e.duration *= 2
        e.pitch += 1
        e.velocity = 1
        e.tag = 'spoilt'
    p.events.append(p.events[0] if p.events else None)
    p.events[:] = p.events[1:]
    p.duration += 7
    p.bpm, p.key, p.name, p.startTime, p.resolution = 1, 'B', 'spoilt', 99, 1
    if isinstance(p.timeSignature, list):
        p.timeSignature[0] += 1
    p.timeSignature = (9, 16)
    p.originFilePath = 'spoilt'
    for v in p.viewpoints.values():
        if v.events:
            v.events[0].tag = 'spoilt'
        v.events[:] = v.events[:1]
        v.duration = 99
    p.viewpoints['spoilt'] = p


def analyses(ctx, gs, rng, p):
    """name -> callable; none of them may change p"""
    D, T, S = gs.gsdescriptors, gs.gstransformers, gs.gsstyles
    here = os.path.join(ctx.scratch, 'c15')
    steps = 16

    def chordify():
        T.Chordify(p).outputPattern.events[:1]

    def density():
        a = T.AgnosticDensity(numSteps=steps, mode=rng.pick(['random', 'hysteresis']))
        tags = sorted(p.getAllTags(), key=lib.tagkey)
        for _ in range(3):
            r = a.transformPattern(p, {'normalizedDensities': dict((t, rng.pick([0, 0.5, 1.5, 2])) for t in tags)})
            spoil(rng, r)

    def configured():
        a = T.AgnosticDensity(numSteps=steps)
        a.configure({'inputPattern': p})
        r = a.transformPattern(None, {'normalizedDensities': {}})
        spoil(rng, r)

    def markov():
        m = S.MarkovStyle(order=rng.int(1, 2), numSteps=steps, loopDuration=p.duration)
        q = p.copy()
        q.events[:] = q.events[:rng.int(0, len(q.events))]
        given = rng.shuffle([p, q, p][:rng.int(2, 3)])
        loops = list(given)
        m.generateStyle(loops)
        ctx.check(len(loops) == len(given) and all(a is b for a, b in zip(loops, given)), 'learning changes the list given')
        g = m.generatePattern(seed=rng.int(0, 99))
        spoil(rng, g)
        m.generatePattern(seed=3)

    def database():
        m = S.DatabaseStyle()
        m.generateStyle([p])
        state = m.getInternalState()
        state['patternList'][0]['eventList'] and state['patternList'][0]['eventList'][0].update(pitch=-5)
        state['patternList'][0]['timeInfo']['duration'] = -1

    def slices():
        for q in p.splitInEqualLengthPatterns(rng.pick([1, 0.5, 3]), supressEmptyPattern=False):
            spoil(rng, q)

    def piece():
        spoil(rng, p.patternFromTimeSlice(0, p.duration, trimEnd=rng.chance(0.5)))

    def viewpoint():
        q = p.copy()
        q.generateViewpoint('v', descriptor=rng.pick([D.Density(), D.NumberOfTags(), D.Chord()]),
                            sliceType=rng.pick([1, 2, 'perEvent', 'all']))

    def own_viewpoint():
        views = dict(p.viewpoints)
        p.generateViewpoint('mine', descriptor=rng.pick([D.Density(), D.NumberOfTags(), D.Chord()]),
                            sliceType=rng.pick([1, 2, 'perEvent']))
        p.viewpoints.clear()
        p.viewpoints.update(views)

    def midi():
        if all(0 <= e.pitch < 128 for e in p.events):
            key, p_key = p.key, p.key
            gs.gsio.toMidiFile(p, folderPath=here, name='x')
            gs.gsio.toMidiFile(p, midiMap={'a': 36, 'Kick': [38]}, folderPath=here, name='y')

    def json_():
        gs.gsio.toJSONFile(p, here, useTagIndexing=rng.chance(0.5), conserveTuple=rng.chance(0.5))

    def pickle_():
        spoil(rng, gs.gsio.fromPickleFile(gs.gsio.toPickleFile(p, here)))

    def select():
        t = session.any_tag(rng, p)
        for q in (p.getPatternWithTags(t, exactSearch=False), p.getPatternWithoutTags(t), p.getPatternWithPitch(60),
                  p.getPatternWithTags(lambda x: True), p.getFilledWithSilences(perTag=False)):
            spoil(rng, q)

    def queries():
        p.getAllTags()
        p.getAllPitches().append(1)
        p.activeEventsAtTime(0).append(1)
        p.getStartingEventsAtTime(0).append(1)
        p.lastNoteOff()
        len(p)
        repr(p)
        p == p.copy()
        gs.gspattern.patternToList(p).append(1)

    def describe():
        for d in (D.Density(), D.NumberOfTags(), D.Chord(), D.Chord(allowDuplicates=True), D.Chord(forceMajMin=True),
                  D.Syncopation(), D.Density(includedTags=['a']), gs.gsextractors.DensityDrumSpace()):
            (d.getFeatureSpace if hasattr(d, 'getFeatureSpace') else d.getDescriptorForPattern)(p)

    def structure():
        spoil(rng, p.copyWithoutEvents())

    return {'Chordify': chordify, 'AgnosticDensity': density, 'AgnosticDensity.configure': configured,
            'MarkovStyle': markov, 'DatabaseStyle': database, 'split': slices, 'slice': piece,
            'viewpoint of a copy': viewpoint, 'viewpoint': own_viewpoint, 'toMidiFile': midi, 'toJSONFile': json_,
            'pickle': pickle_, 'selections': select, 'queries': queries, 'descriptors': describe,
            'copyWithoutEvents': structure}


def setup(ctx):
    ctx.tables = tables(lib.load_gsapi())


def copies(ctx, gs, rng, p):
    before = deep(p)
    c = p.copy()
    ctx.check(deep(c) == before, 'a copy differs: got', deep(c), 'expected', before)
    ctx.check(p == c and not p != c, 'a copy is not equal to its source')
    mine = set(id(e) for e in p.events) | set(id(e) for v in p.viewpoints.values() for e in v.events)
    theirs = set(id(e) for e in c.events) | set(id(e) for v in c.viewpoints.values() for e in v.events)
    ctx.check(not mine & theirs, 'a copy shares events with its source')
    for k, v in c.viewpoints.items():
        ctx.check(v is not p.viewpoints[k], 'a copy shares viewpoint', k)
        if p.viewpoints[k].originPattern is p:
            ctx.check(v.originPattern is c, 'viewpoint', k, 'of the copy belongs to another pattern')
    d = p.copy()
    spoil(rng, c)
    ctx.check(deep(p) == before, 'changing a copy changes its source:', deep(p), 'was', before)
    spoil(rng, p)
    ctx.check(deep(d) == before, 'changing a pattern changes its copy:', deep(d), 'was', before)
    ctx.hit('copies judged')


def event_copies(ctx, gs, rng, p):
    for e in p.events[:4]:
        before = lib.ev(e)
        c = e.copy()
        ctx.check(lib.ev(c) == before and c == e and c is not e and type(c) is type(e), 'event copy differs', lib.ev(c))
        c.startTime, c.tag, c.pitch = 99, 'spoilt', 1
        ctx.same(lib.ev(e), before, 'event after changing its copy')
        c = e.copy()
        for x in e.cutInSteps(0.25):
            x.startTime, x.tag = 99, 'spoilt'
        ctx.same(lib.ev(e), before, 'event after cutting it')
        e.duration += 1
        ctx.same(lib.ev(c), before, 'event copy after changing its source')
        e.duration = before[1]


def structures(ctx, gs, rng, p):
    c = p.copyWithoutEvents()
    ctx.same(c.events, [], 'events of a structure copy')
    ctx.same(lib.meta(c), lib.meta(p), 'settings of a structure copy')
    ctx.check(c.timeSignature == p.timeSignature, 'the time signature of a structure copy is', c.timeSignature, 'of', p.timeSignature)
    ctx.check(c.events is not p.events and c.viewpoints is not p.viewpoints, 'a structure copy shares containers')
    c2 = p.copyWithoutEvents()
    n = len(p.events)
    c.addEvent(gs.gspattern.Event(0, 99))
    ctx.check(len(p.events) == n and not c2.events and p.duration < 99 or p.duration >= 99,
              'adding to a structure copy shows elsewhere')
    ctx.hit('structures judged')


def separate(ctx, gs, rng):
    """Objects made separately share nothing."""
    P, E, D, S, T = gs.gspattern.Pattern, gs.gspattern.Event, gs.gsdescriptors, gs.gsstyles, gs.gstransformers
    a, b = P(), P()
    a.addEvent(E(0, 3, tag='one'))
    a.viewpoints['v'] = P()
    a.timeSignature = (3, 4)
    ctx.check(not b.events and not b.viewpoints and b.duration == 0 and tuple(b.timeSignature) == (4, 4),
              'two new patterns share state')
    c = P()
    ctx.check(not c.events and not c.viewpoints and c.duration == 0, 'a new pattern is not empty')
    tag_sets = [D.Density(), D.Density(), D.NumberOfTags(), D.NumberOfTags()]
    probe = P(4, [E(0, 1, tag='silence'), E(1, 1, tag='a'), E(2, 1, tag='b')])
    want = [t.getDescriptorForPattern(probe) for t in tag_sets]
    ctx.same([lib.canon(w) for w in want], [2, 2, 2, 2], 'descriptors made separately')
    tag_sets[0].ignoredTags.append('a')
    tag_sets[2].ignoredTags.append('b')
    ctx.same([t.getDescriptorForPattern(probe) for t in tag_sets[1::2]], want[1::2], 'descriptors after changing another')
    ctx.same(D.Density().getDescriptorForPattern(probe), 2, 'a new descriptor after changing another')
    own = ['a']
    d = D.Density(ignoredTags=own)
    d.getDescriptorForPattern(probe)
    ctx.same(own, ['a'], 'the list of ignored tags given')
    e, f = E(tag=()), E(tag=())
    e.tag += ('x',)
    ctx.same(f.tag, (), 'tag of another event')
    m, n = S.MarkovStyle(1, 4, 4), S.MarkovStyle(1, 4, 4)
    m.generateStyle([P(4, [E(0, 1, tag='a')])])
    ctx.check(m.isBuilt() and not n.isBuilt() and not S.MarkovStyle().isBuilt(), 'two styles share what was learned')
    x, y = S.DatabaseStyle(), S.DatabaseStyle()
    x.generateStyle([a])
    ctx.check(x.isBuilt() and not y.isBuilt(), 'two database styles share patterns')
    u, v = T.AgnosticDensity(numSteps=4), T.AgnosticDensity(numSteps=4)
    u.configure({'inputPattern': probe})
    ctx.check(v.transformPattern(None, {}) is None, 'two transformers share patterns')
    k, l = T.EventChord(), T.EventChord()
    k.components.append([1, 2])
    ctx.same(l.components, [], 'components of another chord event')
    ctx.same(gs.midiio.Track(), [], 'a new track')
    t = gs.midiio.Track()
    t.append(1)
    pat = gs.midiio.Pattern()
    pat.append(t)
    ctx.check(not gs.midiio.Track() and not gs.midiio.Pattern(), 'MIDI containers share state')
    ctx.hit('separate objects judged')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    random.seed(idx)
    kinds = rng.pick(['f', 'fs', 'ft', 'f'])
    p = gen.pattern(gs, rng, kinds=kinds, n=rng.int(1, 10), duration=rng.pick([4, 8, 2, 4.0]),
                    times=gen.Times(rng, rng.pick('qqsku')), viewpoints=rng.weighted([(0, 2), (1, 2), (2, 1)]),
                    pitches=[rng.int(20, 100) for _ in range(3)])
    if rng.chance(0.5):
        p.key = 'Am'
    if p.key == '' or p.key is None:
        p.key = 'C'
    if not p.events:
        return
    if rng.chance(0.3):
        p.timeSignature = list(p.timeSignature)
    if rng.chance(0.3):
        p.generateViewpoint('real', descriptor=gs.gsdescriptors.Density(), sliceType=rng.pick([1, 'perEvent']))
    ctx.note('pattern', gen.show(p))
    ctx.sig(lib.evs(p.events))
    if rng.chance(0.2):
        separate(ctx, gs, rng)
    event_copies(ctx, gs, rng, p)
    structures(ctx, gs, rng, p)
    todo = analyses(ctx, gs, rng, p)
    for name in rng.some(sorted(todo), 3, 7):
        before = deep(p)
        owners = [(id(e), lib.ev(e)) for e in p.events]
        ctx.note(name)
        todo[name]()
        after = deep(p)
        ctx.check(after == before, name, 'changes its input:', after, 'was', before)
        ctx.check(sorted(o[0] for o in owners) == sorted(map(id, p.events)), name, 'replaces the events of its input')
        ctx.hit('analysis ' + name)
    now = tables(gs)
    for k, v in ctx.tables.items():
        ctx.check(now.get(k) == v, 'the table', k, 'changed to', now.get(k))
    copies(ctx, gs, rng, p)
    ctx.nontrivial = True
