# -*- coding: utf-8 -*-
"""Work on separate objects in several threads, against the same work alone."""
from __future__ import absolute_import, division, print_function

import os
import random
import shutil

import baton
import c02
import c03
import gen
import lib
import markov

if not lib.JAVA:
    import bass

LIBRARY = os.path.realpath(os.path.join(lib.REPO, 'gsapi')) + os.sep


def event(e):
    return [lib.tagkey(e.tag), lib.canon(e.pitch), lib.canon(e.velocity), lib.canon(e.startTime), lib.canon(e.duration)]


def value(p):
    m = lib.meta(p)
    m['originFilePath'] = os.path.basename(m['originFilePath'] or '')
    return [sorted((k, lib.canon(v)) for k, v in m.items()), sorted([event(e) for e in p.events], key=str),
            sorted([str(k), value(v)] for k, v in p.viewpoints.items())]


def table(ctx, chain):
    out = []
    for k in range(chain.numSteps):
        m, ins, outs = chain.getMatrixAtStep(k)
        out.append(sorted([[sorted(map(lib.tagkey, s)) for s in i], sorted([sorted(map(lib.tagkey, o)), lib.canon(x)]
                  for o, x in zip(outs, row) if x)] for i, row in zip(ins, m)))
    return [chain.order, chain.numSteps, lib.canon(chain.loopDuration), out]


def tags(x):
    return sorted(map(lib.tagkey, x)) if isinstance(x, list) else lib.tagkey(x)


class Work(object):
    """One thread's work: a function of its random numbers and folder only."""

    def __init__(self, gs, seed, folder, shared, kinds):
        self.gs, self.seed, self.folder, self.shared = gs, seed, folder, shared
        self.log, self.kinds = [], kinds

    def __call__(self):
        rng = lib.Rng('work', self.seed)
        self.log = []
        for name in rng.some(self.kinds, 1, 3):
            for v in KINDS[name](self, rng, self.gs):
                self.log.append([name, lib.canon(v)])
        return self.log

    def own(self, rng, **kw):
        kw.setdefault('kinds', rng.pick(['f', 'fs', 'ft']))
        p = gen.pattern(self.gs, rng, times=gen.Times(rng, rng.pick('qs')), pitches=[rng.int(20, 100) for _ in range(4)], **kw)
        p.name = 'own%d' % self.seed
        p.key = p.key or 'C'
        return p


def midi(w, rng, gs):
    p = w.own(rng, n=rng.int(1, 6))
    kw = rng.pick([{}, {'midiMap': {'a': 36, 'Kick': 38, 'ab': [40]}}])
    path = gs.gsio.toMidiFile(p, folderPath=w.folder, name='m%d.mid' % w.seed, **kw)
    yield list(bytearray(lib.read_bytes(path)))
    yield value(gs.gsio.fromMidiFile(path, **rng.pick([{}, {'noteToTagMap': gs.gsdefs.simpleDrumMap, 'filterOutNotMapped': False},
                                                       {'checkForOverlapped': True}])))


def imports(w, rng, gs):
    data = c02.make_file(rng, nested=False)
    path = os.path.join(w.folder, 'i%d.mid' % w.seed)
    if not os.path.isdir(w.folder):
        try:
            os.makedirs(w.folder)
        except OSError:
            pass
    lib.write_bytes(path, data)
    mapping = {}
    for pitch in range(30, 90):
        mapping['t%d' % (pitch % 7)] = mapping.get('t%d' % (pitch % 7), []) + [(pitch, rng.pick(['*', 1, 2]))]
    if w.shared and rng.chance(0.5):
        mapping, path = w.shared['mapping'], rng.pick([path, w.shared['file']])
    yield value(gs.gsio.fromMidiFile(path, noteToTagMap=mapping))
    m = gs.midiio.read_midifile(path)
    yield [[[type(e).__name__, e.tick] + [int(x) for x in e.data] for e in t] for t in m]
    out = os.path.join(w.folder, 'o%d.mid' % w.seed)
    gs.midiio.write_midifile(out, m)
    yield list(bytearray(lib.read_bytes(out)))


def files(w, rng, gs):
    p = w.own(rng, n=rng.int(1, 5), viewpoints=rng.int(0, 1))
    suffix = 's%d' % w.seed
    path = gs.gsio.toJSONFile(p, w.folder, nameSuffix=suffix, useTagIndexing=rng.chance(0.5), conserveTuple=True)
    yield value(gs.gsio.fromJSONFile(path, conserveTuple=True))
    for _ in range(rng.int(0, 2)):
        yield value(gs.gsio.fromPickleFile(gs.gsio.toPickleFile(p, w.folder, nameSuffix=suffix)))


def edits(w, rng, gs):
    p = w.own(rng, n=rng.int(2, 8), duration=rng.pick([2, 4]))
    for _ in range(rng.int(1, 3)):
        k = rng.int(0, 9)
        if k == 0:
            p.removeOverlapped(usePitchValues=rng.chance(0.5))
        elif k == 1:
            p.alignOnGrid(rng.pick([1, 0.5, 0.25]))
        elif k == 2:
            p.fillWithSilences(maxSilenceTime=rng.pick([0, 1]), perTag=rng.chance(0.5))
        elif k == 3:
            p.applyLegato(rng.chance(0.5))
        elif k == 4:
            p.quantize(rng.pick([0.25, 0.5]), rng.chance(0.5))
        elif k == 5:
            p.timeStretch(rng.pick([2, 0.5]))
        elif k == 6:
            p.transpose(rng.int(-5, 5))
        elif k == 7:
            p.fillWithPreviousEvent()
        elif k == 8:
            p.durationToBar()
        else:
            p.removeByTags(rng.pick(['a', 'b', 'Kick']))
        yield value(p)


def pieces(w, rng, gs):
    p = w.own(rng, n=rng.int(2, 8))
    yield [value(q) for q in p.splitInEqualLengthPatterns(rng.pick([1, 2, 3]), supressEmptyPattern=rng.chance(0.5))]
    yield value(p.patternFromTimeSlice(rng.pick([0, 0.5, 1]), rng.pick([1, 2]), trimEnd=rng.chance(0.5)))
    yield sorted(map(lib.tagkey, p.getAllTags()))
    for t in ('a', 'Kick', ('C', 'maj')):
        yield [value(p.getPatternWithTags(t, exactSearch=rng.chance(0.5))), value(p.getPatternWithoutTags(t))]
    yield value(p.getFilledWithSilences(perTag=rng.chance(0.5)))
    yield [[event(e) for e in p.activeEventsAtTime(t)] for t in (0, 1, 1.5)]


def describe(w, rng, gs):
    D = gs.gsdescriptors
    p = w.own(rng, n=rng.int(2, 8), duration=4)
    ds = w.shared['descriptors'] if w.shared and rng.chance(0.8) else [
        D.Density(), D.NumberOfTags(), D.Syncopation(), D.Chord(allowDuplicates=True),
        D.Chord(forceMajMin=True, allowDuplicates=True), D.Density(includedTags=['a', 'Kick'])]
    for d in rng.some(ds, 1, 4):
        for q in [p] + p.splitInEqualLengthPatterns(rng.pick([1, 2])):
            x = d.getDescriptorForPattern(q)
            yield tags(x) if isinstance(x, (list, tuple)) else x
    if rng.chance(0.2):
        yield sorted(gs.gsextractors.DensityDrumSpace().getFeatureSpace(p).items())


def viewpoints(w, rng, gs):
    D = gs.gsdescriptors
    p = w.own(rng, n=rng.int(2, 6), duration=4)
    p.generateViewpoint('v', descriptor=rng.pick([D.Density(), D.NumberOfTags()]), sliceType=rng.pick([1, 2, 'perEvent', 'all']))
    yield value(p)
    q = w.own(rng, n=rng.int(2, 6), duration=4)
    c = gs.gstransformers.Chordify(q)
    yield [[e.startTime, e.duration, sorted(x[:2] for x in e.components), sorted(map(lib.tagkey, e.tag))] for e in c.events]


def styles(w, rng, gs):
    S = gs.gsstyles
    if w.shared and rng.chance(0.5):
        s, n = w.shared['style'], 8
    else:
        n = rng.pick([4, 8])
        s = S.MarkovStyle(order=rng.int(1, 2), numSteps=n, loopDuration=4)
        loops = markov.loops(gs, rng, n, 4, rng.pick([['a', 'b', 'c'], ['Kick', 'Snare'], ['x', 'y']]), rng.int(1, 3))
        s.generateStyle(loops)
        yield table(None, s.markovChain)
    for _ in range(rng.int(1, 2)):
        yield value(s.generatePattern(rng.int(0, 99)))
    path = os.path.join(w.folder, 'st%d' % w.seed)
    if not os.path.isdir(w.folder):
        try:
            os.makedirs(w.folder)
        except OSError:
            pass
    t = S.MarkovStyle()
    if rng.chance(0.5):
        s.saveToJSON(path)
        t.loadFromJSON(path)
    else:
        s.saveToPickle(path)
        t.loadFromPickle(path)
    yield table(None, t.markovChain)


def database(w, rng, gs):
    s = gs.gsstyles.DatabaseStyle(rng.pick(['random', 'indexed']))
    s.generateStyle([w.own(rng, n=rng.int(1, 3)) for _ in range(4)])
    for _ in range(2):
        yield value(s.generatePattern(rng.int(0, 99)))
    t = gs.gsstyles.DatabaseStyle()
    t.setInternalState(s.getInternalState())
    yield [value(p) for p in t.patternList]


def densities(w, rng, gs):
    loop = markov.loops(gs, rng, 8, 4, ['a', 'b', 'Kick'], 1, 0.5)[0]
    names = sorted(set(e.tag for e in loop.events))
    m = gs.gstransformers.AgnosticDensity(mode=rng.pick(['random', 'hysteresis']), numSteps=8)
    m.configure({'inputPattern': loop})
    for _ in range(2):
        asked = dict((t, rng.pick([0, 0.5, 1, 2])) for t in names)
        res = m.transformPattern(None, {'normalizedDensities': asked})
        yield sorted([lib.tagkey(e.tag), e.startTime if asked[e.tag] != 0.5 else 0] for e in res.events)


def datasets(w, rng, gs):
    folder = os.path.join(w.folder, 'd%d' % w.seed)
    for k in range(rng.int(1, 2)):
        gs.gsio.toMidiFile(w.own(rng, n=rng.int(1, 4)), folderPath=folder, name='f%d.mid' % k)
    d = gs.gsdataset.Dataset(midiFolder=folder, midiMap=rng.pick(['pitchName', gs.gsdefs.simpleDrumMap]))
    yield sorted([value(p) for p in d.patterns], key=str)
    yield sorted([value(p) for p in d.getAllSliceOfDuration(2)], key=str)
    yield sorted(os.path.basename(f) for f in gs.gsutil.search_files(folder, '.mid'))


def names(w, rng, gs):
    U = gs.gsutil
    yield [U.pitch2name(k, gs.gsdefs.defaultPitchNames) for k in range(40, 80, 7)]
    yield [U.pc2note(k, alt) for k in range(0, 12, 3) for alt in '#b']
    yield [U.pc2base40(k, '#') for k in range(12)]


def basslines(w, rng, gs):
    bm = gs.bassmine
    m = bm.MarkovModel(16)
    pool, kicks = rng.some(range(16), 1, 4), [8, 4, 0]
    c = bass.Counts()
    for _ in range(2):
        s = bass.sequence(rng, pool, 4)
        k = bass.sequence(rng, kicks, 4)
        m.add_temporal(s)
        m.add_interlocking(k, s)
        c.interlocking(k, s)
        c.temporal(s)
    m.normalize_model()
    yield [m.get_initial().tolist(), m.get_temporal().tolist(), m.get_interlocking().tolist()]
    target = gs.gspattern.Pattern(4)
    target.events = [gs.gspattern.Event(t, 0.25, 36, 100, 'Kick') for t in bass.onsets(k)]
    folder = w.folder + '/b%d/' % w.seed
    if not os.path.isdir(folder):
        os.makedirs(folder)
    if any(k):
        yield repr(bm.constrainMM(m, target, folder))
    yield repr(m.rhythm_model(folder))


KINDS = {'midi': midi, 'imports': imports, 'files': files, 'edits': edits, 'pieces': pieces, 'describe': describe,
         'viewpoints': viewpoints, 'styles': styles, 'database': database, 'densities': densities, 'datasets': datasets, 'names': names}
if not lib.JAVA:
    KINDS['basslines'] = basslines


def make_shared(ctx, gs, rng):
    """What several threads use at once without changing it (patterns are not: even saving one sorts it)."""
    style = gs.gsstyles.MarkovStyle(order=1, numSteps=8, loopDuration=4)
    style.generateStyle(markov.loops(gs, rng, 8, 4, ['a', 'b'], 4))
    path = os.path.join(ctx.scratch, 'shared.mid')
    lib.write_bytes(path, c02.make_file(rng, nested=False))
    D = gs.gsdescriptors
    return {'style': style, 'file': path,
            'mapping': {'low': [(k, '*') for k in range(60)], 'high': [(k, '*') for k in range(60, 128)]},
            'descriptors': [D.Density(), D.NumberOfTags(), D.Chord(allowDuplicates=True), D.Density(ignoredTags=['a'])]}


def frozen(shared):
    return [table(None, shared['style'].markovChain), sorted(shared['mapping'].items()),
            list(bytearray(lib.read_bytes(shared['file'])))] if shared else None


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    random.seed(idx)
    shared = make_shared(ctx, gs, rng) if rng.chance(0.6) else None
    n = rng.pick([2, 2, 3, 4])
    same = rng.chance(0.3)
    kinds = rng.some(sorted(KINDS), 1, rng.pick([1, 1, 2])) if rng.chance(0.7) else sorted(KINDS)
    seeds = [rng.int(0, 10 ** 6)] * n if same else [rng.int(0, 10 ** 6) for _ in range(n)]
    base = os.path.join(ctx.scratch, 't')
    shutil.rmtree(base, ignore_errors=True)
    if rng.chance(0.3):
        base = os.path.relpath(base)
    before = frozen(shared)
    # alone
    alone, lines = [], baton.Lines(LIBRARY)
    for k, s in enumerate(seeds):
        work = Work(gs, s, os.path.join(base, 'alone%d' % k), shared, kinds)
        out = baton.Outcome(work) if lib.JAVA else lines.run(work)
        if out.error is not None:
            ctx.fail('work alone raised', out.trace)
        alone.append(out.value)
        ctx.sig(s, [x[0] for x in out.value])
    ctx.note('work', [[x[0] for x in a] for a in alone], 'shared' if shared else 'separate')
    # all together, some into one folder that none of them has made yet
    together = not same and rng.chance(0.5)
    for turn in range(2):
        works = [Work(gs, s, os.path.join(base, 'all%d' % turn) if together else os.path.join(base, 'w%d-%d' % (turn, k)), shared, kinds)
                 for k, s in enumerate(seeds)]
        how = rng.int(0, 3)
        if how == 0 or lib.JAVA:    # (Jython calls trace functions one at a time, but runs threads at once)
            outs, b = baton.together(works, 1e-6), None
            what = 'at once'
        else:
            points = rng.some(sorted(lines.seen), 1, 4) if how == 1 and lines.seen else ()
            b = baton.Baton(rng, LIBRARY, None if points and rng.chance(0.5) else rng.pick([1, 2, 3, 10, 10, 40, 200]), points)
            outs = b.run(works)
            what = 'interleaved'
            ctx.hit('switches', b.switches)
            ctx.hit('distinct switch sites', len(b.sites))
            ctx.sig(b.switches, sorted((os.path.basename(f), n) for f, n in b.sites))
        ctx.note(what, 'in one folder' if together else 'in own folders')
        for k, out in enumerate(outs):
            if out is None:
                ctx.fail('thread', k, 'of', what, 'ended without a result')
            if out.error is not None:
                ctx.fail('work', k, what, 'raised', out.trace[-1500:], 'but not alone')
            for a, c in zip(alone[k], out.value):
                ctx.check(a == c, what, 'with other threads', a[0], 'gave', c[1], 'but alone', a[1])
            ctx.same(len(out.value), len(alone[k]), 'results')
            ctx.hit('results compared', len(out.value))
            for x in out.value:
                ctx.hit('threads with ' + x[0])
        ctx.check(frozen(shared) == before, 'what was only read changed')
        ctx.hit('schedules ' + what)
    ctx.nontrivial = True
