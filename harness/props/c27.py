# -*- coding: utf-8 -*-
"""The same histories under Python 2.7 and Python 3: what every call gives is
recorded, and compared after both have run (see twins.py)."""
from __future__ import absolute_import, division, print_function

import functools
import os
import random
import sys

import c02
import c03
import gen
import lib
import markov
import session
import smf

READ = 10 * 1000 * 1000     # cases that read what the other interpreter wrote

PATTERN = ['alignOnGrid', 'applyLegato', 'copy', 'copyWithoutEvents', 'fillWithPreviousEvent', 'fillWithSilences', 'generateViewpoint',
           'activeEventsAtTime', 'getIdenticalEvents', 'getFilledWithSilences', 'lastNoteOff', 'patternFromTimeSlice',
           'getStartingEventsAtTime', 'getAllTags', 'getAllPitches', 'getPatternWithTags', 'getPatternWithPitch',
           'getPatternWithoutTags', 'quantize', 'removeByTags', 'removeEvent', 'removeOverlapped', 'reorderEvents', 'addEvent',
           'durationToLastEvent', 'durationToBar', 'splitInEqualLengthPatterns', 'timeStretch', 'transpose']
EVENT = ['hasCommonTagWith', 'hasOneOfTags', 'isTag', 'allTagsAreEqualWith', 'containsTime', 'cutInSteps']


def tag(t):
    """Tags of several names may come in any order."""
    return lib.tagkey(t)


def event(e):
    return [tag(e.tag), e.pitch, e.velocity, e.startTime, e.duration]


def order(e):
    return (round(e[3], 6), e[0], e[1], e[2], round(e[4], 6))


def value(x):
    gs = lib.load_gsapi()
    if isinstance(x, gs.gspattern.Pattern):
        m = lib.meta(x)
        if m['originFilePath']:
            m['originFilePath'] = os.path.basename(m['originFilePath'])
        return {'meta': sorted((k, lib.canon(v)) for k, v in m.items()),
                'events': sorted([event(e) for e in x.events], key=order),
                'viewpoints': sorted([str(k), value(v)] for k, v in x.viewpoints.items())}
    if isinstance(x, gs.gspattern.Event):
        return event(x)
    if isinstance(x, (list, tuple)):
        return [value(y) for y in x]
    if isinstance(x, lib.string_types + lib.int_types) or isinstance(x, (bool, float)) or x is None:
        return lib.canon(x)
    return tag(x)


def from_harness():
    """What the library itself calls may come in any order (it goes through sets)."""
    return 'gsapi' not in sys._getframe(2).f_code.co_filename.replace('\\', '/').split('/')[-2:][0]


class Recorder(object):
    """Records what the calls of the harness give."""

    def __init__(self, ctx):
        self.ctx, self.depth, self.n = ctx, 0, 0

    def log(self, what, v):
        self.ctx.log.append(('%d.%d %s' % (self.ctx.idx, self.n, what), lib.canon(v)))
        self.ctx.hit('values recorded')
        self.ctx.hit('recorded ' + what)
        self.n += 1

    def wrap(self, cls, method, state):
        original = getattr(cls, method)
        original = getattr(original, 'im_func', original)

        @functools.wraps(original)
        def wrapper(obj, *a, **k):
            self.depth += 1
            try:
                res = original(obj, *a, **k)
            finally:
                self.depth -= 1
            if self.depth == 0 and from_harness():
                v = value(res)
                if method in ('getAllTags', 'getAllPitches'):
                    v = sorted(tag(t) for t in res)
                elif method in ('activeEventsAtTime', 'getIdenticalEvents', 'getStartingEventsAtTime'):
                    v = sorted(v, key=order)
                self.log(method, [v, value(obj) if state else None])
            return res
        setattr(cls, method, wrapper)


def setup(ctx):
    gs = lib.load_gsapi()
    c02.setup(ctx)
    ctx.rec = Recorder(ctx)
    for m in PATTERN:
        ctx.rec.wrap(gs.gspattern.Pattern, m, True)
    for m in EVENT:
        ctx.rec.wrap(gs.gspattern.Event, m, False)
    ctx.x = os.path.join(ctx.scratch, 'x')
    if not os.path.isdir(ctx.x):
        os.makedirs(ctx.x)


def settle(rng, p):
    """Simultaneous events may come in another order; from here on in the same."""
    for q in [p] + list(p.viewpoints.values()):
        q.events.sort(key=lambda e: order(event(e)))
    if rng.chance(0.3):
        rng.shuffle(p.events)


OPS = session.EDITS + [(o, 2) for o in ['split', 'slice', 'overlap', 'align', 'silences', 'filled', 'legato', 'previous', 'quantize',
                                        'stretch', 'transpose', 'bar', 'with', 'without', 'pitch', 'active', 'starting', 'identical',
                                        'tags', 'set', 'add', 'remove_tags', 'last', 'duration']]


def history(ctx, rng, gs):
    s = session.Session(ctx, gs, rng, kinds=rng.pick([None, 'f', 'fs', 'ft', 'n']), big=0)
    for _ in range(rng.int(3, 12)):
        s.do(rng.weighted(OPS))
        for p in s.pool:
            settle(rng, p)
        s.pool = [p if len(p.events) < 200 else gen.pattern(gs, rng) for p in s.pool]
    ctx.nontrivial = any(p.events for p in s.pool)
    for p in s.pool:
        ctx.rec.log('printed lines', [str(p).count('\n'), len(repr(p.events[:1])) > 2])
        ctx.rec.log('equality', [p == q for q in s.pool] + [p == p.copy(), p != p.copy()])
    if rng.chance(0.5):
        saved(ctx, rng, gs, rng.pick(s.pool))


def saved(ctx, rng, gs, p):
    """Files, for this interpreter and the other."""
    p = p.copy()
    p.viewpoints.clear()
    p.name = '%d-%d' % (ctx.idx, ctx.rec.n)
    p.durationToLastEvent()
    q = p.copy()
    for e in q.events:
        e.pitch = max(0, min(127, e.pitch))
        e.velocity = max(1, min(127, e.velocity))
    if all(e.startTime >= 0 and e.endTime() * q.resolution < 1 << 27 for e in q.events):
        path = gs.gsio.toMidiFile(q, folderPath=ctx.x)
        # notes at one time may be written in any order
        ctx.rec.log('exported notes', [sorted(smf.absolute(t), key=repr_event) for t in smf.decode_file(lib.read_bytes(path))['tracks']])
        ctx.rec.log('exported bytes', len(lib.read_bytes(path)))
        loaded(ctx, gs, path)
    if all(simple(e.tag) for e in p.events):
        index, keep = rng.chance(0.5), rng.chance(0.5)
        name = rng.pick(['json', 'jsont'])
        path = gs.gsio.toJSONFile(p, ctx.x, useTagIndexing=index, nameSuffix='-' + name, conserveTuple=name == 'jsont')
        loaded(ctx, gs, path)
    ctx.hit('patterns saved')


def repr_event(e):
    return [round(e[0], 6), e[1], [list(x) if isinstance(x, (tuple, bytes, bytearray)) else x for x in e[2:]]]


def simple(t):
    return isinstance(t, lib.string_types + lib.int_types + (float,)) or isinstance(t, tuple) and all(
        isinstance(x, lib.string_types) for x in t)


def loaded(ctx, gs, path):
    name = os.path.basename(path)
    if path.endswith('.mid'):
        p = gs.gsio.fromMidiFile(path)
    elif path.endswith('.json') and '-json' in name:
        p = gs.gsio.fromJSONFile(path, conserveTuple='-jsont' in name)
    else:
        s = gs.gsstyles.MarkovStyle(1, 4)
        s.loadFromJSON(path)
        ctx.log.append(('read ' + name, style_value(ctx, s)))
        return
    ctx.log.append(('read ' + name, lib.canon(value(p))))
    ctx.hit('files read')


def style_value(ctx, style):
    c = style.markovChain
    out = []
    for k in range(c.numSteps):
        t = markov.read(ctx, c, k)
        out.append(sorted([[tag_set(s) for s in past], sorted([tag_set(s), x] for s, x in d.items())] for past, d in t.items()))
    return lib.canon([c.order, c.numSteps, c.loopDuration, out])


def styles(ctx, rng, gs):
    numSteps, loopDuration = rng.pick([(16, 4), (8, 4), (4, 4), (8, 2), (12, 3), (5, 4)])
    order_ = rng.int(1, min(3, numSteps - 1))
    style = gs.gsstyles.MarkovStyle(order=order_, numSteps=numSteps, loopDuration=loopDuration)
    pats = markov.loops(gs, rng, numSteps, loopDuration, rng.pick(markov.POOLS), rng.int(1, 4))
    ctx.note('learn', order_, numSteps, loopDuration, [lib.evs(p.events) for p in pats])
    ctx.sig([lib.evs(p.events) for p in pats])
    ctx.nontrivial = any(p.events for p in pats)
    style.generateStyle(pats)
    ctx.rec.log('style', style_value(ctx, style))
    repr(style.markovChain)
    c = style.markovChain
    k = rng.int(0, numSteps - 1)
    ctx.rec.log('states', [sorted(map(tag_set, c.getAllPossibleStatesAtStep(k))), sorted(map(tag_set, c.getPossibleOutStatesAtStep(k)))])
    if len(pats) == 1 and order_ < numSteps:
        # one loop may leave no choice
        p = pats[0]
        table = markov.count(pats, order_, numSteps, loopDuration)
        if all(len(d) == 1 for t in table for d in t.values()):
            ctx.rec.log('generated', sorted([tag(e.tag), e.startTime, e.duration] for e in style.generatePattern(3).events))
    path = os.path.join(ctx.x, '%d-style.json' % ctx.idx)
    if all(simple(e.tag) for p in pats for e in p.events):
        style.saveToJSON(path)
        loaded(ctx, gs, path)


def tag_set(state):
    return sorted(tag(t) + '' for t in state)


def imports(ctx, rng, gs):
    data = c02.make_file(rng, nested=rng.pick([None, False]), names=c03.NAMES + ['Kick Bass', ''])
    path = os.path.join(ctx.scratch, 'in.mid')
    lib.write_bytes(path, data)
    notes = smf.import_model(smf.decode_file(data))['notes']
    ctx.nontrivial = bool(notes)
    ctx.sig(list(bytearray(data)))
    for _ in range(rng.int(1, 3)):
        kw = {}
        if rng.chance(0.4):
            kw['noteToTagMap'] = c03.mapping(rng, notes) if notes and rng.chance(0.8) else gs.gsdefs.simpleDrumMap
            if rng.chance(0.2) and all(isinstance(t, lib.string_types) for t in kw['noteToTagMap']):
                kw['tagFromTrackName'] = True
        if rng.chance(0.3):
            kw['checkForOverlapped'] = True
        if rng.chance(0.2):
            kw['filterOutNotMapped'] = False
        if kw.get('tagFromTrackName'):
            kw.pop('filterOutNotMapped', None)
        ctx.note('import', sorted(kw))
        q = gs.gsio.fromMidiFile(path, **kw)
        for e in q.events:
            if isinstance(e.tag, tuple):
                e.tag = tuple(sorted(e.tag, key=lib.tagkey))
        ctx.rec.log('imported', value(q))
        settle(rng, q)
    m = gs.midiio.read_midifile(path)
    ctx.rec.log('events', [[[type(e).__name__, e.tick] + [int(x) for x in e.data] for e in t] for t in m])
    out = os.path.join(ctx.scratch, 'out.mid')
    gs.midiio.write_midifile(out, m)
    ctx.rec.log('written', list(bytearray(lib.read_bytes(out))))
    typed = []
    for t in m:
        for e in t:
            for a in ('pitch', 'velocity', 'value', 'control', 'bpm', 'mpqn', 'numerator', 'denominator', 'alternatives', 'minor', 'text',
                      'channel', 'metronome', 'thirtyseconds'):
                if hasattr(type(e), a) or a in getattr(e, '__dict__', {}) or a == 'channel' and hasattr(e, a):
                    typed.append([type(e).__name__, a, lib.canon(getattr(e, a))])
    ctx.rec.log('typed values', typed)
    saved(ctx, rng, gs, q)


def analyses(ctx, rng, gs):
    D, T = gs.gsdescriptors, gs.gstransformers
    p = gen.pattern(gs, rng, kinds=rng.pick(['f', 'fs', 'ft']), n=rng.int(0, 10))
    ctx.note('pattern', gen.show(p))
    ctx.sig(lib.evs(p.events))
    ctx.nontrivial = bool(p.events)
    for d in (D.Density(), D.Density(ignoredTags=['a']), D.NumberOfTags(), D.NumberOfTags(includedTags=['a', 'Kick'])):
        ctx.rec.log(type(d).__name__, d.getDescriptorForPattern(p))
    for kw in ({}, {'forceMajMin': True}, {'allowDuplicates': True}):
        x = D.Chord(**kw).getDescriptorForPattern(p)
        # (several equally good chords: any of them alone)
        best = D.Chord(**dict(kw, allowDuplicates=True)).getDescriptorForPattern(p)
        ctx.rec.log('chords', sorted(map(tag, best)) if isinstance(best, list) else tag(best))
        if not isinstance(best, list) or len(best) == 1:
            ctx.rec.log('chord', tag(x) if not isinstance(x, list) else sorted(map(tag, x)))
    q = p.copy()
    q.duration = rng.pick([1, 2, 4, 8])
    q.events = [e for e in q.events if e.endTime() <= q.duration]
    ctx.rec.log('syncopation', D.Syncopation().getDescriptorForPattern(q))
    ctx.rec.log('space', lib.canon(gs.gsextractors.DensityDrumSpace().getFeatureSpace(q)))
    p.generateViewpoint('density', descriptor=D.Density(), sliceType=rng.pick([1, 2, 3, 'all', 'perEvent']))
    c = T.Chordify(p).transformPattern() if rng.chance(0.5) else T.Chordify(p).outputPattern
    if c is not None:
        ctx.rec.log('chordified', sorted([e.startTime, e.duration, sorted(map(tag, e.tag)) if isinstance(e.tag, tuple) else tag(e.tag),
                                          sorted([x[0], x[1]] for x in e.components)] for e in c.events))
    settle(rng, p)
    # densities that leave no choice
    n = 16
    loop = markov.loops(gs, rng, n, 4, ['a', 'b', 'Kick'], 1)[0]
    m = T.AgnosticDensity(mode=rng.pick(['random', 'hysteresis', 'syncopation']), numSteps=n)
    m.configure({'inputPattern': loop})
    for _ in range(3):
        tags = sorted(set(e.tag for e in loop.events))
        wanted = dict((t, rng.pick([0, 1, 2])) for t in tags)
        res = m.transformPattern(None, {'normalizedDensities': wanted})
        ctx.rec.log('densities', sorted([tag(e.tag), e.startTime, e.duration] for e in res.events))


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    if idx >= READ:
        return reading(ctx, gs)
    ctx.rec.n = 0
    ctx.rec.depth = 0
    random.seed(5)
    kind = rng.weighted([(history, 5), (imports, 3), (styles, 2), (analyses, 3)])
    ctx.hit('cases of ' + kind.__name__)
    kind(ctx, rng, gs)


def reading(ctx, gs):
    """What the twin wrote."""
    here = os.path.basename(ctx.scratch)
    other = ('jython' if here.startswith('cpython') else 'cpython') + ''.join(c for c in here if c.isdigit())
    folder = os.path.join(os.path.dirname(ctx.scratch), other, 'x')
    names = sorted(os.listdir(folder))
    ctx.nontrivial = bool(names)
    ctx.sig(names)
    for name in names:
        try:
            loaded(ctx, gs, os.path.join(folder, name))
        except Exception as e:
            ctx.log.append(('read ' + name, 'raises %s' % type(e).__name__))
