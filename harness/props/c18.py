from __future__ import absolute_import, division, print_function

import contracts
import gen
import lib


def recorder(gs):
    class Recorder(gs.gsdescriptors.BaseDescriptor):
        """Its value is what it was shown."""

        def __init__(self):
            gs.gsdescriptors.BaseDescriptor.__init__(self)
            self.seen = []

        def getDescriptorForPattern(self, pattern):
            self.seen.append(lib.evs(pattern.events))
            return ('value', len(self.seen) - 1)
    return Recorder()


def value_of(gs, d, duration, events):
    """The descriptor's value for exactly these events."""
    p = gs.gspattern.Pattern(duration, [gs.gspattern.Event(*e) for e in events])
    return d.getDescriptorForPattern(p)


def expected_slices(p, sliceType):
    """(start, duration or None, events)"""
    events, duration = lib.evs(p.events), p.duration
    out = []
    if sliceType == 'all':
        return [(p.startTime, duration, events)] if events else []
    if sliceType == 'perEvent':
        for t in sorted(set(e[0] for e in events)):
            active = [e for e in events if e[0] <= t < e[0] + e[1]]
            out.append((t, max(e[0] + e[1] for e in active) - t, active))
        return out
    n = int(-(-duration // sliceType))
    for k in range(n):
        f = contracts.fragments(events, k, sliceType)
        if f:
            out.append((k * sliceType, sliceType, f))
    return out


def viewpoint(ctx, gs, rng, p):
    name = rng.pick(['a', 'chords', 'density', 'x'])
    sliceType = rng.pick([1, 2, 4, 3, 'perEvent', 'perEvent', 'all'])
    D = gs.gsdescriptors
    kind = rng.int(0, 4)
    d = [recorder(gs), D.Density(), D.NumberOfTags(), D.Chord(), None][kind]
    before = sorted(lib.evs(p.events), key=lib._key)
    others = dict((k, id(v)) for k, v in p.viewpoints.items() if k != name)
    if d is None:
        name = 'chords'
        others = dict((k, id(v)) for k, v in p.viewpoints.items() if k != name)
        if rng.chance(0.5):
            res, sliceType = p.generateViewpoint('chords'), 4
        else:
            res = p.generateViewpoint('chords', sliceType=sliceType)
        d = D.Chord()
    else:
        res = p.generateViewpoint(name, descriptor=d, sliceType=sliceType)
    what = 'viewpoint %s by %r with %s' % (name, sliceType, type(d).__name__)
    ctx.note(what)
    ctx.check(sorted(lib.evs(p.events), key=lib._key) == before, what, 'changes the notes to', lib.evs(p.events))
    v = p.viewpoints[name]
    ctx.check(res is v, what, 'returns something else than what is stored')
    ctx.check(v.name == name and v.originPattern is p, what, 'is named', v.name, 'or not linked to its pattern')
    now = dict((k, id(x)) for k, x in p.viewpoints.items() if k != name)
    ctx.same(now, others, 'other viewpoints after', what)
    want = expected_slices(p, sliceType)
    got = lib.evs(v.events)
    ctx.same([lib.canon(e[0]) for e in got], [lib.canon(w[0]) for w in want], 'starts of', what, 'on', before)
    for i, (start, length, events) in enumerate(want):
        ctx.close(got[i][1], length, 'duration of event %d of' % i, what, 'on', before)
        tag = got[i][4]
        if type(d).__name__ == 'Recorder':
            ctx.check(isinstance(tag, tuple) and tag[0] == 'value', what, 'has tag', tag)
            seen = d.seen[tag[1]]
            at = [e for e in seen]
            if sliceType in ('perEvent', 'all'):
                ok = lib.same_events(at, events) or lib.same_events(at, [(e[0] - start,) + e[1:] for e in events])
            else:
                ok = lib.same_events(at, events)
            ctx.check(ok, what, 'event %d was computed for' % i, at, 'instead of', events)
        elif sliceType != 'all' or True:
            expected = value_of(gs, d, length, events)
            if type(d).__name__ == 'Chord' and isinstance(expected, tuple):
                import c17
                c = c17.chromas(events, length)
                types = gs.gsdefs.chordTypes
                best = max(c17.score(c, r, types[k], length) for r in range(12) for k in types)
                ctx.check(isinstance(tag, tuple) and tag[0] in gen.NAMES and
                          abs(c17.score(c, gen.NAMES.index(tag[0]), types[tag[1]], length) - best) < 1e-6,
                          what, 'event %d is' % i, tag, 'for', events)
            else:
                ctx.check(lib.near(tag, expected), what, 'event %d is' % i, tag, 'instead of', expected, 'for', events)
        ctx.hit('slices judged')
    for e in v.events:
        if e.originPattern is not None and sliceType != 'all':
            ctx.check(e.originPattern is not p, what, 'an event comes from the whole pattern')
    for k in ('bpm', 'key', 'resolution'):
        ctx.same(getattr(v, k), getattr(p, k), k, 'of', what)
    ctx.close(v.duration, p.duration, 'duration of', what)
    ctx.hit('judged viewpoints')


def chordify(ctx, gs, rng, p):
    before = sorted(lib.evs(p.events), key=lib._key)
    dur = p.duration
    c = gs.gstransformers.Chordify(p)
    ctx.note('Chordify')
    ctx.check(sorted(lib.evs(p.events), key=lib._key) == before and p.duration == dur, 'Chordify changes its input')
    starts = sorted(set(e[0] for e in before))
    for events in (c.outputPattern.events, c.events):
        ctx.same([e.startTime for e in events], starts, 'onsets of the chords of', before)
        for e in events:
            active = [b for b in before if b[0] <= e.startTime < b[0] + b[1]]
            ctx.same(sorted([x[0], x[1]] for x in e.components), sorted([b[2], b[3]] for b in active),
                     'components of the chord at', e.startTime, 'of', before)
            tags = []
            for b in active:
                tags += list(b[4]) if isinstance(b[4], tuple) else [b[4]]
            ctx.same(sorted(map(lib.tagkey, e.tag)), sorted(map(lib.tagkey, tags)), 'tags of the chord at', e.startTime,
                     'of', before)
            here = [b for b in before if b[0] == e.startTime]
            ctx.check(any(lib.near(e.duration, b[1]) for b in here), 'the chord at', e.startTime, 'lasts', e.duration)
    ctx.same(c.numChords, len(starts), 'number of chords')
    ctx.hit('judged Chordify')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    times = gen.Times(rng, rng.pick('qsku'))
    p = gen.pattern(gs, rng, kinds=rng.pick(['f', 'ft', 'fs', 'n']), duration=rng.pick([1, 2, 4, 8, 3, 6, 5.5]),
                    times=times, n=rng.int(0, 12), maxlen=rng.pick([0.5, 1, 4, 8]))
    p.startTime = rng.pick([0, 0, 0, 4, 1.5])
    ctx.note('pattern', gen.show(p))
    ctx.sig(lib.evs(p.events))
    for _ in range(rng.int(2, 5)):
        if rng.chance(0.75):
            viewpoint(ctx, gs, rng, p)
        else:
            chordify(ctx, gs, rng, p)
        if p.events and rng.chance(0.5):
            r = rng.int(0, 5)
            if r == 0:
                rng.shuffle(p.events)
            elif r == 1:
                p.events.pop(rng.int(0, len(p.events) - 1))
            elif r == 2:
                rng.pick(p.events).pitch = rng.int(30, 90)
            elif r == 3:
                p.addEvent(gs.gspattern.Event(rng.pick([0, p.duration - 0.5, p.duration]), rng.pick([0.5, 1, 3]),
                                              rng.int(30, 90), rng.int(1, 127), rng.pick(p.events).tag))
            elif r == 4:
                p.bpm, p.key = rng.pick([50, 77]), rng.pick(['D', 'Em'])
                p.timeSignature = rng.pick([(9, 8), (4, 4)])
            else:
                e = rng.pick(p.events)
                e.duration = e.duration / 2
            ctx.note('edit', lib.evs(p.events))
    ctx.sig(ctx.trace)
    ctx.nontrivial = len(p.events) > 0
