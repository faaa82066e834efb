"""Equality, list access and printed forms of events and patterns."""
from __future__ import absolute_import, division, print_function


import sys

import gen
import lib

FIELDS = ['startTime', 'duration', 'pitch', 'velocity', 'tag']
TEXT = type(u'')


class Always(object):
    """Knows itself how to compare with anything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class Buffer(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s if isinstance(s, TEXT) else s.decode('utf-8'))
        return len(s)

    def flush(self):
        pass

    def text(self):
        return TEXT('').join(self.parts)


def printed(f):
    old, sys.stdout = sys.stdout, Buffer()
    try:
        f()
        return sys.stdout.text()
    finally:
        sys.stdout = old


def fields(e):
    return [getattr(e, f) for f in FIELDS]


def equal_events(a, b):
    return all(x == y for x, y in zip(fields(a), fields(b)))


def laws(ctx, a, b, want, what):
    for x, y in ((a, b), (b, a)):
        ctx.check((x == y) is want, what, '== is', x == y, 'for', show(x), 'and', show(y))
        ctx.check((x != y) is (not want), what, '!= is', x != y, 'for', show(x), 'and', show(y))


def show(x):
    return lib.ev(x) if hasattr(x, 'velocity') else lib.evs(x.events) if hasattr(x, 'events') else x


def strangers(ctx, x, others):
    for o in others:
        ctx.check(not (x == o) and not (o == x) and x != o and o != x, show(x), 'counts as equal to', o)
    a = Always()
    ctx.check(x == a and a == x and not (x != a), 'an object that compares itself is not asked')
    ctx.hit('comparisons with other objects')


def one_event(ctx, rng, gs, times, pool):
    e = gs.gspattern.Event(startTime=times.at(rng, 8), duration=times.len(rng, 4), pitch=rng.int(0, 127),
                           velocity=rng.int(0, 127), tag=rng.pick(pool))
    return e


def test_events(ctx, rng, gs):
    E = gs.gspattern.Event
    times, pool = gen.Times(rng), gen.tags(rng, rng.pick(['f', 'ft', 'ftn', 'n', 'ftd']))
    e = one_event(ctx, rng, gs, times, pool)
    ctx.note('event', lib.ev(e))
    ctx.sig(lib.ev(e))
    laws(ctx, e, e, True, 'itself:')
    twin = E(*[e.startTime, e.duration, e.pitch, e.velocity, e.tag])
    twin.originPattern = gs.gspattern.Pattern()
    laws(ctx, e, twin, True, 'same values:')
    laws(ctx, e, e.copy(), True, 'copy:')
    chord = gs.gstransformers.EventChord(e.startTime, e.duration, rng.pick([None, [[1, 2]]]), e.tag)
    chord.pitch, chord.velocity = e.pitch, e.velocity
    laws(ctx, e, chord, True, 'a chord of the same values:')
    kinds = rng.pick([float, lambda x: x])
    laws(ctx, e, E(kinds(e.startTime), kinds(e.duration), kinds(e.pitch), kinds(e.velocity), e.tag), True, 'same numbers:')
    k = rng.int(0, len(FIELDS) - 1)
    other = e.copy()
    old = getattr(e, FIELDS[k])
    if FIELDS[k] == 'tag':
        new = rng.pick([t for t in pool + ['other', (old,), (old, old), [old] and (), None, 'silence'] if t != old])
    else:
        new = old + rng.pick([1, -1, 0.25, 1.0 / 1024, 128, 2.0 ** -20, -2.0 ** -30, 1e-9])
    setattr(other, FIELDS[k], new)
    laws(ctx, e, other, False, 'another %s:' % FIELDS[k])
    a, b = one_event(ctx, rng, gs, times, pool), one_event(ctx, rng, gs, times, pool)
    for f in rng.some(FIELDS, 0, 5):
        setattr(b, f, getattr(a, f))
    laws(ctx, a, b, equal_events(a, b), 'two events:')
    strangers(ctx, e, [None, e.tag, e.pitch, tuple(fields(e)), fields(e), repr(e), gs.gspattern.Pattern(events=[e]), object()])
    ctx.hit('event equalities judged', 6)

    # how tags are kept
    items = rng.some(pool, 0, 3)
    ctx.same(E(tag=list(items)).tag, tuple(items), 'an event tagged with a list')
    box = rng.pick([set(['q']), {'a': 1}])
    ctx.same(E(tag=box).tag, (box,), 'an event tagged with an unhashable')
    tag = rng.pick(pool)
    ctx.check(E(tag=tag).tag is tag, 'an event tagged with', tag, 'has tag', E(tag=tag).tag)
    d = E()
    ctx.same(fields(d), [0, 1, 60, 80, ()], 'an event of default values')
    ctx.check(d.originPattern is None, 'a new event has an origin')

    # questions to an event
    s, n = e.startTime, e.duration
    ctx.same(e.endTime(), s + n, 'end of', lib.ev(e))
    for t in [s, s + n, s - 1.0 / 512, s + n - n / 4, s + n / 2, s + n + 1, times.at(rng, 10), 0]:
        ctx.check(e.containsTime(t) is (s <= t < s + n), lib.ev(e), 'contains', t, 'is', e.containsTime(t))
    for f in (lambda t: e.isTag(t), lambda t: e.allTagsAreEqualWith(E(tag=t))):
        for t in pool + [e.tag, (e.tag,), 'zz']:
            ctx.check(bool(f(t)) is (e.tag == t), 'tag', t, 'is the tag of', lib.ev(e), ':', f(t))
    tags = [rng.pick(pool + ['zz'] + (list(e.tag) if isinstance(e.tag, tuple) else [e.tag])) for _ in range(rng.int(0, 4))]
    want = any(t == e.tag or isinstance(e.tag, tuple) and t in e.tag for t in tags)
    for given in (tags, tuple(tags)):
        ctx.check(bool(e.hasOneOfTags(given)) is want, 'one of', given, 'is a tag of', lib.ev(e), ':', e.hasOneOfTags(given))
    ctx.hit('questions to events judged', 12)

    # cutting into steps
    step = rng.pick([0.25, 0.5, 1, 0.125, 2, 1.5])
    e.startTime, e.duration = rng.int(0, 64) / 16, rng.int(1, 96) / 32
    e.originPattern = rng.pick([None, gs.gspattern.Pattern()])
    before = (fields(e), e.originPattern)
    cut = e.cutInSteps(step)
    n = max(1, int(e.duration // step))
    ctx.same([fields(c) for c in cut], [[e.startTime + i * step, step, e.pitch, e.velocity, e.tag] for i in range(n)],
             lib.ev(e), 'cut in steps of', step)
    ctx.check(all(c is not e for c in cut) and len(set(map(id, cut))) == n, 'cuts are not events of their own')
    ctx.check((fields(e), e.originPattern) == before, 'cutting changes the event')
    ctx.hit('cuts judged')
    ctx.nontrivial = True


def test_patterns(ctx, rng, gs):
    P = gs.gspattern.Pattern
    p = gen.pattern(gs, rng, rng.pick(['f', 'ft', 'ftn', 'fs']), viewpoints=rng.pick([0, 0, 1]))
    ctx.note('pattern', gen.show(p))
    ctx.sig(gen.show(p))
    q = p.copy()
    laws(ctx, p, p, True, 'itself:')
    laws(ctx, p, q, True, 'copy:')
    # what a pattern is called, where it comes from, how fast it is: not what it plays
    q.name, q.originFilePath, q.bpm, q.key, q.resolution = 'other', 'elsewhere', q.bpm + 1, 'G', 7
    q.viewpoints = {}
    laws(ctx, p, q, True, 'other settings:')
    k = rng.int(0, 5)
    if k == 0:
        q.duration += rng.pick([1, 0.25, -1.0 / 1024, 2.0 ** -30])
    elif k == 1:
        q.timeSignature = tuple([q.timeSignature[0] + 1, q.timeSignature[1]][:]) if rng.chance(0.5) else \
            (q.timeSignature[0], q.timeSignature[1] * 2)
    elif k == 2:
        q.startTime += 1
    elif k == 3 and q.events:
        q.events.pop(rng.int(0, len(q.events) - 1))
    elif k == 4 and q.events:
        e = rng.pick(q.events)
        f = rng.pick(FIELDS)
        setattr(e, f, 'another' if f == 'tag' else getattr(e, f) + rng.pick([1, 2.0 ** -20]))
    elif k == 5 and len(q.events) > 1 and not equal_events(q.events[0], q.events[-1]):
        q.events[0], q.events[-1] = q.events[-1], q.events[0]
    else:
        q.events.append(gs.gspattern.Event(tag='more'))
    laws(ctx, p, q, False, 'another value (%d):' % k)
    strangers(ctx, p, [None, p.events, p.duration, tuple(p.events), 'x', gs.gspattern.Event(), 0])
    ctx.hit('pattern equalities judged', 3)

    # a pattern as the list of its events
    events = p.events
    n = len(events)
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    ctx.check(len(p) == n and bool(p) == bool(events), 'length', len(p), 'of', n, 'events')
    ctx.check(same(list(p), events) and same([e for e in p], events) and same(list(reversed(p)), events[::-1]),
              'iterating gives other events')
    for i in range(-n, n):
        ctx.check(p[i] is events[i], 'event', i, 'is', lib.ev(p[i]))
    for i in (n, -n - 1):
        try:
            p[i]
        except IndexError:
            pass
        else:
            ctx.fail('there is an event', i, 'of', n)
    cut = slice(rng.pick([None, rng.int(-4, 8)]), rng.pick([None, rng.int(-4, 8)]), rng.pick([None, 1, 2, -1]))
    ctx.check(same(p[cut], events[cut]), 'events', cut, 'are', lib.evs(p[cut]))
    new = gs.gspattern.Event(tag='new', startTime=0.5)
    ctx.check((new in p) == any(equal_events(new, e) for e in events), 'in')
    if n:
        e = rng.pick(events)
        ctx.check(e in p and e.copy() in p, 'an event of the pattern is not in it')
        i = rng.int(-n, n - 1)
        model = list(events)
        meta = lib.meta(p)
        model[i] = new
        p[i] = new
        ctx.check(same(p.events, model) and lib.meta(p) == meta, 'setting event', i, 'gives', lib.evs(p.events))
        events = p.events
    try:
        p[n] = new
    except IndexError:
        pass
    else:
        ctx.fail('event', n, 'of', n, 'can be set')
    ctx.check(same(p.events, events) and len(p) == n, 'a failed setting changes the events')
    ctx.same(gs.gspattern.patternToList(p), [[e.pitch, e.startTime, e.duration] for e in p.events], 'patternToList')
    ctx.hit('list access judged')

    # a new pattern has what it is given
    ctx.same(lib.evs(P(duration=4, events=events).events), lib.evs(events), 'events of a new pattern')
    given = dict(duration=p.duration, bpm=p.bpm, timeSignature=p.timeSignature, key=p.key, originFilePath=p.originFilePath,
                 name=p.name)
    made = P(**given)
    for f in sorted(given):
        ctx.same(getattr(made, f), given[f], f, 'of a new pattern')
    x = P()
    ctx.check([x.duration, x.events, x.bpm, x.timeSignature, x.key, x.originFilePath, x.name, x.startTime, x.viewpoints] ==
              [0, [], 120, (4, 4), None, None, None, 0, {}], 'a pattern of default values has', vars(x))
    ctx.check(P().events is not x.events and P().viewpoints is not x.viewpoints, 'two new patterns share something')

    # the printed form
    before = lib.snap(p)
    text = rng.pick([str, repr])(p)
    head, _, body = text.partition('\n\n')
    shown = {}
    for line in head.split('\n'):
        name, sep, value = line.partition(': ')
        ctx.check(sep and name not in shown, 'printed header line', line)
        shown[name] = value
    ctx.same(shown, {'Name': str(p.name), 'Duration': '%.2f' % p.duration, 'BPM': '%.2f' % p.bpm,
                     'TimeSignature': '%d/%d' % tuple(p.timeSignature), 'Key': str(p.key), 'FilePath': str(p.originFilePath)},
             'printed header')
    lines = body.split('\n')
    ctx.check(len(lines) == n + 1 and lines[-1] == '', 'printed', len(lines) - 1, 'lines for', n, 'events')
    for e, line in zip(p.events, lines):
        line_of(ctx, e, line)
        line_of(ctx, e, rng.pick([str, repr])(e))
    ctx.check(lib.snap(p) == before, 'printing changes the pattern')
    ctx.hit('printed patterns judged')
    ctx.hit('printed events judged', n)
    ctx.nontrivial = ctx.nontrivial or n > 0


def line_of(ctx, e, line):
    parts = line.rsplit(' ', 4)
    ctx.check(len(parts) == 5 and parts[0] == str(e.tag), 'printed event', line, 'does not begin with tag', e.tag)
    ctx.check(parts[1] == str(int(e.pitch)) and parts[2] == str(int(e.velocity)), 'printed event', line, 'for', lib.ev(e))
    for got, want in ((parts[3], e.startTime), (parts[4], e.duration)):
        ctx.check(abs(float(got) - want) <= 0.00005001, 'printed event', line, 'for', lib.ev(e))


def test_grid(ctx, rng, gs):
    """Rows of notes that follow each other per tag, at times of the grid and between."""
    pool = gen.tags(rng, rng.pick(['f', 'fs', 'ft', 'ftn', 'n', 'd']))
    rng.shuffle(pool)
    unit = rng.pick([0.25, 0.125, 0.5, 1 / 16, 1 / 64])
    total = rng.int(1, 24) if rng.chance(0.95) else rng.pick([257, 600])
    events, rows = [], {}
    for t in pool:
        if any(t == u for u in rows):
            continue
        at = 0
        row = rows[t] = []
        for _ in range(rng.int(1, 6) if total < 100 else rng.int(80, 250)):
            start = at + rng.pick([0, 0, 1, 2, 3])
            length = rng.int(1, 6)
            if start >= total:
                break
            row.append((start * unit, (start + length) * unit))
            events.append(gs.gspattern.Event(start * unit, length * unit, rng.int(0, 127), rng.int(1, 127), t))
            at = start + length
        if not row:
            del rows[t]
    if rng.chance(0.5):
        rng.shuffle(events)
    p = gs.gspattern.Pattern(duration=total * unit, events=events)
    block = rng.pick([unit, unit, 2 * unit, unit / 2, 1])
    ctx.note('grid', total * unit, block, lib.evs(events))
    ctx.sig(total, unit, block, lib.evs(events))
    before = lib.snap(p)
    text = printed(lambda: p.printASCIIGrid(block) if block != 1 or rng.chance(0.5) else p.printASCIIGrid())
    ctx.check(lib.snap(p) == before, 'printing the grid changes the pattern')
    lines = text.split('\n')
    want = []
    for t in rows:
        cells, last = '', None
        for i in range(int(total * unit / block)):
            time = i * block
            now = [x for x in rows[t] if x[0] <= time < x[1]]
            if not now or t == 'silence' or isinstance(t, tuple) and 'silence' in t:
                cells, last = cells + '-', None
            else:
                cells, last = cells + ('>' if last == now[0] else '|'), now[0]
        want.append('[%s]: %s' % (cells, t if not isinstance(t, tuple) else str(t)))
    ctx.check(lines and lines[-1] == '' and sorted(lines[:-1]) == sorted(want), 'grid in steps of', block, 'is', lines, 'not', want)
    ctx.hit('grids judged')
    ctx.hit('grid rows judged', len(want))
    ctx.nontrivial = ctx.nontrivial or bool(want)


def test_midi(ctx, rng, gs):
    """What prints as a MIDI event, track or pattern is Python that makes the same again."""
    m = gs.midiio

    def data(n):
        return [rng.int(0, 127) for _ in range(n)]

    def event():
        tick = rng.pick([0, 1, 96, 220, 100000])
        k = rng.int(0, 8)
        if k <= 3:
            cls = rng.pick([m.NoteOnEvent, m.NoteOffEvent, m.AfterTouchEvent, m.ControlChangeEvent, m.PitchWheelEvent])
            return cls(tick=tick, channel=rng.int(0, 15), data=data(2))
        if k == 4:
            return rng.pick([m.ProgramChangeEvent, m.ChannelAfterTouchEvent])(tick=tick, channel=rng.int(0, 15), data=data(1))
        if k == 5:
            cls = rng.pick([m.TextMetaEvent, m.CopyrightMetaEvent, m.TrackNameEvent, m.InstrumentNameEvent, m.LyricsEvent,
                            m.MarkerEvent, m.CuePointEvent, m.ProgramNameEvent])
            text = ''.join(rng.pick('ab \'"\\\n%\t') for _ in range(rng.pick([rng.int(0, 12), 30, 130])))
            return cls(tick=tick, text=text) if rng.chance(0.5) else cls(tick=tick, data=[ord(c) for c in text])
        if k == 6:
            return m.UnknownMetaEvent(tick=tick, metacommand=rng.pick([0x0A, 0x60, 0x7E]), data=data(rng.pick([rng.int(0, 5), 60])))
        if k == 7:
            return m.SysexEvent(tick=tick, data=data(rng.pick([rng.int(0, 6), 40, 300])))
        return rng.pick([lambda: m.SetTempoEvent(tick=tick, bpm=rng.pick([60, 120, 97.5])),
                         lambda: m.TimeSignatureEvent(tick=tick, data=[3, 2, 24, 8]),
                         lambda: m.KeySignatureEvent(tick=tick, data=[254, 1]),
                         lambda: m.EndOfTrackEvent(tick=tick), lambda: m.PortEvent(tick=tick, data=[1]),
                         lambda: m.SequenceNumberMetaEvent(tick=tick, data=[0, 3])])()

    def form(e):
        return [type(e), sorted((k, v) for k, v in vars(e).items())]

    pattern = m.Pattern(frmt=rng.pick([0, 1, 1, 2]), resolution=rng.pick([96, 220, 480, 960]),
                        tracks=[m.Track([event() for _ in range(rng.int(0, 8))]) for _ in range(rng.int(0, 4))])
    ctx.note('printed', repr(pattern))
    ctx.sig(repr(pattern))
    names = {'midi': m}
    again = eval(repr(pattern), names)
    ctx.check(type(again) is m.Pattern and again.frmt == pattern.frmt and again.resolution == pattern.resolution and
              len(again) == len(pattern), 'the printed pattern reads back with other settings:', repr(again))
    for a, b in zip(pattern, again):
        ctx.check(type(b) is m.Track and [form(e) for e in a] == [form(e) for e in b], 'a printed track reads back as', repr(b))
        c = eval(repr(a), names)
        ctx.check(type(c) is m.Track and [form(e) for e in a] == [form(e) for e in c], 'a printed track reads back as', repr(c))
        for e in a:
            x = eval(repr(e), names)
            ctx.check(form(x) == form(e), 'event', repr(e), 'reads back as', repr(x))
            ctx.hit('printed MIDI events read back')
            if hasattr(e, 'copy'):
                x = e.copy()
                ctx.check(form(x) == form(e) and x is not e, 'the copy of', repr(e), 'is', repr(x))
                was = repr(e)
                x.data.append(1)
                x.data[0] = 99
                x.tick += 1
                ctx.check(repr(e) == was, 'changing the copy of', was, 'gives', repr(e))
                y = e.copy(tick=7)
                ctx.check(y.tick == 7 and [f for f in form(y)[1] if f[0] != 'tick'] == [f for f in form(e)[1] if f[0] != 'tick'],
                          'the copy at tick 7 of', repr(e), 'is', repr(y))
            ctx.nontrivial = True


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    k = idx % 4
    [test_events, test_patterns, test_grid, test_midi][k](ctx, rng, gs)
