# -*- coding: utf-8 -*-
"""Low-level MIDI: random event sequences, written, decoded independently, read
back and written again."""
from __future__ import absolute_import, division, print_function

import io
import os

import lib
import smf

TEXTS = {'TextMetaEvent': 1, 'CopyrightMetaEvent': 2, 'TrackNameEvent': 3, 'InstrumentNameEvent': 4,
         'LyricsEvent': 5, 'MarkerEvent': 6, 'CuePointEvent': 7, 'ProgramNameEvent': 8}


def setup(ctx):
    import c01
    c01.setup(ctx)


def delta(rng):
    return rng.pick([0, 0, 1, rng.int(0, 127), 127, 128, rng.int(128, 16383), 16383, 16384, rng.int(16384, 2097151),
                     2097151, 2097152, (1 << 28) - 1 if rng.chance(0.2) else 3, rng.int(0, (1 << 28) - 1) if rng.chance(0.3) else 5])


def make(m, rng, tick):
    """-> (gsapi event, what a strict reader must find, typed values)"""
    k = rng.int(0, 18)
    ch = rng.int(0, 15)
    a, b = rng.int(0, 127), rng.int(0, 127)

    def chan(cls, status, wanted, values, **kw):
        return cls(tick=tick, channel=ch, **kw), (tick, "ch", status, ch, wanted), dict(values, channel=ch)
    if k in (0, 1):
        cls, st = rng.pick([(m.NoteOnEvent, 0x90), (m.NoteOffEvent, 0x80)])
        return chan(cls, st, [a, b], {'pitch': a, 'velocity': b}, **({'pitch': a, 'velocity': b} if k else {'data': [a, b]}))
    if k == 2:
        return chan(m.ControlChangeEvent, 0xB0, [a, b], {'control': a, 'value': b}, control=a, value=b)
    if k == 3:
        return chan(m.ProgramChangeEvent, 0xC0, [a], {'value': a}, value=a)
    if k == 4:
        return chan(m.AfterTouchEvent, 0xA0, [a, b], {'pitch': a, 'value': b}, pitch=a, value=b)
    if k == 5:
        return chan(m.ChannelAfterTouchEvent, 0xD0, [a], {'value': a}, value=a)
    if k == 6:
        v = rng.pick([0, -8192, 8191, rng.int(-8192, 8191), 127, 128, -1])
        return chan(m.PitchWheelEvent, 0xE0, [(v + 8192) & 127, (v + 8192) >> 7], {'pitch': v}, pitch=v)
    if k == 7:
        data = [rng.int(0, 127) for _ in range(rng.pick([0, 1, 5, 127, 128, 300]))] + [0xF7]
        if rng.chance(0.02):
            data = [rng.int(0, 127)] * rng.pick([16382, 16383, 33000, 66000]) + [0xF7]
        st = rng.pick([0xF0, 0xF0, 0xF7])
        e = m.SysexEvent(tick=tick, data=list(data)) if st == 0xF0 else m.SysexEvent(tick=tick, data=list(data), statusmsg=st)
        return e, (tick, 'sysex', st, data), {}
    if k in (8, 9, 10):
        name = rng.pick(sorted(TEXTS))
        data = [rng.int(32, 126) if rng.chance(0.9) else rng.int(0, 255) for _ in range(rng.pick([0, 1, 4, 20, 127, 128, 200]))]
        if rng.chance(0.01):
            data = [rng.int(32, 126)] * rng.pick([16383, 16384, 33000, 66000])
        text = ''.join(chr(c) for c in data)
        e = getattr(m, name)(tick=tick, **({'text': text} if k < 10 else {'data': list(data)}))
        return e, (tick, 'meta', TEXTS[name], data), {'text': text}
    if k == 11:
        v = rng.pick([500000, 1, 16777215, rng.int(1, 16777215), 65536, 255, 256])
        if rng.chance(0.5):
            return m.SetTempoEvent(tick=tick, mpqn=v), (tick, 'meta', 0x51, list(smf.be(v, 3))), {'mpqn': v, 'bpm': 6e7 / v}
        v = rng.int(60000, 15000000)
        return m.SetTempoEvent(tick=tick, bpm=6e7 / v), (tick, 'meta', 0x51, list(smf.be(v, 3))), {'mpqn': v, 'bpm': 6e7 / v}
    if k in (12, 13):
        n, d = rng.int(1, 99), rng.int(0, 7)
        mt, th = rng.int(0, 127), rng.int(0, 99)
        e = m.TimeSignatureEvent(tick=tick, numerator=n, denominator=2 ** d, metronome=mt, thirtyseconds=th)
        return e, (tick, 'meta', 0x58, [n, d, mt, th]), {'numerator': n, 'denominator': 2 ** d, 'metronome': mt, 'thirtyseconds': th}
    if k in (14, 15):
        n, mi = rng.int(-7, 7), rng.int(0, 1)
        e = m.KeySignatureEvent(tick=tick, alternatives=n, minor=mi)
        return e, (tick, 'meta', 0x59, [n & 0xFF, mi]), {'alternatives': n, 'minor': mi}
    if k == 16:
        kind = rng.pick([0x0A, 0x30, 0x60, 0x7E, 0x4B])
        data = [rng.int(0, 255) for _ in range(rng.pick([0, 3, 130]))]
        return m.UnknownMetaEvent(tick=tick, metacommand=kind, data=list(data)), (tick, 'meta', kind, data), {'metacommand': kind}
    if k == 17:
        cls, kind = rng.pick([(m.SequencerSpecificEvent, 0x7F), (m.SmpteOffsetEvent, 0x54), (m.PortEvent, 0x21),
                              (m.ChannelPrefixEvent, 0x20), (m.TrackLoopEvent, 0x2E), (m.SequenceNumberMetaEvent, 0)])
        data = [rng.int(0, 127) for _ in range(rng.pick([0, 1, 5]))]
        return cls(tick=tick, data=list(data)), (tick, 'meta', kind, data), {}
    a2, b2 = rng.int(0, 127), rng.int(0, 127)
    e, want, values = chan(m.NoteOnEvent, 0x90, [a2, b2], {'pitch': a2, 'velocity': b2}, pitch=a, velocity=b)
    # set after it is made, or copied from another
    if rng.chance(0.5):
        e.pitch, e.velocity = a2, b2
    else:
        e = e.copy(data=[a2, b2])
    return e, want, values


def flat(event):
    d = list(bytearray(bytearray(event.data)))
    return (type(event).__name__, event.tick, getattr(event, 'channel', None), getattr(event, 'metacommand', None), d)


def contents(pattern):
    return [[flat(e) for e in t] for t in pattern]


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    m = gs.midiio
    res = rng.pick([1, 24, 96, 220, 480, 960, 32767])
    frmt = rng.pick([0, 1, 1, 2])
    late = rng.chance(0.03)     # ticks sum up to more than 32 bits hold
    pattern = m.Pattern(resolution=res, frmt=frmt)
    want, values = [], []
    for _ in range(1 if frmt == 0 else rng.int(1, 4)):
        track, w, v = m.Track(), [], []
        same = rng.chance(0.3)
        for _ in range(rng.int(0, 14) if not late else rng.int(17, 40)):
            e, x, y = make(m, rng, delta(rng) if not late else (1 << 28) - 1)
            if same and x[1] == 'ch':
                # long runs of one status
                e.channel = 3
                x = x[:3] + (3,) + x[4:]
                y = dict(y, channel=3)
            track.append(e)
            w.append(x)
            v.append(y)
        t = delta(rng)
        track.append(m.EndOfTrackEvent(tick=t))
        w.append((t, 'meta', 0x2F, []))
        v.append({})
        pattern.append(track)
        want.append(w)
        values.append(v)
    ctx.note('tracks', res, frmt, want)
    ctx.sig(res, frmt, want)
    ctx.nontrivial = any(len(w) > 1 for w in want)
    before = contents(pattern)
    path = os.path.join(ctx.scratch, 'low.mid')
    where = rng.int(0, 1)
    if where == 0:
        m.write_midifile(path, pattern)
        ctx.files.check(ctx, 'writing')
        data = lib.read_bytes(path)
    else:
        buf = io.BytesIO()
        m.write_midifile(buf, pattern)
        data = buf.getvalue()
        lib.write_bytes(path, data)
    ctx.same(contents(pattern), before, 'events after writing them')
    try:
        d = smf.decode_file(data)
    except smf.BadFile as e:
        ctx.fail('what was written is no MIDI file:', str(e), list(bytearray(data))[:200])
    ctx.same((d['resolution'], d['format']), (res, frmt), 'header')
    norm = [[tuple(list(x) if isinstance(x, list) else x for x in e) for e in t] for t in d['tracks']]
    ctx.same(norm, want, 'what a strict reader finds')
    ctx.hit('files decoded')
    ctx.hit('events decoded', sum(len(t) for t in want))
    # read by gsapi
    again = m.read_midifile(path) if rng.chance(0.6) else m.read_midifile(io.BytesIO(data))
    ctx.files.check(ctx, 'reading')
    ctx.same((again.resolution, again.frmt), (res, frmt), 'header read')
    ctx.same(contents(again), before, 'events read')
    for track, v in zip(again, values):
        for e, val in zip(track, v):
            for k in val:
                ctx.close(getattr(e, k), val[k], k, 'of', flat(e))
                ctx.hit('typed values judged')
    buf = io.BytesIO()
    m.write_midifile(buf, again)
    ctx.check(buf.getvalue() == data, 'written again the bytes differ')
    # the same from bytes that another writer made
    mode = rng.pick([None, lambda: True, lambda: rng.chance(0.5)])
    other = m.read_midifile(io.BytesIO(smf.encode_file(want, res, frmt, b'' if rng.chance(0.8) else b'\0' * rng.pick([1, 2, 6, 100, 300]), mode)))
    ctx.same(contents(other), before, 'events read from another writer')
    buf = io.BytesIO()
    m.write_midifile(buf, other)
    ctx.check(buf.getvalue() == data, 'written after reading from another writer, the bytes differ')
    ctx.hit('round trips judged')
    ticks(ctx, m, rng, again, want)
    # what happened to ticks does not change the bytes
    buf = io.BytesIO()
    again.make_ticks_rel()
    m.write_midifile(buf, again)
    ctx.check(buf.getvalue() == data, 'after converting ticks the bytes differ')


def ticks(ctx, m, rng, pattern, want):
    """A history of conversions and slices of a pattern and its tracks."""
    modes = [True for _ in want]
    for _ in range(rng.int(2, 8)):
        op = rng.int(0, 6)
        i = rng.int(0, len(want) - 1)
        if op == 0:
            pattern.make_ticks_abs()
            modes = [False for _ in modes]
        elif op == 1:
            pattern.make_ticks_rel()
            modes = [True for _ in modes]
        elif op == 2:
            pattern[i].make_ticks_abs()
            modes[i] = False
        elif op == 3:
            pattern[i].make_ticks_rel()
            modes[i] = True
        elif op == 4:
            a, b, step = rng.int(-3, 6), rng.int(-3, 12), rng.pick([None, 1, 2, -1])
            s = slice(rng.pick([a, None]), rng.pick([b, None]), step)
            part = pattern[i][s]
            ctx.check(isinstance(part, m.Track), 'a slice of a track is a', type(part).__name__)
            ctx.check(len(part) == len(list(pattern[i])[s]) and all(x is y for x, y in zip(part, list(pattern[i])[s])),
                      'slice', s, 'has other events')
            ctx.same(bool(part.tick_relative), modes[i], 'tick mode of slice', s)
            ctx.hit('slices judged')
        elif op == 5:
            s = slice(rng.pick([None, rng.int(-2, 3)]), rng.pick([None, rng.int(-2, 5)]))
            part = pattern[s]
            ctx.check(isinstance(part, m.Pattern) and part.resolution == pattern.resolution and part.frmt == pattern.frmt and
                      part.tick_relative == pattern.tick_relative, 'a slice of a pattern loses its settings')
            ctx.check([id(t) for t in part] == [id(t) for t in list(pattern)[s]], 'slice', s, 'has other tracks')
            ctx.hit('slices judged')
        else:
            j = rng.int(0, len(pattern[i]) - 1)
            ctx.check(pattern[i][j] is list(pattern[i])[j], 'item', j)
        for t, mode, w in zip(pattern, modes, want):
            expect = [e[0] for e in w] if mode else [e[0] for e in smf.absolute(w)]
            ctx.same([e.tick for e in t], expect, 'ticks')
            ctx.same(bool(t.tick_relative), mode, 'tick mode')
        ctx.hit('tick conversions judged')
