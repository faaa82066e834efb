# -*- coding: utf-8 -*-
"""Import of random well-formed MIDI files, against an independent decoder."""
from __future__ import absolute_import, division, print_function

import os

import gen
import lib
import smf


def random_track(rng, res, span, chans, pitches, density, controllers=True, wild=True):
    """Absolute events, note-ons always closed or left hanging on purpose."""
    out = []
    step = rng.pick([1, max(1, res // 4), max(1, res // 8), res])
    for _ in range(density):
        t = rng.int(0, max(1, span // step)) * step
        ch, pitch = rng.pick(chans), rng.pick(pitches)
        n = rng.int(1, 4) * step
        on = (t, 'ch', 0x90, ch, [pitch, rng.int(1, 127)])
        out.append(on)
        if rng.chance(0.94):
            off = (t + n, 'ch', 0x90, ch, [pitch, 0]) if rng.chance(0.4) else (t + n, 'ch', 0x80, ch, [pitch, rng.int(0, 127)])
            out.append(off)
    if controllers:
        for _ in range(rng.int(0, 6)):
            t = rng.int(0, span)
            st = rng.pick([0xA0, 0xB0, 0xC0, 0xD0, 0xE0])
            out.append((t, 'ch', st, rng.pick(chans), [rng.int(0, 127) for _ in range(smf.DATA_LEN[st])]))
    if wild:
        for _ in range(rng.int(0, 3)):
            t = rng.int(0, span)
            if rng.chance(0.5):
                out.append((t, 'sysex', rng.pick([0xF0, 0xF7]), [rng.int(0, 127) for _ in range(rng.int(0, 200))] + [0xF7]))
            else:
                kind = rng.pick([0x01, 0x02, 0x04, 0x05, 0x06, 0x07, 0x08, 0x20, 0x21, 0x7F, 0x60, 0x54, 0x00, 0x2E])
                out.append((t, 'meta', kind, [rng.int(0, 255) for _ in range(rng.int(0, 150))]))
    return out


def order(events, late=False):
    """By time; at one time note-offs of notes begun before come first (which
    note an off closes is then never in doubt but for nested ones), or come
    last (what begins just then still goes on)."""
    return sorted(events, key=lambda e: (e[0], late == (e[1] == 'ch' and (e[2] == 0x80 or e[2] == 0x90 and e[4][1] == 0))))


def separate(events):
    """Without overlaps on one channel and pitch within the track."""
    out, last = [], {}
    for e in sorted([e for e in events if e[1] == 'ch' and e[2] == 0x90 and e[4][1] > 0], key=lambda e: e[0]):
        k = (e[3], e[4][0])
        if last.get(k, -1) <= e[0]:
            out.append(e)
    return out


def make_file(rng, nested=None, names=None, long=False):
    res = rng.pick([960, 480, 96, 24, 120, 220, 1, 384, 1000, 32767])
    span = rng.int(1, 8) * res
    fmt = rng.weighted([(1, 3), (0, 1)])
    ntracks = 1 if fmt == 0 else rng.int(1, 5)
    chans = rng.some(range(16), 1, 4)
    pitches = rng.some(range(128), 1, 6)
    names = names or ['Bass', 'Kick', 'Drums 1', 'Drums', 'lead', '', 'Snare']
    setting_track = rng.pick([0, 0, 0, rng.int(0, ntracks - 1)])
    tracks = []
    for i in range(ntracks):
        if nested is False or nested is None and rng.chance(0.6):
            # one note after the other on each channel and pitch
            ev = []
            for ch in rng.some(chans, 1):
                for pitch in rng.some(pitches, 1):
                    t = rng.int(0, span)
                    for _ in range(rng.int(0, 5)):
                        n = rng.pick([1, rng.int(1, res), max(1, res // 4)])
                        ev.append((t, 'ch', 0x90, ch, [pitch, rng.int(1, 127)]))
                        if rng.chance(0.04):
                            break       # hangs until the end
                        off = (t + n, 'ch', 0x90, ch, [pitch, 0]) if rng.chance(0.4) else (t + n, 'ch', 0x80, ch, [pitch, rng.int(0, 127)])
                        ev.append(off)
                        t += n + rng.pick([0, 0, rng.int(0, res)])
            extra = random_track(rng, res, span, chans, pitches, 0)
        else:
            ev = random_track(rng, res, span, chans, pitches, rng.int(0, 12), controllers=False, wild=False)
            extra = random_track(rng, res, span, chans, pitches, 0)
        if rng.chance(0.15):
            # offs that close nothing
            status = rng.pick([0x80, 0x90])
            extra.append((rng.int(0, span), 'ch', status, rng.pick(chans), [rng.pick([p for p in range(128) if p not in pitches]), 0]))
            if ev:
                # nor does one that comes before the first note of its pitch
                ch, pitch = rng.pick([(e[3], e[4][0]) for e in ev])
                first = min(e[0] for e in ev if (e[3], e[4][0]) == (ch, pitch))
                extra.append((rng.pick([0, first]), 'ch', status, ch, [pitch, 0]))
        ev = order(ev + extra, rng.chance(0.3))
        if rng.chance(0.15):
            # notes that end when they begin, alone on their pitch
            ch, pitch = rng.pick(chans), rng.pick([p for p in range(128) if p not in pitches])
            at = rng.pick([0, rng.int(0, span)])
            k = len([e for e in ev if e[0] <= at])
            ev[k:k] = [(at, 'ch', 0x90, ch, [pitch, rng.int(1, 127)]), (at, 'ch', rng.pick([0x80, 0x90]), ch, [pitch, 0])] * rng.int(1, 2)
        head = []
        if rng.chance(0.8):
            head.append((0, 'meta', 3, [ord(c) for c in rng.pick(names)]))
        if i == setting_track:
            if rng.chance(0.8):
                head.append((0, 'meta', 0x51, smf.tempo_bytes(rng.pick([500000, 600000, 428571, 1, 16777215, rng.int(100000, 2000000)]))))
            if rng.chance(0.8):
                head.append((0, 'meta', 0x58, [rng.int(1, 13), rng.int(0, 5), 24, 8]))
            if rng.chance(0.8):
                head.append((0, 'meta', 0x59, [rng.int(-7, 7) & 0xFF, rng.int(0, 1)]))
        rng.shuffle(head)
        last = max([e[0] for e in ev] + [0])
        end = last + rng.pick([0, 0, 1, rng.int(0, res * 2)])
        tracks.append(smf.relative(head + ev + [(end, 'meta', 0x2F, [])]))
    if long and rng.chance(0.05):
        # a long rest, and perhaps another
        t = rng.pick(tracks)
        for _ in range(rng.int(1, 2)):
            i = rng.int(0, len(t) - 1)
            t[i] = (rng.pick([1 << 14, 1 << 21, 1 << 24, (1 << 28) - 1]) - rng.int(0, 1),) + t[i][1:]
    if rng.chance(0.015):
        # much that is not music
        t = rng.pick(tracks)
        n = rng.pick([127, 128, 16383, 16384, 33000, 66000, 140000])
        what = rng.pick([('sysex', 0xF0, [5] * (n - 1) + [0xF7]), ('meta', rng.pick([1, 5, 0x7F, 0x60]), [65] * n)])
        t.insert(rng.int(0, len(t) - 1), (0,) + what)
    if all(all(e[0] == 0 for e in t) for t in tracks):
        # (some time must pass)
        t = tracks[-1]
        t[-1] = (rng.int(1, 4) * res,) + t[-1][1:]
    mode = rng.int(0, 2)
    running = [None, lambda: True, lambda: rng.chance(0.5)][mode]
    extra_head = b'' if rng.chance(0.8) else bytes(bytearray(rng.pick([1, 2, 3, 4, 5, rng.int(6, 300)])))
    return smf.encode_file(tracks, res, fmt, extra_head, running)


def model_events(m, res, tag=lambda n: None):
    """-> list of (start, duration, pitch, velocity, tag), and the duration"""
    duration = m['end'] / res if m['end'] else None
    out = []
    for n in m['notes']:
        s = n[2] / res
        d = (n[3] / res - s) if n[3] is not None else duration - s
        # (a note of no length gets the smallest)
        out.append((s, d if d > 0 else 0.0001, n[4], n[5], tag(n)))
    return out, duration


def setup(ctx):
    import c01
    c01.setup(ctx)


def judge_settings(ctx, q, m, what):
    ctx.close(q.bpm, m['bpm'], 'tempo', what)
    ctx.same(tuple(q.timeSignature), m['sig'], 'time signature', what)
    ctx.same(q.key or '', m['key'], 'key', what)
    ctx.same(q.resolution, m['resolution'], 'resolution', what)


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    path = os.path.join(ctx.scratch, rng.pick(['a.mid', 'b.midi', 'c d.mid']))
    for _ in range(rng.int(1, 3)):
        data = make_file(rng, long=True)
        lib.write_bytes(path, data)
        d = smf.decode_file(data)
        m = smf.import_model(d)
        ctx.note('file', d)
        ctx.sig(lib.hash64(list(bytearray(data))))
        # (with overlaps removed when asked: that is C09's business)
        q = gs.gsio.fromMidiFile(path)
        ctx.files.check(ctx, 'the import')
        ctx.check(lib.read_bytes(path) == data, 'importing changes the file')
        want, duration = model_events(m, m['resolution'])
        got = [(e.startTime, e.duration, e.pitch, e.velocity, None) for e in q.events]
        lib.check_events(ctx, got, want, 'imported notes')
        ctx.close(q.duration, duration, 'duration')
        judge_settings(ctx, q, m, 'of the import')
        ctx.check(all(e.startTime >= 0 for e in q.events), 'negative times')
        ctx.same(q.name, os.path.basename(path), 'name of the import')
        if rng.chance(0.4):
            # the same without what overlaps
            r = gs.gsio.fromMidiFile(path, checkForOverlapped=True)
            alone = {}
            for e in r.events:
                alone.setdefault(e.pitch, []).append((e.startTime, e.startTime + e.duration))
            for pitch in alone:
                spans = sorted(alone[pitch])
                ctx.check(all(x[1] <= y[0] + 1e-9 or x[0] == y[0] for x, y in zip(spans, spans[1:])),
                          'events of pitch', pitch, 'overlap although that was to be avoided:', spans)
            if rng.chance(0.4):
                # with one tag for all
                kw = {'noteToTagMap': {'x': ('*', '*')}}
                q = gs.gsio.fromMidiFile(path, **kw)
                r = gs.gsio.fromMidiFile(path, checkForOverlapped=True, **kw)
            q.removeOverlapped(usePitchValues=True)
            lib.check_events(ctx, [(e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in r.events],
                             [(e.startTime, e.duration, e.pitch, e.velocity, e.tag) for e in q.events], 'imported without overlaps')
            ctx.hit('imports without overlaps judged')
        ctx.hit('files imported')
        ctx.hit('notes judged', len(want))
        ctx.hit('hanging notes judged', sum(1 for n in m['notes'] if n[3] is None))
        ctx.hit('notes of no length judged', sum(1 for n in m['notes'] if n[3] == n[2]))
        ctx.hit('channels judged', len(set(n[1] for n in m['notes'])))
        ctx.hit('tracks judged', len(d['tracks']))
        if want:
            ctx.nontrivial = True
