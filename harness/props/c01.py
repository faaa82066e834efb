# -*- coding: utf-8 -*-
"""Export and import, judged by an independent reader of the exported bytes and
by the notes that come back."""
from __future__ import absolute_import, division, print_function

import bisect
import os

import gen
import lib
import smf

KEYS = sorted(smf.MAJOR.values()) + sorted(v + 'm' for v in smf.MINOR.values())
TAGS = ['a', 'ab', 'Kick', 'Kick2', ('Kick', 'Snare'), ('C', 'maj'), 'Snare', 'HH', 60, '']
SIGS = [(4, 4), (3, 4), (6, 8), (5, 4), (7, 8), (2, 2), (12, 16), (1, 1), (9, 32), (13, 8)]


class Files(object):
    """Watches every file the code opens through the built-in open."""

    def __init__(self, *modules):
        self.opened = []

        def watched(*a, **k):
            f = open(*a, **k)
            self.opened.append(f)
            return f
        for m in modules:
            m.open = watched

    def check(self, ctx, what):
        ctx.check(all(f.closed for f in self.opened), what, 'leaves a file open')
        ctx.hit('files watched', len(self.opened))
        del self.opened[:]


def setup(ctx):
    gs = lib.load_gsapi()
    ctx.files = Files(gs.gsio, gs.midiio)
    ctx.folders = 0


def grid_pattern(gs, rng, res, grid=True):
    """Notes that do not overlap on one pitch."""
    E = gs.gspattern.Event
    duration = rng.pick([1, 2, 4, 4, 8, 3, 16])
    p = gs.gspattern.Pattern(duration)
    total = duration * res
    out = []
    far = 0
    if rng.chance(0.04):
        # (deltas of a file hold 28 bits)
        far = rng.pick([1000, 5000, 70000, 1 << 20]) if res <= 128 else rng.pick([1000, 5000])
        p.duration = duration + far
    crowd = rng.chance(0.015)
    if crowd:
        duration = rng.pick([16, 32, 64])
        p.duration, total = duration + far, duration * res
    for pitch in rng.some(range(128), 1, rng.int(1, 6)) if not crowd else rng.some(range(128), 40, 100):
        t = rng.pick([0, 0, rng.int(0, total - 1)])
        for _ in range(rng.int(1, 6) if not crowd else rng.int(8, 40)):
            if t >= total:
                break
            n = rng.pick([1, rng.int(1, max(1, res)), res, max(1, res // 4), rng.int(1, total)])
            if crowd:
                n = rng.int(1, max(1, res))
            n = min(n, total - t)
            if grid:
                s, d = t / res, n / res
            else:
                # anywhere in the cells, at least two ticks from the next note
                if n < 3:
                    break
                s, d = (t + rng.unit()) / res, (n - 2 + rng.unit() * 0.9) / res
                if rng.chance(0.1) and res <= 1000:
                    # hardly any time at all
                    d = (0.01 + 0.6 * rng.unit()) / res
            tag = rng.pick(TAGS)
            if tag == ('C', 'maj') and rng.chance(0.5):
                tag = gs.gsdescriptors.ChordTag(tag)
            out.append(E(s + far, d, pitch, rng.int(1, 127), tag))
            t += n + rng.pick([0, 0, 1, rng.int(0, res)])
    rng.shuffle(out)
    p.events = out
    gen.settings(rng, p, plain=True)
    p.resolution = res
    p.bpm = rng.pick([120, 60, 97.5, 140.25, 174, 33, 4, 300, 123.456, 7.7, 999, rng.int(5, 300), 10 + 200 * rng.unit()])
    p.timeSignature = rng.pick(SIGS)
    p.key = rng.pick(KEYS + ['', None, None])
    p.name = rng.pick(['p', 'a b', 'x.mid', 'loop-1', '', 'caf\xe9' if not lib.PY2 else 'cafe', 'Q%d' % rng.int(0, 99), 'take.1', 'v1.0 b'])
    if rng.chance(0.1):
        p.name = rng.pick([' x ', 'x\t', ' ', 'a\nb', 'n' * 127, 'n' * 128, 'long ' * 30, 'm' * 200])
    return p


def music(decoded):
    """What the bytes play: all notes and the settings, order of tracks ignored."""
    m = smf.import_model(decoded)
    return (sorted((n[2], n[3], n[4], n[5]) for n in m['notes']), m['end'], m['sig'], m['key'],
            round(6e7 / m['bpm']), m['resolution'])


def values(p):
    return [(e.startTime, e.duration, e.pitch, e.velocity, None) for e in p.events]


def export(ctx, gs, p, folder, **kw):
    before = (lib.meta(p), lib.evs(p.events))
    path = gs.gsio.toMidiFile(p, folderPath=folder, **kw)
    ctx.files.check(ctx, 'the export')
    ctx.same((lib.meta(p), lib.evs(p.events)), before, 'pattern after exporting it')
    data = lib.read_bytes(path)
    try:
        d = smf.decode_file(data)
    except smf.BadFile as e:
        ctx.fail('exported file is not complete MIDI:', str(e), list(bytearray(data))[-60:])
    last = max([t[-1][0] for t in map(smf.absolute, d['tracks']) if t] + [0])
    for tr in d['tracks']:
        a = smf.absolute(tr)
        ctx.check(a and a[-1][1] == 'meta' and a[-1][2] == 0x2F, 'track without an end')
    ctx.hit('files decoded')
    return path, d, last


def once(ctx, gs, rng, folder, kept):
    res = rng.pick([960, 480, 96, 24, 120, 220, 1, 4, 384, 1000, 32767, 7])
    grid = rng.chance(0.75)
    if not grid:
        res = max(res, 24)
    p = grid_pattern(gs, rng, res, grid)
    cut = rng.chance(0.1)
    if cut:
        # the last notes end after the pattern does
        p.duration = p.duration / 2
    midimap = None
    if rng.chance(0.35):
        def rule():
            n = rng.int(0, 127)
            return rng.pick([n, (n, 9), [n], [(n, '*'), 3], [[n, '*']]])
        midimap = dict((t, rule()) for t in rng.some(['a', 'ab', 'Kick', 'Snare', 'C', 'zzz', 60], 1, 4))
        if rng.chance(0.2):
            midimap[('C', 'maj')] = rule()
    name = rng.pick([None, None, 'n%d' % rng.int(0, 3), 'm.mid', 'same'])
    if not (p.name or 'x')[0].isalpha() or len(p.name or '') > 20 or '\n' in (p.name or '') or '\t' in (p.name or ''):
        name = name or 'plain'
    kw = {}
    if name is not None:
        kw['name'] = name
    if midimap is not None:
        kw['midiMap'] = midimap
    ctx.note('export', gen.show(p), name, midimap)
    ctx.sig(lib.evs(p.events), res, midimap)
    path, d, last = export(ctx, gs, p, folder, **kw)
    used = name or p.name or 'tests'
    if not used.endswith('.mid'):
        used += '.mid'
    ctx.same(os.path.basename(path), used, 'name of the exported file')
    ctx.check(os.path.dirname(os.path.abspath(path)) == os.path.abspath(folder), 'exported to', path)
    ctx.hit('exports judged')
    if p.events:
        ctx.nontrivial = True
    for other, data in list(kept.items()):
        if other != path:
            ctx.check(lib.read_bytes(other) == data, 'exporting changes another file')
    kept[path] = lib.read_bytes(path)
    named = [bytes(bytearray(x[3])) for t in d['tracks'] for x in smf.absolute(t) if x[1] == 'meta' and x[2] == 0x03]
    if all(ord(c) < 128 for c in p.name or ''):
        ctx.check((p.name or '').encode('ascii') in (named or [b'']), 'the tracks are named', named, 'not after the pattern', p.name)
        ctx.hit('track names judged')
    # the bytes against the pattern
    pitches = {}
    if midimap is not None:
        def first(v):
            while isinstance(v, (list, tuple)):
                v = v[0]
            return v
        want = []
        for e in p.events:
            names = [e.tag] + (list(e.tag) if isinstance(e.tag, tuple) else [])
            hits = [first(midimap[n]) for n in names if n in midimap]
            want.append((e.startTime, e.pitch, e.velocity, hits[:1] if names and names[0] in midimap else hits))
        ons = sorted((x[0], x[4][0], x[4][1]) for t in d['tracks'] for x in smf.absolute(t)
                     if x[1] == 'ch' and x[2] == 0x90 and x[4][1] > 0)
        ctx.same(len(ons), len(want), 'number of notes written')
        # each event has a written note of its own
        fits = []
        for s, pitch, vel, hits in want:
            lo = bisect.bisect_left(ons, (int(s * res) - 2,))
            fit = []
            while lo < len(ons) and ons[lo][0] <= s * res + 1:
                o = ons[lo]
                if abs(o[0] - s * res) <= 0.5 + 1e-6 and o[2] == vel and (o[1] in hits if hits else o[1] == pitch):
                    fit.append(lo)
                lo += 1
            fits.append(fit)
        taken = {}

        def place(i, tried):
            for k in fits[i]:
                if k not in tried:
                    tried.add(k)
                    if k not in taken or place(taken[k], tried):
                        taken[k] = i
                        return True
            return False
        for i, (s, pitch, vel, hits) in enumerate(want):
            if not place(i, set()):
                ctx.fail('no note written for', (s, pitch, vel), 'mapped to', hits or [pitch], 'among', ons)
        ctx.hit('mapped notes judged', len(want))
        if grid and all(len(set(h)) <= 1 for _, _, _, h in want):
            offs = sorted((x[0], x[4][0]) for t in d['tracks'] for x in smf.absolute(t)
                          if x[1] == 'ch' and (x[2] == 0x80 or x[2] == 0x90 and x[4][1] == 0))
            ends = sorted((int(round(e.endTime() * res)), w[3][0] if w[3] else w[1]) for e, w in zip(p.events, want))
            ctx.same(offs, ends, 'note-offs written')
            ctx.hit('mapped note-offs judged', len(ends))
        return
    m = smf.import_model(d)
    ctx.same(m['resolution'], res, 'resolution of the file')
    q = gs.gsio.fromMidiFile(path)
    ctx.files.check(ctx, 'the import')
    for what, notes, end, bpm, sig, key, r in (
            ('read by gsapi', [(e.startTime, e.endTime(), e.pitch, e.velocity) for e in q.events], q.duration, q.bpm,
             tuple(q.timeSignature), q.key, q.resolution),
            ('read by another reader', [(n[2] / res, n[3] / res, n[4], n[5]) for n in m['notes'] if n[3] is not None],
             m['end'] / res, m['bpm'], m['sig'], m['key'], m['resolution'])):
        ctx.same(len(notes), len(p.events), 'number of notes', what)
        tol = 1e-6 if grid else 0.5 / res + 1e-4 + 1e-6
        rest = sorted(notes)
        for e in sorted(p.events, key=lambda e: e.startTime):
            for n in rest:
                if abs(n[0] - e.startTime) <= tol and abs(n[1] - e.endTime()) <= tol and n[2] == e.pitch and n[3] == e.velocity:
                    rest.remove(n)
                    break
            else:
                ctx.fail(what, 'there is no note', (e.startTime, e.endTime(), e.pitch, e.velocity), 'in', sorted(notes))
        ctx.hit('notes judged', len(notes))
        ends = [e.endTime() for e in p.events] + [p.duration]
        ctx.check(abs(end - max(ends)) <= max(tol, 0.5 / res + 1e-6 if cut else 0), what, 'the duration is', end, 'of', max(ends))
        # (a note shorter than a tick is read with a tiny duration)
        last = max([n[1] if n[1] - n[0] > 0.00011 else n[0] for n in notes] + [0])
        ctx.check(end >= last - 1e-6, what, 'the file ends before its last note')
        ctx.same(sig, tuple(p.timeSignature), 'time signature', what)
        ctx.same(key or '', p.key or '', 'key', what)
        ctx.same(r, res, 'resolution', what)
        ctx.check(abs(6e7 / bpm - 6e7 / p.bpm) < 1, what, 'the tempo is', bpm, 'of', p.bpm)
    # and once more
    again = rng.pick(['again', 'again2.mid'])
    path2, d2, _ = export(ctx, gs, q, folder, name=again)
    kept[path2] = lib.read_bytes(path2)
    ctx.same(music(d2), music(d), 'music exported again')
    q2 = gs.gsio.fromMidiFile(path2)
    ctx.files.check(ctx, 'the import')
    lib.check_events(ctx, values(q2), values(q), 'notes imported again')
    ctx.hit('second round trips judged')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    ctx.folders += 1
    folder = os.path.join(ctx.scratch, 'f%d' % (ctx.folders % 50))
    if rng.chance(0.2):
        folder = os.path.join(folder, 'deep', 'er')
    if rng.chance(0.3):
        folder += os.sep
    kept = {}
    for _ in range(rng.int(1, 4)):
        once(ctx, gs, rng, folder, kept)
