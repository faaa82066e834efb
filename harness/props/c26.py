# -*- coding: utf-8 -*-
"""Names, tables and spelling, over the complete input space, in any order of calls."""
from __future__ import absolute_import, division, print_function

import lib

LETTERS = 'CDEFGAB'
SEMI = [0, 2, 4, 5, 7, 9, 11]
SHARPS = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
FLATS = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']
# Hewlett's intervals: letters up, semitones up
INTERVALS = {0: (0, 0), 5: (1, 1), 6: (1, 2), 11: (2, 3), 12: (2, 4), 17: (3, 5), 18: (3, 6), 22: (4, 6), 23: (4, 7), 24: (4, 8),
             28: (5, 8), 29: (5, 9), 34: (6, 10), 35: (6, 11), 40: (7, 12)}
ACC = {-2: 'bb', -1: 'b', 0: '', 1: '#', 2: '##'}
PIECES = ['names', 'spelling', 'notes', 'chords', 'roots', 'keys', 'drums', 'transposed', 'imported']


def semitones(name):
    return SEMI[LETTERS.index(name[0])] + name.count('#') - name.count('b')


def spelled(root, steps, up):
    """The note so many letters and semitones above, None beyond double accidentals."""
    i = LETTERS.index(root[0])
    letter = LETTERS[(i + steps) % 7]
    natural = SEMI[(i + steps) % 7] + 12 * ((i + steps) // 7)
    acc = semitones(root) + up - natural
    return letter + ACC[acc] if acc in ACC else None


def names(ctx, rng, gs):
    lists = [SHARPS, FLATS, gs.gsdefs.defaultPitchNames, tuple(SHARPS), [str(i) + '/' for i in range(12)],
             list('abcdefghijkl'), ['x'] * 12]
    for li in lists:
        given = list(li)
        for p in rng.shuffle(list(range(128))):
            n = gs.gsutil.pitch2name(p, li)
            ctx.check(n == li[p % 12] + str(p // 12 - 1), 'pitch', p, 'is', n, 'in', given)
            ctx.hit('names judged')
        ctx.same(list(li), given, 'names after naming')
    ctx.same(gs.gsutil.pitch2name(60, gs.gsdefs.defaultPitchNames), 'C4', 'pitch 60')
    for p, name in enumerate(gs.gsdefs.defaultPitchNames):
        ctx.check(semitones(name) % 12 == p, 'the name of pitch class', p, 'is', name)
    ctx.same(len(gs.gsdefs.defaultPitchNames), 12, 'names of an octave')
    for n in (5, 7, 19, 24, 49, rng.int(1, 128)):
        li = ['n%d_' % i for i in range(n)]
        for p in list(range(128)) + [n * k for k in range(1, 60)]:
            ctx.same(gs.gsutil.pitch2name(p, li), li[p % n] + str(p // n - 1), 'pitch', p, 'in', n, 'names')


def notes(ctx, rng, gs):
    table = gs.gsdefs.noteMap
    ctx.same(sorted(table.values()), list(range(128)), 'pitches of the note table')
    for p in range(128):
        n = gs.gsutil.pitch2name(p, SHARPS)
        ctx.same(table.get(n.lower()), p, 'pitch of', n, 'in the note table')
        ctx.hit('table notes judged')
    for n, p in table.items():
        ctx.check(gs.gsutil.pitch2name(p, SHARPS).lower() == n, 'note', n, 'is', p)


def spelling(ctx, rng, gs):
    u = gs.gsutil
    for pc in rng.shuffle(list(range(-24, 128))):
        for alt, want in rng.shuffle([('#', SHARPS), ('b', FLATS)]):
            ctx.same(u.pc2note(pc, alt), want[pc % 12], 'pitch class', pc, 'in', alt)
            k = u.pc2base40(pc, alt)
            ctx.same(gs.gsdefs.pitch40[k], want[pc % 12], 'base 40 number of', pc, 'in', alt)
            ctx.hit('spellings judged')
        ctx.same(u.pc2note(pc), SHARPS[pc % 12], 'pitch class', pc)
        ctx.same(u.pc2base40(pc), u.pc2base40(pc, '#'), 'base 40 number of', pc)
    for alt in ('x', '', None, '##'):
        for f in (u.pc2note, u.pc2base40):
            try:
                f(3, alt)
            except Exception:
                continue
            ctx.fail('spelling with', alt, 'is accepted')
    table = gs.gsdefs.pitch40
    ctx.same(len(table), 40, 'base 40 numbers')
    seen = [n for n in table if n]
    ctx.same(len(set(seen)), 35, 'notes up to double accidentals')
    for i, a in enumerate(table):
        for j, b in enumerate(table):
            # intervals between notes only depend on the difference of their numbers
            if a and b and (j - i) % 40 in INTERVALS:
                steps, up = INTERVALS[(j - i) % 40]
                want = spelled(a, steps, up)
                ctx.check(want is None or want == b, 'from', a, 'to', b, 'is', (j - i) % 40)
                ctx.hit('intervals judged')


# what the names of the chords mean, in degrees of the major scale
DEGREES = {
    '0': '1', '5': '1 5', 'maj(omit5)': '1 3', 'min(omit5)': '1 b3', 'd5': '1 b5', 'maj': '1 3 5', 'min': '1 b3 5', 'aug': '1 3 #5',
    'dim': '1 b3 b5', 'sus4': '1 4 5', 'sus2': '1 2 5', '7': '1 3 5 b7', '7sus4': '1 4 5 b7', 'maj7': '1 3 5 7', 'min7': '1 b3 5 b7',
    'min(maj7)': '1 b3 5 7', 'min7(b5)': '1 b3 b5 b7', 'dim7': '1 b3 b5 bb7', '6': '1 3 5 6', 'min6': '1 b3 5 6', 'add9': '1 3 5 9',
    'min(add9)': '1 b3 5 9', 'add11': '1 3 5 11', 'min(add11)': '1 b3 5 11', 'add#11': '1 3 5 #11', 'min(add#11)': '1 b3 5 #11',
    '9': '1 3 5 b7 9', 'b9': '1 3 5 b7 b9', 'maj9': '1 3 5 7 9', 'min9': '1 b3 5 b7 9', '11': '1 3 5 b7 9 11', 'maj11': '1 3 5 7 9 11',
    'min11': '1 b3 5 b7 9 11', '#11': '1 3 5 b7 9 #11', 'maj#11': '1 3 5 7 9 #11', 'min#11': '1 b3 5 b7 9 #11', '13': '1 3 5 b7 9 11 13'}


def degree(d):
    n = int(d.strip('#b')) - 1
    return n, 12 * (n // 7) + [0, 2, 4, 5, 7, 9, 11][n % 7] + d.count('#') - d.count('b')


def chords(ctx, rng, gs):
    types, intervals = gs.gsdefs.chordTypes, gs.gsdefs.chordIntervals
    for k, t in types.items():
        ctx.check(t[0] == 0 and all(a < b for a, b in zip(t, t[1:])) and len(set(x % 12 for x in t)) == len(t), 'chord', k, 'is', t)
    shared = sorted(set(types) & set(intervals))
    ctx.check(len(shared) >= 20, 'the chord tables share', shared)
    for k in shared:
        up = [0]
        for i in intervals[k]:
            ctx.check(i in INTERVALS, 'chord', k, 'has interval', i)
            up.append(up[-1] + INTERVALS[i][1])
        ctx.check(sorted(up) == sorted(types[k]), 'chord', k, 'is', types[k], 'but by intervals', up)
        ctx.hit('chords judged')
    for k, names in DEGREES.items():
        want = [degree(d) for d in names.split()]
        if k in types:
            ctx.same(types[k], [x for _, x in want], 'chord', k)
        if k in intervals:
            up = [(0, 0)]
            for i in intervals[k]:
                a, b = INTERVALS.get(i, (0, 0))
                up.append((up[-1][0] + a, up[-1][1] + b))
            ctx.same(up, want, 'steps and semitones of chord', k)
        ctx.hit('names of chords judged')


def roots(ctx, rng, gs):
    table = gs.gsdefs.pitch40
    intervals = gs.gsdefs.chordIntervals
    for k in rng.shuffle(sorted(intervals)):
        if any(i not in INTERVALS for i in intervals[k]):
            continue
        given = list(intervals[k])
        for root in range(40):
            if not table[root]:
                continue
            name = table[root]
            octave = rng.pick([0, 0, 40, 80, 400, 40 * rng.int(0, 100)])
            got = gs.gsutil.makeChord(root + octave, intervals[k])
            ctx.check(intervals[k] == given, 'chord', k, 'after spelling is', intervals[k])
            ctx.same(len(got), len(given) + 1, 'notes of', name, k)
            steps = up = 0
            for i, n in enumerate(got):
                if i:
                    a, b = INTERVALS[given[i - 1]]
                    steps, up = steps + a, up + b
                want = spelled(name, steps, up)
                if want is not None:
                    ctx.check(n == want, name, k, 'is spelled', got, 'instead of', want, 'at', i)
                    ctx.hit('chord notes judged')
    for alt in '#b':
        for pc in range(12):
            for k in ('maj', 'min', '7', 'dim'):
                got = gs.gsutil.makeChord(gs.gsutil.pc2base40(pc, alt), intervals[k])
                ctx.check([semitones(n) % 12 if n else None for n in got] ==
                          [(pc + x) % 12 if n else None for x, n in zip(gs.gsdefs.chordTypes[k], got)], 'chord', pc, alt, k, 'is', got)


def keys(ctx, rng, gs):
    for table, first in ((gs.gsdefs.midiKey, 'C'), (gs.gsdefs.midiMinorKey, 'A')):
        ctx.same(sorted(table), list(range(-7, 8)), 'signatures')
        ctx.same(len(set(table.values())), 15, 'names of keys')
        ctx.same(table[0], first, 'key without accidentals')
        for n in range(-7, 8):
            want = first
            for _ in range(abs(n)):
                want = spelled(want, 4, 7) if n > 0 else spelled(want, 3, 5)
            ctx.same(table[n], want, 'key with', n, 'sharps')
            ctx.hit('keys judged')


# the percussion of General MIDI from pitch 35 on
GENERAL_MIDI = (
    'acousticbassdrum bassdrum1 sidestick acousticsnare handclap electricsnare lowfloortom closedhihat highfloortom pedalhihat lowtom openhihat '
    'lowmidtom himidtom crashcymbal1 hightom ridecymbal1 chinesecymbal ridebell tambourine splashcymbal cowbell crashcymbal2 vibraslap '
    'ridecymbal2 hibongo lowbongo mutehiconga openhiconga lowconga hightimbale lowtimbale highagogo lowagogo cabasa maracas shortwhistle '
    'longwhistle shortguiro longguiro claves hiwoodblock lowwoodblock mutecuica opencuica mutetriangle opentriangle').split()


def drums(ctx, rng, gs):
    d = gs.gsdefs
    for k, v in d.generalMidiDrums.items():
        ctx.same(GENERAL_MIDI.index(''.join(c for c in k.lower() if c.isalnum())) + 35, v, 'pitch of', k)
    ctx.same(sorted(d.generalMidiDrums.values()), list(range(35, 82)), 'pitches of the drums')
    for t in (d.simpleDrumMap, d.verySimpleDrumMap):
        ctx.same(len(set(t.values())), len(t), 'names of drums')
        ctx.check(all(v in range(128) for v in t.values()), 'pitches of drums', t)
    for k, v in d.verySimpleDrumMap.items():
        ctx.same(d.simpleDrumMap.get(k), v, 'pitch of', k)


def transposed(ctx, rng, gs):
    """The names a pattern gets are those of the tables."""
    P, E = gs.gspattern.Pattern, gs.gspattern.Event
    p = P(4)
    for pitch in rng.shuffle(list(range(128))):
        p.addEvent(E(pitch / 32, 0.03125, pitch, 100, 'x'))
    k = rng.int(-3, 3)
    p.transpose(k)
    for e in p.events:
        if 0 <= e.pitch <= 127:
            ctx.same(e.tag, gs.gsdefs.defaultPitchNames[e.pitch % 12] + str(e.pitch // 12 - 1), 'name of pitch', e.pitch)
            ctx.hit('transposed names judged')


def imported(ctx, rng, gs):
    import os
    import smf
    pitches = rng.shuffle(list(range(128)))
    ev = []
    for i, pitch in enumerate(pitches):
        ev += [(i * 2, 'ch', 0x90, rng.int(0, 15), [pitch, 90])]
        ev += [(i * 2 + 1, 'ch', 0x80, ev[-1][3], [pitch, 0])]
    path = os.path.join(ctx.scratch, 'names.mid')
    lib.write_bytes(path, smf.encode_file([smf.relative(ev + [(256, 'meta', 0x2F, [])])], 16, 0))
    li = rng.pick([None, SHARPS, FLATS])
    q = gs.gsio.fromMidiFile(path) if li is None else gs.gsio.fromMidiFile(path, li)
    ctx.same(len(q.events), 128, 'imported notes')
    for e in q.events:
        names_ = li or gs.gsdefs.defaultPitchNames
        ctx.same(e.tag, names_[e.pitch % 12] + str(e.pitch // 12 - 1), 'name of pitch', e.pitch)
        if li is SHARPS:
            ctx.same(gs.gsdefs.noteMap.get(e.tag.lower()), e.pitch, 'pitch of', e.tag)
        ctx.hit('imported names judged')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    d = gs.gsdefs
    tables = [d.chordTypes, d.chordIntervals, d.noteMap, d.pitch40, d.defaultPitchNames, d.midiKey, d.midiMinorKey,
              d.generalMidiDrums, d.simpleDrumMap, d.verySimpleDrumMap]
    before = repr([lib.canon(t) for t in tables])
    order = rng.shuffle(list(PIECES))[:rng.int(2, len(PIECES))] if idx % 1000000 else PIECES
    ctx.note('order', order)
    ctx.sig(order)
    ctx.nontrivial = True
    for piece in order:
        globals()[piece](ctx, rng, gs)
    ctx.same(repr([lib.canon(t) for t in tables]), before, 'tables after all calls')
