# -*- coding: utf-8 -*-
"""Mappings from notes to tags, track selection and collections."""
from __future__ import absolute_import, division, print_function

import copy
import os
import shutil

import c02
import gen
import lib
import smf

NAMES = ['Kick', 'Kick2', 'Snare', 'HH', 'Bass', 'a', 'ab', 'b', 'lead', 'Drums']


def setup(ctx):
    c02.setup(ctx)
    gs = lib.load_gsapi()
    ctx.maps = [gs.gsdefs.simpleDrumMap, gs.gsdefs.verySimpleDrumMap, gs.gsdefs.generalMidiDrums]
    ctx.tables = repr(ctx.maps)


def rule(rng, pitches, chans):
    pitch, ch = rng.pick(pitches), rng.pick(chans)
    return rng.pick([pitch, (pitch, ch), (pitch, '*'), ('*', ch), ('*', '*') if rng.chance(0.2) else (pitch, ch)])


def mapping(rng, notes):
    pitches = [n[4] for n in notes] * 3 + [rng.int(0, 127)]
    chans = [n[1] for n in notes] * 3 + [rng.int(0, 15)]
    m = {}
    for name in rng.some(NAMES, 1, 5):
        m[name] = rule(rng, pitches, chans) if rng.chance(0.5) else [rule(rng, pitches, chans) for _ in range(rng.int(1, 4))]
    if rng.chance(0.15):
        m[('x', 'y')] = [rule(rng, pitches, chans)]
    if rng.chance(0.1):
        # rules nothing can match
        m['never'] = [(rng.pick(pitches), rng.pick([c + 16 for c in chans] + [-1])), (rng.pick(pitches) + 128, '*')]
    return m


def matches(rules, pitch, channel):
    for r in rules if isinstance(rules, list) else [rules]:
        want = r if isinstance(r, tuple) else (r, '*')
        if want[0] in ('*', pitch) and want[1] in ('*', channel):
            return True
    return False


def model_tag(m, note, mapp, by_track):
    """The set of tags of a note, or a name."""
    if by_track:
        return frozenset(t for t in mapp if t in m['names'][note[0]])
    if mapp == 'pitchName' or isinstance(mapp, dict) and 'pitchName' in mapp:
        names = mapp['pitchName'] if isinstance(mapp, dict) and mapp['pitchName'] else gen.NAMES
        return gen.name_of(note[4], names)
    if isinstance(mapp, (list, tuple)):
        return gen.name_of(note[4], mapp)
    return frozenset(t for t in mapp if matches(mapp[t], note[4], note[1]))


def as_set(tag, known):
    """A tag as the set of names it holds; a known name alone counts as such."""
    if tag in known:
        return frozenset([tag])
    if isinstance(tag, tuple):
        if len(tag) == 1 or len(set(tag)) != len(tag):
            return ('several', tag)
        return frozenset(tag)
    return tag if tag else frozenset()


def expected(m, mapp, by_track, keep):
    ev, duration = c02.model_events(m, m['resolution'], lambda n: model_tag(m, n, mapp, by_track))
    return [e for e in ev if e[4] or keep], duration


def judge(ctx, q, m, mapp, by_track, keep, what):
    known = set(mapp) if isinstance(mapp, dict) and 'pitchName' not in mapp else None
    want, duration = expected(m, mapp, by_track, keep)
    got = []
    for e in q.events:
        tag = e.tag
        got.append((e.startTime, e.duration, e.pitch, e.velocity, as_set(tag, known) if known is not None else tag))
    show = [tuple(e[:4]) + (lib.tagkey(e[4]) if isinstance(e[4], tuple) else str(sorted(map(lib.tagkey, e[4])) if isinstance(e[4], frozenset) else e[4]),) for e in got]
    need = [tuple(e[:4]) + (str(sorted(map(lib.tagkey, e[4])) if isinstance(e[4], frozenset) else e[4]),) for e in want]
    lib.check_events(ctx, show, need, what)
    ctx.hit('notes judged', len(want))
    ctx.hit('notes with several tags', sum(1 for e in want if isinstance(e[4], frozenset) and len(e[4]) > 1))
    if duration is not None:
        ctx.close(q.duration, duration, 'duration', what)
    c02.judge_settings(ctx, q, m, what)


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    folder = os.path.join(ctx.scratch, 'collection')
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    files = {}
    for i in range(rng.int(1, 3)):
        data = c02.make_file(rng, nested=False if rng.chance(0.7) else None, names=NAMES + ['Kick Bass', 'my ab', '', 'Snare2'])
        name = rng.pick(['f%d.mid', 'g %d.mid', 'h%d.midi']) % i
        lib.write_bytes(os.path.join(folder, name), data)
        files[name] = smf.decode_file(data)
        ctx.sig(lib.hash64(list(bytearray(data))))
    if rng.chance(0.01):
        # a collection of many
        import c23
        for i in range(rng.int(65, 130)):
            data = c23.tiny(i)
            lib.write_bytes(os.path.join(folder, 'n%d.mid' % i), data)
            files['n%d.mid' % i] = smf.decode_file(data)
    for _ in range(rng.int(1, 4)):
        first = rng.pick(sorted(files))
        notes = smf.import_model(files[first])['notes']
        names = smf.import_model(files[first])['names']
        if notes:
            ctx.nontrivial = True
        kind = rng.weighted([('rules', 6), ('names', 2), ('table', 1)])
        by_track = False
        if kind == 'rules':
            mapp = mapping(rng, notes)
            by_track = rng.chance(0.3) and all(isinstance(k, str) for k in mapp)
        elif kind == 'names':
            mapp = rng.pick(['pitchName', {'pitchName': ''}, list(gen.NAMES), {'pitchName': [str(i) + '.' for i in range(12)]},
                             tuple('do di re ri mi fa fi so si la li ti'.split()), ['a', 'b', 'c', 'd', 'e']])
        else:
            mapp = rng.pick(ctx.maps)
        keep = rng.chance(0.3) and not by_track
        sel = None
        if rng.chance(0.5):
            pool = [n for n in names] + list(range(len(names))) + ['Kick', 'none', 7, -1, len(names), 'kick']
            sel = rng.some(pool, 1, 3)
            sel = rng.pick([sel, tuple(sel)])
        given = copy.deepcopy(mapp)
        kw = {}
        if sel is not None:
            kw['tracksToGet'] = sel
            if len(sel) == 1 and sel[0] != '' and rng.chance(0.6):
                # one name or index alone
                kw['tracksToGet'] = sel[0]
        if by_track:
            kw['tagFromTrackName'] = True
        if keep or rng.chance(0.3):
            kw['filterOutNotMapped'] = not keep
        ctx.note('map', kind, mapp if kind != 'table' else 'table', kw, sorted(files))
        if rng.chance(0.6):
            m = smf.import_model(files[first], sel)
            ctx.note('file', files[first])
            q = gs.gsio.fromMidiFile(os.path.join(folder, first), mapp, **kw)
            ctx.files.check(ctx, 'the import')
            judge(ctx, q, m, mapp, by_track, keep, 'of %s' % first)
            ctx.hit('imports judged')
            if sel is not None:
                ctx.hit('selections judged')
            if by_track:
                ctx.hit('track names judged')
        else:
            length = rng.pick([0, 0, 1, 4, 0.5, 2.5, 1000, 0.25])
            pattern = rng.pick(['*.mid', '*', 'f*', 'nothing*'])
            if length:
                kw['desiredLength'] = length
            got = gs.gsio.fromMidiCollection(os.path.join(folder, pattern), mapp, **kw)
            ctx.files.check(ctx, 'importing the collection')
            kw.pop('desiredLength', None)
            wanted = [n for n in sorted(files) if pattern == '*' or pattern == '*.mid' and n.endswith('.mid') or
                      pattern == 'f*' and n.startswith('f')]
            rest = list(got)
            blocks = {}
            for n in wanted:
                alone = gs.gsio.fromMidiFile(os.path.join(folder, n), mapp, **kw)
                judge(ctx, alone, smf.import_model(files[n], sel), mapp, by_track, keep, 'of %s' % n)
                blocks[n] = [lib.snap(x) for x in (alone.splitInEqualLengthPatterns(length) if length else [alone])]
            # the files in any order, the slices of each in order
            while rest:
                for n in sorted(blocks):
                    k = len(blocks[n])
                    if k and [lib.canon(lib.snap(x)) for x in rest[:k]] == lib.canon(blocks[n]):
                        del rest[:k]
                        del blocks[n]
                        break
                else:
                    ctx.fail('collection', pattern, length, 'has', [lib.snap(x) for x in rest][:3], 'but the files give', blocks)
            ctx.check(not any(blocks.values()), 'collection', pattern, 'misses', [n for n in blocks if blocks[n]])
            ctx.hit('collections judged')
            ctx.hit('collection slices judged', len(got))
        ctx.same(mapp, given, 'mapping after importing')
        ctx.same(repr(mapp), repr(given), 'mapping after importing')
    ctx.same(repr(ctx.maps), ctx.tables, 'drum tables after importing')
