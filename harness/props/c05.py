# -*- coding: utf-8 -*-
"""Damaged files: cuts, flips, splices, garbage.  The import may fail, but it
ends, closes its files, touches nothing and yields no invalid event."""
from __future__ import absolute_import, division, print_function

import os
import sys

import c02
import gen
import lib
import smf

HOSTILE = [
    b'', b'M', b'MThd', b'MThd\0\0\0\6\0\1\0\1\0\x60', b'MThd\0\0\0\6\0\1\0\1\0\0MTrk\0\0\0\4\0\xff\x2f\0',
    b'MThd\xff\xff\xff\xff\0\1\0\1\0\x60MTrk\0\0\0\4\0\xff\x2f\0', b'MThd\0\0\0\0\0\1\0\1\0\x60MTrk\0\0\0\4\0\xff\x2f\0',
    b'MThd\0\0\0\6\0\1\xff\xff\0\x60MTrk\0\0\0\4\0\xff\x2f\0', b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\xff\xff\xff\xff\0\x90<@\x60\x80<\0',
    b'MThd\0\0\0\6\0\1\0\0\0\x60', b'MThd\0\0\0\6\0\1\0\1\x80\x00MTrk\0\0\0\x0c\0\x90<@\x60\x80<\0\0\xff\x2f\0',
    b'RIFF\0\0\0\0RMIDdata', b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\6\0\xff\1\xff\xff\x7f',
    b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x0c\0\xff\x51\3\0\0\0\0\xff\x2f\0', b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x0a\0\xff\x51\1\7\0\xff\x2f\0\0',
    b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x0c\0\xff\x58\4\0\xff\0\0\0\x90<@',
    b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x0c\0\xff\x59\2\x40\5\0\x90<@\0',
    b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x10' + b'\xff' * 16, b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x0a\0\xf0\x8f\xff\xff\x7f1234',
    b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x05\0\x90<@\x00', b'MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x05\0\x40<@\x00']


def setup(ctx):
    c02.setup(ctx)
    gs = lib.load_gsapi()
    ctx.good = os.path.join(ctx.scratch, 'good.mid')
    lib.write_bytes(ctx.good, c02.make_file(lib.Rng('good', ctx.seed), nested=False))
    ctx.good_value = lib.canon(lib.snap(gs.gsio.fromMidiFile(ctx.good)))
    ctx.good_bytes = lib.read_bytes(ctx.good)
    ctx.files.opened[:] = []


def damage(rng, data):
    data = bytearray(data)
    for _ in range(rng.weighted([(1, 6), (2, 3), (5, 1)])):
        k = rng.int(0, 8)
        n = len(data)
        if n < 6:
            break
        if k == 0:
            del data[rng.int(0, n - 1):]
        elif k == 1:
            data[rng.int(0, n - 1)] ^= 1 << rng.int(0, 7)
        elif k == 2:
            data[rng.int(0, n - 1)] = rng.pick([0, 0xFF, 0x7F, 0x80, 0xF0, 0xF7, 0x90, 0x2F, 0x51, 0x58, 0x59, rng.int(0, 255)])
        elif k == 3:
            i = rng.int(0, n - 1)
            del data[i:i + rng.int(1, 6)]
        elif k == 4:
            i = rng.int(0, n)
            data[i:i] = bytearray(rng.int(0, 255) for _ in range(rng.int(1, 6)))
        elif k == 5:
            i, j = rng.int(0, n - 1), rng.int(0, n - 1)
            data[i:i] = data[j:j + rng.int(1, 60)]
        elif k == 6:
            # sizes and counts in the headers
            i = rng.pick([rng.int(4, min(13, n - 1)), rng.int(4, min(22, n - 1))])
            data[i] = rng.pick([0, 1, 0x7F, 0x80, 0xFF, rng.int(0, 255)])
        elif k == 7:
            # a run of one byte
            i = rng.int(0, n - 1)
            m = rng.int(1, 20)
            data[i:i + m] = bytearray([rng.pick([0, 0x7F, 0x80, 0xFF, 0x90])]) * m
        else:
            i = rng.int(0, n - 1)
            rest = list(data[i:])
            rng.shuffle(rest)
            data[i:] = bytearray(rest)
    return bytes(data)


class Steps(object):
    """Counts the lines that the import executes."""

    def __init__(self):
        self.n = 0

    def __call__(self, frame, event, arg):
        self.n += 1
        return self


def finite(x):
    return x == x and abs(x) != float('inf')


def judge(ctx, gs, rng, path, data, what):
    """-> the pattern, or None when the import fails"""
    lib.write_bytes(path, data)
    fds = lib.open_fds() if not lib.JAVA else None
    kw = {}
    if rng.chance(0.2):
        kw['checkForOverlapped'] = True
    if rng.chance(0.2):
        kw['noteToTagMap'] = rng.pick([gs.gsdefs.simpleDrumMap, {'x': ('*', '*')}, {'x': ('*', 1)}])
        kw['filterOutNotMapped'] = rng.chance(0.5)
    if rng.chance(0.1):
        kw['tracksToGet'] = [rng.pick([0, 1, 'Bass', ''])]
    count = Steps() if not lib.JAVA and rng.chance(0.15) else None
    how = rng.weighted([('file', 8), ('collection', 1), ('low', 1)])
    pattern, tick = None, None
    try:
        if count is not None:
            old = sys.gettrace()
            sys.settrace(count)
        try:
            if how == 'file':
                pattern = gs.gsio.fromMidiFile(path, **kw)
            elif how == 'low':
                tick = gs.midiio.read_midifile(path)
            else:
                kw.pop('checkForOverlapped', None)
                got = gs.gsio.fromMidiCollection(path, **kw)
                ctx.same(len(got), 1, 'patterns of a collection of one file')
                pattern = got[0]
        finally:
            if count is not None:
                sys.settrace(old)
        ctx.hit('damaged files imported')
    except lib.Violation:
        raise
    except RuntimeError as e:
        # endless recursion is not an answer
        ctx.check('recursion' not in str(e), 'importing', what, 'recurses without end')
        ctx.hit('damaged files refused')
    except Exception as e:
        ctx.hit('damaged files refused')
        ctx.hit('refused with ' + type(e).__name__)
    ctx.files.check(ctx, 'importing %s' % what)
    if fds is not None:
        ctx.same(lib.open_fds(), fds, 'open files after importing', what)
    if count is not None:
        n = len(data)
        ctx.check(count.n <= 2000000 + 2000 * n + 4 * n * n, 'importing', n, 'bytes took', count.n, 'steps')
        ctx.hit('imports with counted steps')
        ctx.hit('steps counted', count.n)
    ctx.check(lib.read_bytes(path) == data, 'importing changes the file')
    if pattern is not None:
        for e in pattern.events:
            ctx.check(finite(e.startTime) and e.startTime >= 0 and finite(e.duration) and e.duration > 0,
                      'invalid event', lib.ev(e), 'from', what, list(bytearray(data)))
            ctx.hit('events of damaged files judged')
    if tick is not None:
        ctx.check(all(e.tick >= 0 for t in tick for e in t), 'negative ticks from', what)
    return pattern if how == 'file' and not kw else None


def cut(ctx, gs, rng, path, data):
    """Cut at every kind of place inside the last track."""
    d = smf.decode_file(data)
    pos = 8 + smf.num(bytearray(data), 4, 4)
    start = None
    while pos < len(data):
        start = pos + 8
        pos = start + smf.num(bytearray(data), pos + 4, 4)
    for k in rng.some(range(start, len(data)), 1, 4):
        part = data[:k]
        prefix = smf.decode_prefix(bytearray(part[start:]))
        dd = dict(d, tracks=d['tracks'][:-1] + [prefix])
        m = smf.import_model(dd)
        lib.write_bytes(path, part)
        ctx.note('cut at', k, list(bytearray(part)))
        q = gs.gsio.fromMidiFile(path)
        ctx.files.check(ctx, 'importing a cut file')
        rest = [lib.ev(e) for e in q.events]
        res = m['resolution']
        for n in m['notes']:
            for e in rest:
                if lib.near(e[0], n[2] / res) and e[2] == n[4] and e[3] == n[5] and \
                        (n[3] is None or lib.near(e[1], (n[3] - n[2]) / res or 0.0001)):
                    rest.remove(e)
                    break
            else:
                ctx.fail('the note', n, 'before the cut is lost: got', [lib.ev(e) for e in q.events])
        ctx.check(not rest, 'notes', rest, 'that were not before the cut')
        for e in q.events:
            ctx.check(finite(e.startTime) and e.startTime >= 0 and finite(e.duration) and e.duration > 0, 'invalid event', lib.ev(e))
        ctx.hit('cuts judged')
        ctx.hit('notes before cuts judged', len(m['notes']))


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    path = os.path.join(ctx.scratch, 'damaged.mid')
    data = c02.make_file(rng)
    ctx.nontrivial = True
    ctx.sig(lib.hash64(list(bytearray(data))), idx)
    for _ in range(rng.int(2, 5)):
        kind = rng.weighted([('damaged', 8), ('cut', 4), ('hostile', 1), ('garbage', 1), ('other', 0.3)])
        if kind == 'cut':
            cut(ctx, gs, rng, path, data)
            continue
        if kind == 'damaged':
            bad = damage(rng, data)
        elif kind == 'hostile':
            bad = rng.pick(HOSTILE)
            if rng.chance(0.4):
                bad = damage(rng, bad)
        elif kind == 'garbage':
            n = rng.int(0, 300)
            bad = bytes(bytearray(rng.int(0, 255) for _ in range(n)))
            if rng.chance(0.7):
                # garbage as the track of a good header
                bad = smf.encode_file([], rng.pick([96, 0, 32768, 1]), 1) + b'MTrk' + bytes(smf.be(n, 4)) + bad
                bad = bad[:10] + b'\0\1' + bad[12:]
        else:
            bad = bytes(bytearray([77, 84, 104, 100])) + bytes(bytearray(rng.int(0, 255) for _ in range(rng.int(0, 40))))
        ctx.note(kind, list(bytearray(bad)))
        judge(ctx, gs, rng, path, bad, 'a %s file' % kind)
    if rng.chance(0.5):
        ctx.same(lib.canon(lib.snap(gs.gsio.fromMidiFile(ctx.good))), ctx.good_value, 'a good file imported afterwards')
        ctx.check(lib.read_bytes(ctx.good) == ctx.good_bytes, 'another file changed')
        ctx.files.check(ctx, 'importing a good file')
        ctx.hit('good files imported afterwards')
