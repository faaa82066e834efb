# -*- coding: utf-8 -*-
"""Generators of patterns.  Most times are dyadic (k/16), so that the library's
arithmetic on them is exact and every oracle can be too; some are not."""
from __future__ import absolute_import, division, print_function

import lib

NAMES = ["C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B"]

# names that are parts of each other, on purpose
FLAT_TAGS = ['a', 'ab', 'b', 'ba', 'Kick', 'Kick2', 'Snare', 'HH', 'C4', 'C', '']
TUPLE_TAGS = [('C', 'maj'), ('C', 'min'), ('x', 'y'), ('Kick', 'Snare'), ('ab', 'cd', 'ef'), ('z',)]
NUM_TAGS = [0, 1, 7, 60, 2.5]
DEEP_TAGS = [(('a', 'b'), 'c'), ('k', ('v', 1)), ((('q',),),)]


def dyadic(x):
    return x * 65536 == int(x * 65536)


class Times(object):
    """A family of times for one case."""

    def __init__(self, rng, kind=None):
        self.kind = kind or rng.weighted([('q', 4), ('s', 6), ('t', 2), ('k', 2), ('m', 1), ('u', 2)])
        self.unit = {'q': 0.25, 's': 0.0625, 't': 1.0 / 3, 'k': 1.0, 'm': 0.001, 'u': 0.25}[self.kind]
        self.exact = self.kind in 'qsku'

    def at(self, rng, hi):
        n = int(hi / self.unit + 1e-9)
        t = rng.int(0, max(0, n)) * self.unit
        if self.kind == 'u':        # hardly apart, and not the same
            t = min(hi, t + rng.pick([0, 0, 1 / 1024, 1 / 256, 1 / 128, 3 / 256, 1 / 16384]))
        return int(t) if self.kind == 'k' and rng.chance(0.5) else t

    def len(self, rng, hi):
        n = max(1, int(hi / self.unit + 1e-9))
        t = rng.int(1, n) * self.unit
        if self.kind == 'u':
            t = max(1 / 1024, t - rng.pick([0, 0, 1 / 1024, 1 / 256, 1 / 128, 63 / 256, 1 / 16384]))
        return t


def tags(rng, kinds=None):
    kinds = kinds or rng.weighted([('f', 5), ('t', 2), ('ft', 3), ('fs', 3), ('n', 1), ('fn', 1)])
    pool = []
    if 'f' in kinds:
        pool += rng.some(FLAT_TAGS, 1, 4)
    if 't' in kinds:
        pool += rng.some(TUPLE_TAGS, 1, 3)
    if 'n' in kinds:
        nums = rng.some(NUM_TAGS, 1, 3)
        pool += nums
        if rng.chance(0.5):
            pool.append(str(rng.pick(nums)))      # looks the same, is another tag
    if 'd' in kinds:
        pool += rng.some(DEEP_TAGS, 1, 2)
    if 's' in kinds:
        pool.append('silence')
    return pool


def events(gs, rng, times, duration, n, pool, pitches, maxlen=None, inside=True):
    out = []
    for _ in range(n):
        start = times.at(rng, duration)
        if inside and start >= duration:
            start = 0
        length = times.len(rng, maxlen or rng.pick([0.25, 1, 2, 4]))
        if inside and start + length > duration:
            length = duration - start
            if length <= 1e-9:
                continue
        e = gs.gspattern.Event(startTime=start, duration=length, pitch=rng.pick(pitches),
                               velocity=rng.int(1, 127), tag=rng.pick(pool))
        out.append(e)
        if rng.chance(0.08):
            # the same onset again, in another way
            out.append(gs.gspattern.Event(startTime=start, duration=times.len(rng, min(2, max(times.unit, duration - start))),
                                          pitch=rng.pick(pitches), velocity=rng.int(1, 127), tag=rng.pick(pool)))
            if inside and out[-1].endTime() > duration:
                out.pop()
    return out


def settings(rng, p, plain=False):
    p.bpm = rng.pick([120, 60, 97.5, 140.25, 174, 33])
    p.timeSignature = rng.pick([(4, 4), (3, 4), (6, 8), (5, 4), (7, 8), (2, 2)])
    p.key = rng.pick([None, 'C', 'Am', 'F#m', 'Eb', ''])
    p.resolution = rng.pick([960, 96, 480, 120, 24])
    p.name = 'p%d' % rng.int(0, 999)
    if not plain:
        p.startTime = rng.pick([0, 0, 0, 4, 1.5])
        p.originFilePath = rng.pick([None, None, '/some/where.mid'])
    return p


def pattern(gs, rng, kinds=None, n=None, duration=None, times=None, inside=True, sort=None,
            pitches=None, maxlen=None, viewpoints=0, big=0):
    if big and n is None and rng.chance(big):
        return large(gs, rng, kinds, inside)
    times = times or Times(rng)
    if duration is None:
        duration = rng.pick([1, 2, 4, 4, 8, 3, 5]) if not times.exact or rng.chance(0.7) else rng.int(4, 100) / 16
    if times.kind == 'm':
        duration = int(duration) or 1
    if n is None:
        n = rng.weighted([(0, 1), (1, 2), (rng.int(2, 5), 5), (rng.int(6, 14), 5), (rng.int(15, 30), 1)])
    pool = tags(rng, kinds)
    pitches = pitches or [rng.int(0, 127) for _ in range(rng.int(1, 4))]
    p = gs.gspattern.Pattern(duration=duration)
    p.events = events(gs, rng, times, duration, n, pool, pitches, maxlen, inside)
    if sort if sort is not None else rng.chance(0.4):
        p.events.sort(key=lambda e: e.startTime)
    settings(rng, p)
    for i in range(viewpoints):
        v = pattern(gs, rng, kinds, rng.int(0, 5), duration, times, True, None, pitches, maxlen)
        v.name = rng.pick(['chords', 'density', 'v%d' % i])
        v.originPattern = p
        p.viewpoints[v.name] = v
    return p


def large(gs, rng, kinds=None, inside=True):
    """Many events, many tags or a long time, or all of it."""
    times = Times(rng, rng.pick('qsku'))
    duration = rng.pick([4, 16, 64, 130, 300, 1000])
    pool = tags(rng, kinds)
    if rng.chance(0.5):
        n = rng.pick([12, 90, 300])
        pool = ['g%d' % i if kinds != 'n' else 100 + i for i in range(n)]
    pitches = [rng.int(0, 127) for _ in range(rng.pick([1, 3]))] if rng.chance(0.6) else list(range(128))
    p = gs.gspattern.Pattern(duration=duration)
    n = rng.pick([3, 20, 40, 70, 130, 280])
    p.events = events(gs, rng, times, duration, n, pool, pitches, rng.pick([0.25, 1, 4, duration]), inside)
    if rng.chance(0.3) and p.events:
        # one that lasts
        e = rng.pick(p.events)
        e.duration = duration - e.startTime if rng.chance(0.7) or inside else 2 * duration
    if rng.chance(0.5):
        p.events.sort(key=lambda e: e.startTime)
    settings(rng, p)
    return p


def show(p):
    """For the trace of a case."""
    return {'duration': p.duration, 'bpm': p.bpm, 'sig': tuple(p.timeSignature), 'key': p.key, 'name': p.name,
            'start': p.startTime, 'res': p.resolution, 'events': lib.evs(p.events),
            'viewpoints': sorted(p.viewpoints)}


def exact(p, *others):
    return all(dyadic(e.startTime) and dyadic(e.duration) for e in p.events) and dyadic(p.duration) and \
        all(dyadic(x) for x in others)


def name_of(pitch, names=NAMES):
    n = len(names)
    return '%s%d' % (names[pitch % n], pitch // n - 1)
