# -*- coding: utf-8 -*-
"""A long history of operations on a small pool of patterns that are kept,
edited directly and operated on again, while the contracts watch every call."""
from __future__ import absolute_import, division, print_function

import gen
import lib

STEPS = [0.25, 0.5, 1, 0.125, 0.0625, 2, 1.0 / 3, 0.1]
LENGTHS = [1, 2, 4, 0.5, 0.25, 0.75, 1.5, 3, 1.0 / 3, 0.3, 16, 100]


def any_tag(rng, p):
    own = [e.tag for e in p.events]
    pool = own * 2 + [x for t in own if isinstance(t, tuple) for x in t] + ['a', 'Kick', 'silence', 'C', ('C', 'maj'), 'nope']
    return rng.pick(pool)


def any_time(rng, p):
    pool = [0, p.duration, rng.int(0, 64) / 16]
    for e in p.events:
        pool += [e.startTime, e.endTime(), e.startTime + e.duration / 2, e.startTime - 0.0625, e.endTime() - 0.03125]
    return rng.pick(pool)


def new_event(gs, rng, p):
    # near the end, at the start, or anywhere
    times = gen.Times(rng)
    start = rng.pick([times.at(rng, 4), times.at(rng, p.duration + 1), p.duration, 0])
    return gs.gspattern.Event(startTime=start, duration=times.len(rng, rng.pick([0.25, 1, 3])),
                              pitch=rng.pick([e.pitch for e in p.events] + [60, 36]), velocity=rng.int(1, 127),
                              tag=any_tag(rng, p))


class Session(object):
    def __init__(self, ctx, gs, rng, kinds=None, inside=True, big=0.012, **kw):
        self.ctx, self.gs, self.rng = ctx, gs, rng
        self.kinds = kinds
        self.pool = [gen.pattern(gs, rng, kinds=kinds, inside=inside, viewpoints=rng.weighted([(0, 3), (1, 1)]), big=big, **kw)
                     for _ in range(rng.int(1, 2))]
        for p in self.pool:
            if rng.chance(0.1):
                for e in p.events:
                    if rng.chance(0.3):
                        e.velocity = 0
            ctx.note('pattern', gen.show(p))
        ctx.sig(*[lib.evs(p.events) for p in self.pool])

    def p(self):
        return self.rng.pick(self.pool)

    def keep(self, q):
        """New patterns take part in what follows."""
        if q is not None and len(self.pool) < 4 and self.rng.chance(0.5):
            self.pool.append(q)
        elif q is not None and self.rng.chance(0.3):
            self.pool[self.rng.int(0, len(self.pool) - 1)] = q

    def do(self, op):
        self.ctx.hit('op ' + op)
        getattr(self, 'op_' + op)(self.rng, self.p())

    def run(self, ops, n):
        if any(k > 60 for k in self.pool_sizes()):
            n = min(n, 5)
            self.ctx.hit('large patterns')
        for _ in range(n):
            self.do(self.rng.weighted(ops))
        self.ctx.nontrivial = any(self.pool_sizes())

    def pool_sizes(self):
        return [len(p.events) for p in self.pool]

    # ---- slicing
    def op_split(self, rng, p):
        length = rng.pick(LENGTHS)
        if p.duration / length > (300 if len(self.pool) > 1 else 1100):
            length = p.duration
        vn = rng.pick(sorted(p.viewpoints)) if p.viewpoints and rng.chance(0.3) else None
        copy = rng.chance(0.8)
        self.ctx.note('split', length, vn, copy)
        src = p if vn is None else p.viewpoints[vn]
        if copy:
            kw = {} if rng.chance(0.4) else {'supressEmptyPattern': rng.chance(0.3)}
            res = p.splitInEqualLengthPatterns(length, viewpointName=vn, **kw)
        else:
            res = src.copy().splitInEqualLengthPatterns(length, makeCopy=False, supressEmptyPattern=rng.chance(0.5))
        if res and rng.chance(0.3):
            self.keep(rng.pick(res))

    def op_slice(self, rng, p):
        start, length = any_time(rng, p), rng.pick(LENGTHS) if rng.chance(0.9) else rng.pick([400, p.duration, p.duration + 1])
        trim = rng.chance(0.6)
        self.ctx.note('slice', start, length, trim)
        self.keep(p.patternFromTimeSlice(start, length, trimEnd=trim) if rng.chance(0.7) else
                  p.patternFromTimeSlice(start, length))

    # ---- grid
    def op_overlap(self, rng, p):
        q = p if rng.chance(0.5) else p.copy()
        pitch = rng.chance(0.5)
        self.ctx.note('removeOverlapped', pitch)
        q.removeOverlapped(usePitchValues=pitch)
        if rng.chance(0.2):
            q.removeOverlapped(usePitchValues=pitch)

    def op_align(self, rng, p):
        q = p if rng.chance(0.4) else p.copy()
        step = rng.pick(STEPS)
        if q.duration / step > (400 if len(self.pool) > 1 else 2100) or \
                len(q.events) > 60 and q.duration / step > 300:
            return
        if rng.chance(0.7):
            self.ctx.note('align', step)
            q.alignOnGrid(step)
        else:
            tags = [any_tag(rng, q) for _ in range(rng.int(0, 2))]
            self.ctx.note('align', step, tags)
            q.alignOnGrid(step, repeatibleTags=tags)

    def long(self, p, kw):
        m = kw.get('maxSilenceTime')
        return p.duration / (m or p.duration or 1) * (len(p.getAllTags()) if kw.get('perTag') else 1) > 2500

    def op_silences(self, rng, p):
        q = p if rng.chance(0.3) else p.copy()
        kw = {}
        if rng.chance(0.5):
            kw['maxSilenceTime'] = rng.pick([0.25, 0.5, 1, 0.3, 3, 0])
        if rng.chance(0.4):
            kw['perTag'] = True
        if rng.chance(0.3):
            kw['silenceTag'] = rng.pick(['silence', 'rest', ('a', 'rest'), 0])
        if rng.chance(0.3):
            kw['silencePitch'] = rng.int(0, 127)
        if self.long(q, kw):
            return
        self.ctx.note('silences', kw)
        q.fillWithSilences(**kw)

    def op_filled(self, rng, p):
        kw = {}
        if rng.chance(0.5):
            kw['maxSilenceTime'] = rng.pick([0.25, 0.5, 1, 0.3])
        if rng.chance(0.4):
            kw['perTag'] = True
        if rng.chance(0.3):
            kw['silenceTag'] = rng.pick(['silence', 'rest', ('a', 'rest')])
        if self.long(p, kw):
            return
        self.ctx.note('filled', kw)
        self.keep(p.getFilledWithSilences(**kw))

    def op_legato(self, rng, p):
        q = p if rng.chance(0.4) else p.copy()
        pitch = rng.chance(0.5)
        self.ctx.note('legato', pitch)
        q.applyLegato(usePitchValues=pitch)

    def op_previous(self, rng, p):
        q = p if rng.chance(0.4) else p.copy()
        self.ctx.note('fillWithPreviousEvent')
        q.fillWithPreviousEvent()

    def op_quantize(self, rng, p):
        q = p if rng.chance(0.4) else p.copy()
        step, s, d = rng.pick(STEPS), rng.chance(0.7), rng.chance(0.7)
        self.ctx.note('quantize', step, s, d)
        if rng.chance(0.15):
            q.quantize()
            step, s, d = 0.25, True, True
        elif rng.chance(0.3) and s and d:
            q.quantize(step)
        else:
            q.quantize(step, quantizeStartTime=s, quantizeDuration=d)
        once = lib.evs(q.events)
        q.quantize(step, s, d)
        lib.check_events(self.ctx, lib.evs(q.events), once, 'quantizing again by %r' % step)
        q.durationToLastEvent()

    def op_stretch(self, rng, p):
        q = p if rng.chance(0.4) else p.copy()
        ratio = rng.pick([2, 0.5, 4, 0.25, 3, 1.5, 1.0 / 3, 0.7, 1])
        before, dur = lib.evs(q.events), q.duration
        self.ctx.note('stretch', ratio)
        q.timeStretch(ratio)
        if rng.chance(0.5) or q.duration > 100 or q.duration < 0.5:
            q.timeStretch(1.0 / ratio)
            lib.check_events(self.ctx, lib.evs(q.events), before, 'stretching by %r and back' % ratio)
            self.ctx.close(q.duration, dur, 'duration after stretching and back')

    def op_transpose(self, rng, p):
        q = p if rng.chance(0.3) else p.copy()
        lo = min([e.pitch for e in q.events] + [60])
        interval = rng.int(-lo, 30)
        self.ctx.note('transpose', interval)
        before = [e.pitch for e in q.events]
        q.transpose(interval)
        if rng.chance(0.5) or max([e.pitch for e in q.events] + [0]) > 127:
            q.transpose(-interval)
            self.ctx.same([e.pitch for e in q.events], before, 'pitches after transposing and back')

    def op_bar(self, rng, p):
        q = p if rng.chance(0.4) else p.copy()
        if rng.chance(0.2):
            # hardly more than some bars
            q.duration = q.timeSignature[0] * rng.int(1, 4) + rng.pick([1 / 1024, 1 / 16384, -1 / 1024])
        self.ctx.note('bar')
        q.durationToBar()
        once = q.duration
        q.durationToBar()
        self.ctx.close(q.duration, once, 'duration after durationToBar twice')

    # ---- selections
    def op_with(self, rng, p):
        self._select(rng, p, 'getPatternWithTags', 'getPatternWithoutTags')

    def op_without(self, rng, p):
        self._select(rng, p, 'getPatternWithoutTags', 'getPatternWithTags')

    def _select(self, rng, p, method, other):
        kind = rng.int(0, 3)
        if kind == 0:
            what = [any_tag(rng, p) for _ in range(rng.int(0, 3) if rng.chance(0.9) else 12)]
            kw = {'exactSearch': False}
        elif kind == 1:
            first = any_tag(rng, p)
            what = lambda t: lib.tagkey(t) <= lib.tagkey(first)  # noqa: E731
            kw = {}
        else:
            what = any_tag(rng, p)
            kw = {'exactSearch': rng.chance(0.5)} if rng.chance(0.7) else {}
        copy = rng.chance(0.5)
        self.ctx.note(method, 'predicate' if callable(what) else what, kw, copy)
        a = getattr(p, method)(what, makeCopy=copy, **kw)
        exact = kw.get('exactSearch', method == 'getPatternWithTags')
        b = getattr(p, other)(what, exactSearch=exact, makeCopy=False)
        lib.check_events(self.ctx, lib.evs(a.events) + lib.evs(b.events), lib.evs(p.events),
                         'selection and exclusion by the same criterion')
        if copy:
            self.keep(a)

    def op_pitch(self, rng, p):
        pitch = rng.pick([e.pitch for e in p.events] * 3 + [60, 0])
        copy = rng.chance(0.5)
        self.ctx.note('getPatternWithPitch', pitch, copy)
        a = p.getPatternWithPitch(pitch, makeCopy=copy)
        if copy:
            self.keep(a)

    def op_active(self, rng, p):
        t = any_time(rng, p)
        self.ctx.note('active', t)
        p.activeEventsAtTime(t)
        for e in p.events[:6]:
            e.containsTime(t)

    def op_starting(self, rng, p):
        t = any_time(rng, p)
        if rng.chance(0.5):
            p.getStartingEventsAtTime(t)
        else:
            tol = rng.pick([0, 0.0625, 0.25, 1, 0.01, 2, 50])
            p.getStartingEventsAtTime(t, tolerance=tol)
        self.ctx.note('starting', t)

    def op_identical(self, rng, p):
        e = new_event(self.gs, rng, self.p())
        every = rng.chance(0.5)
        self.ctx.note('identical', e.tag, every)
        if rng.chance(0.3):
            p.getIdenticalEvents(e)
        else:
            p.getIdenticalEvents(e, allTagsMustBeEquals=every)
        for x in p.events[:6]:
            x.hasCommonTagWith(e)
            e.hasCommonTagWith(x)
            x.allTagsAreEqualWith(e)
            x.isTag(e.tag)
            x.hasOneOfTags([e.tag, any_tag(rng, p)])
            if isinstance(e.tag, tuple):
                x.hasOneOfTags(e.tag)

    def op_tags(self, rng, p):
        p.getAllTags()
        p.getAllPitches()

    # ---- edits
    def op_add(self, rng, p):
        e = new_event(self.gs, rng, p)
        self.ctx.note('add', lib.ev(e))
        p.addEvent(e)

    def op_add_inside(self, rng, p):
        e = new_event(self.gs, rng, p)
        if e.startTime >= p.duration:
            e.startTime = 0
        if e.endTime() > p.duration:
            e.duration = p.duration - e.startTime
        if e.duration > 0:
            self.ctx.note('add', lib.ev(e))
            p.addEvent(e)

    def op_remove(self, rng, p):
        if p.events:
            e = rng.pick(p.events)
            if rng.chance(0.3):
                e = e.copy()
            elif rng.chance(0.2):
                e = e.copy()
                e.velocity = 200
            self.ctx.note('remove', lib.ev(e))
            p.removeEvent(e)

    def op_remove_tags(self, rng, p):
        tags = [any_tag(rng, p) for _ in range(rng.int(0, 2) if rng.chance(0.9) else 9)]
        self.ctx.note('removeByTags', tags)
        p.removeByTags(tags)

    def op_set(self, rng, p):
        if p.events:
            i = rng.int(0, len(p.events) - 1)
            e = new_event(self.gs, rng, p)
            if e.startTime >= p.duration:
                e.startTime = 0
            e.duration = min(e.duration, p.duration - e.startTime)
            if e.duration > 0:
                self.ctx.note('set', i, lib.ev(e))
                p[i] = e

    def op_poke(self, rng, p):
        """Changes an event in place, as users do."""
        if p.events:
            e = rng.pick(p.events)
            what = rng.int(0, 4)
            if what == 0:
                e.tag = any_tag(rng, p)
            elif what == 1:
                e.pitch = rng.pick([x.pitch for x in p.events] + [61])
            elif what == 2:
                e.velocity = rng.int(1, 127)
            elif what == 3 and e.startTime >= 0.25:
                e.startTime -= 0.25
            elif e.duration > 0.25:
                e.duration -= 0.125
            self.ctx.note('poke', lib.ev(e))

    def op_instant(self, rng, p):
        """An event without duration (a marker)."""
        e = new_event(self.gs, rng, p)
        e.duration = 0
        if rng.chance(0.5):
            e.tag = 'mark%d' % rng.int(0, 2)
        self.ctx.note('add', lib.ev(e))
        p.addEvent(e)

    def op_reorder(self, rng, p):
        self.ctx.note('reorder')
        p.reorderEvents()

    def op_shuffle(self, rng, p):
        self.ctx.note('shuffle')
        rng.shuffle(p.events)

    def op_last(self, rng, p):
        p.lastNoteOff()

    def op_duration(self, rng, p):
        bigger = rng.chance(0.5)
        self.ctx.note('durationToLastEvent', bigger)
        if bigger and rng.chance(0.5):
            p.durationToLastEvent()
        else:
            p.durationToLastEvent(onlyIfBigger=bigger)

    def op_copy(self, rng, p):
        self.ctx.note('copy')
        self.keep(p.copy())

    def op_fresh(self, rng, p):
        q = gen.pattern(self.gs, rng, kinds=self.kinds)
        self.ctx.note('pattern', gen.show(q))
        self.keep(q)


EDITS = [('add_inside', 2), ('poke', 2), ('shuffle', 1), ('remove', 1), ('copy', 1), ('fresh', 1)]
