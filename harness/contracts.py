# -*- coding: utf-8 -*-
"""Contracts of Pattern and Event, as monitors around the real methods.

A monitor is called as mon(ctx, call, self, <arguments of the method>); it looks
at values before, lets the method run with call(), and judges the values after
from the definition of the operation.  Calls outside the domain of the property
run unjudged.  Monitors see every call, the library's own ones included."""
from __future__ import absolute_import, division, print_function

import bisect
import functools
import math

import gen
import lib
from lib import ev, evs, near, tagkey

REGISTRY = {}      # property -> {(class, method): monitor}


def contract(prop, cls, method):
    def deco(f):
        REGISTRY.setdefault(prop, {})[(cls, method)] = f
        return f
    return deco


def install(ctx, gs, *props):
    for prop in props:
        for (cls, method), mon in sorted(REGISTRY[prop].items()):
            _wrap(ctx, getattr(gs.gspattern, cls), method, mon, '%s.%s' % (cls, method))


def _wrap(ctx, cls, method, mon, label):
    original = getattr(cls, method)
    if hasattr(original, 'im_func'):
        original = original.im_func

    @functools.wraps(original)
    def wrapper(self, *a, **k):
        called = []

        def call():
            called.append(True)
            return original(self, *a, **k)
        ctx.depth += 1
        try:
            ctx.hit('calls ' + label + ('' if ctx.depth == 1 else ' (inner)'))
            try:
                return mon(ctx, call, self, *a, **k)
            except TypeError:
                if called:
                    raise
                return call()     # called in a way the contract does not describe
        except lib.Violation as e:
            if ctx.violation is None:
                ctx.violation = e
            raise
        finally:
            ctx.depth -= 1
    setattr(cls, method, wrapper)


def judged(ctx, label):
    ctx.hit('judged ' + label)
    ctx.hit('oracle_decisions')


def want(ctx, ok, *message):
    if not ok:
        ctx.fail(*message)


def valid(p):
    """Events with proper times."""
    return all(isinstance(e.startTime, (int, float)) and e.startTime >= 0 and e.duration > 0 for e in p.events)


def inside(p):
    return all(e.endTime() <= p.duration + 1e-9 for e in p.events)


def flat(p):
    """No tag is an element of another tag of the pattern."""
    tags = set(e.tag for e in p.events)
    return not any(isinstance(t, tuple) and any(u in t for u in tags if u != t) for t in tags)


def describe(p):
    return 'on %s' % lib.short(gen.show(p), 1500)


def same_meta(ctx, got, src, what):
    for k in ('bpm', 'key', 'resolution'):
        want(ctx, getattr(got, k) == getattr(src, k), what, 'changes', k, 'to', getattr(got, k))
    want(ctx, tuple(got.timeSignature) == tuple(src.timeSignature), what, 'changes the time signature to',
         got.timeSignature)


# ---------------------------------------------------------------- C08 slicing

def fragments(events, k, length):
    """Portions of the events sounding in [k*length, (k+1)*length), relative to it."""
    lo, hi = k * length, (k + 1) * length
    out = []
    for s, d, p, v, t in events:
        a, b = max(s, lo), min(s + d, hi)
        if b - a > lib.TOL:
            out.append((a - lo, b - a, p, v, t))
    return out


@contract('C08', 'Pattern', 'splitInEqualLengthPatterns')
def split(ctx, call, self, desiredLength, viewpointName=None, makeCopy=True, supressEmptyPattern=True, **extra):
    src = self.viewpoints[viewpointName] if viewpointName else self
    if extra or not valid(src) or desiredLength <= 0:
        return call()
    before, text = lib.snap(self), describe(src)
    events, duration = evs(src.events), src.duration
    res = call()
    what = 'splitInEqualLengthPatterns(%r, %r, %r, %r) %s:' % (
        desiredLength, viewpointName, makeCopy, supressEmptyPattern, text)
    ratio = duration / desiredLength
    n = int(math.ceil(ratio - 1e-7))
    slices = list(res)
    pos = 0
    for k in range(n):
        expected = fragments(events, k, desiredLength)
        got = slices[pos] if pos < len(slices) else None
        if got is None or not near(got.startTime, k * desiredLength):
            want(ctx, supressEmptyPattern and not expected, what, 'no slice at', k * desiredLength, 'where',
                 expected, 'sounds')
            continue
        pos += 1
        real = [e for e in evs(got.events) if e[1] > lib.TOL]
        want(ctx, lib.same_events(real, expected), what, 'slice at', k * desiredLength, ':',
             lib.diff_events(real, expected))
        want(ctx, not supressEmptyPattern or got.events, what, 'empty slice kept')
        want(ctx, near(got.duration, desiredLength), what, 'slice lasts', got.duration)
        same_meta(ctx, got, src, what)
        want(ctx, got.name == '%s_%d' % (src.name or '', k), what, 'slice at', k * desiredLength, 'is called', got.name)
        ctx.hit('slices judged')
        ctx.hit('fragments judged', len(expected))
    for extra_slice in slices[pos:]:
        # a rounding error may open one more slice, with nothing in it
        want(ctx, abs(ratio - round(ratio)) < 1e-6 and not [e for e in extra_slice.events if e.duration > lib.TOL] and
             pos + 1 == len(slices), what, 'unexpected slice at', extra_slice.startTime, evs(extra_slice.events))
    if makeCopy:
        want(ctx, lib.snap(self) == before, what, 'changes its source')
        mine = set(id(e) for e in src.events)
        want(ctx, not any(id(e) in mine for p in res for e in p.events), what, 'slices share events with the source')
    judged(ctx, 'splitInEqualLengthPatterns')
    return res


@contract('C08', 'Pattern', 'patternFromTimeSlice')
def time_slice(ctx, call, self, startTime, length, trimEnd=True, **extra):
    if extra or not valid(self) or length <= 0:
        return call()
    close = [e for e in self.events for edge in (startTime, startTime + length)
             if e.startTime != edge and abs(e.startTime - edge) < 1e-7]
    if not (gen.dyadic(startTime) and gen.dyadic(length)):
        close += [e for e in self.events if abs(e.startTime - startTime - length) < 1e-7]
    before, text = lib.snap(self), describe(self)
    res = call()
    if close:
        return res
    what = 'patternFromTimeSlice(%r, %r, %r) %s:' % (startTime, length, trimEnd, text)
    expected = []
    for s, d, p, v, t in before[1]:
        if startTime <= s < startTime + length:
            expected.append((s - startTime, min(d, startTime + length - s) if trimEnd else d, p, v, t))
    got = evs(res.events)
    want(ctx, lib.same_events(got, expected), what, lib.diff_events(got, expected))
    want(ctx, near(res.startTime, startTime), what, 'starts at', res.startTime)
    want(ctx, near(res.duration, length), what, 'lasts', res.duration)
    same_meta(ctx, res, self, what)
    want(ctx, lib.snap(self) == before, what, 'changes its source')
    mine = set(id(e) for e in self.events)
    want(ctx, not any(id(e) in mine for e in res.events), what, 'the slice shares events with its source')
    ctx.hit('fragments judged', len(expected))
    judged(ctx, 'patternFromTimeSlice')
    return res


# ---------------------------------------------------- C09 overlaps, alignment

def by_voice(events, key):
    out = {}
    for e in events:
        out.setdefault(key(e), []).append(e)
    return out


@contract('C09', 'Pattern', 'removeOverlapped')
def remove_overlapped(ctx, call, self, usePitchValues=False, **extra):
    if extra or not valid(self):
        return call()
    before, text = evs(self.events), describe(self)
    others = dict(lib.meta(self))
    res = call()
    after = evs(self.events)
    what = 'removeOverlapped(%r) %s:' % (usePitchValues, text)
    key = (lambda e: e[2]) if usePitchValues else (lambda e: e[4])
    old, new = by_voice(before, key), by_voice(after, key)
    want(ctx, set(old) == set(new), what, 'voices are now', sorted(map(tagkey, new)))
    for v in old:
        onsets = sorted(set(e[0] for e in old[v]))
        want(ctx, [e[0] for e in new[v]] == onsets, what, 'onsets of', v, 'are now', [e[0] for e in new[v]],
             'expected', onsets)
        for i, e in enumerate(new[v]):
            gap = onsets[i + 1] - onsets[i] if i + 1 < len(onsets) else float('inf')
            kept = [o for o in old[v] if o[0] == e[0] and o[2:] == e[2:] and near(e[1], min(o[1], gap))]
            want(ctx, kept, what, 'event', e, 'of', v, 'is none of',
                 [o for o in old[v] if o[0] == e[0]], 'cut at the next onset, in', gap)
        ctx.hit('voices judged')
        if len(onsets) > 1:
            ctx.hit('voices with several onsets')
    starts = [e[0] for e in after]
    want(ctx, starts == sorted(starts), what, 'not ordered in time')
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'removeOverlapped')
    return res


def has_tag(tag, wanted):
    return any(t == tag or (isinstance(tag, tuple) and t in tag) for t in wanted)


def sure_floor(x, exact):
    """floor of x, or None where rounding errors decide it"""
    if not exact and abs(x - round(x)) < 1e-6:
        return None
    return int(math.floor(x))


@contract('C09', 'Pattern', 'alignOnGrid')
def align(ctx, call, self, stepSize, repeatibleTags=('silence',), **extra):
    if extra or not valid(self) or stepSize <= 0:
        return call()
    before, text = evs(self.events), describe(self)
    others = dict(lib.meta(self))
    exact = gen.exact(self, stepSize) and gen.dyadic(1.0 / stepSize)
    wanted, sure = {}, True
    for s, d, p, v, t in before:
        pieces = 1
        if has_tag(t, repeatibleTags):
            pieces = sure_floor(d / stepSize, exact)
            if pieces is None:
                sure = False
                break
            pieces = max(1, pieces)
        for i in range(pieces):
            k = sure_floor((s + i * stepSize) / stepSize + 0.5, exact)
            last = sure_floor(self.duration / stepSize, exact)
            if k is None or (last is None and abs(k * stepSize - self.duration) < 1e-6):
                sure = False
                break
            if k * stepSize < self.duration:
                wanted.setdefault((t, k), []).append((p, v))
    res = call()
    if not sure:
        return res
    what = 'alignOnGrid(%r, %r) %s:' % (stepSize, list(repeatibleTags), text)
    seen = {}
    for s, d, p, v, t in evs(self.events):
        k = int(round(s / stepSize))
        want(ctx, near(s, k * stepSize), what, 'event at', s, 'off the grid')
        want(ctx, near(d, stepSize), what, 'event at', s, 'lasts', d)
        want(ctx, (t, k) not in seen, what, 'two events with tag', t, 'on step', k)
        want(ctx, (t, k) in wanted, what, 'unexpected event with tag', t, 'on step', k)
        want(ctx, (p, v) in wanted[(t, k)], what, 'event with tag', t, 'on step', k, 'has pitch and velocity', (p, v))
        seen[(t, k)] = True
    missing = [w for w in wanted if w not in seen]
    want(ctx, not missing, what, 'no event for', missing)
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    ctx.hit('steps judged', len(wanted))
    judged(ctx, 'alignOnGrid')
    return res


# ------------------------------------------------------------- C10 silences

def coverage(intervals, edges):
    """number of intervals over each elementary interval between edges"""
    starts = sorted(s for s, d in intervals if d > 0)
    ends = sorted(s + d for s, d in intervals if d > 0)
    out = []
    for a, b in zip(edges, edges[1:]):
        mid = (a + b) / 2
        out.append(bisect.bisect_right(starts, mid) - bisect.bisect_right(ends, mid))
    return out


def judge_silences(ctx, before, after, duration, maxTime, perTag, tag, pitch, what):
    rest = list(after)
    for e in before:
        hit = [i for i, a in enumerate(rest) if a == e]
        want(ctx, hit, what, 'event', e, 'is gone or changed')
        del rest[hit[0]]
    exact = all(gen.dyadic(x) for e in before for x in e[:2]) and gen.dyadic(maxTime)
    for s, d, p, v, t in rest:
        want(ctx, t == tag and p == pitch and v == 0, what, 'added', (s, d, p, v, t))
        # (steps of 0.1 and the like may leave a rest of no length)
        want(ctx, d > 0 or d > -1e-9 and not exact, what, 'added silence lasts', d)
        want(ctx, not maxTime or d <= maxTime + 1e-9, what, 'silence of', d, 'is longer than', maxTime)
    edges = sorted(set([0, duration] + [x for e in before + rest for x in (e[0], e[0] + e[1])]))
    thin = [edges[0]]
    for x in edges[1:]:
        if x - thin[-1] > lib.TOL:
            thin.append(x)
    got = coverage([(e[0], e[1]) for e in rest], thin)
    voices = list(by_voice(before, lambda e: e[4]).values()) if perTag else [before]
    expected = [0] * (len(thin) - 1)
    for v in voices:
        for i, c in enumerate(coverage([(e[0], e[1]) for e in v], thin)):
            if not c and (thin[i] + thin[i + 1]) / 2 < duration:
                expected[i] += 1
    for i in range(len(expected)):
        want(ctx, got[i] == expected[i], what, 'between', thin[i], 'and', thin[i + 1], 'there are', got[i],
             'silences instead of', expected[i])
    if not maxTime and exact:
        # one silence for each gap
        gaps = 0
        for v in voices:
            end = 0
            for s, d in sorted((e[0], e[1]) for e in v):
                gaps += s > end
                end = max(end, s + d)
            gaps += end < duration
        want(ctx, len(rest) == gaps, what, 'there are', len(rest), 'silences in', gaps, 'gaps')
        ctx.hit('gaps judged', gaps)
    ctx.hit('intervals judged', len(expected))
    ctx.hit('silences judged', len(rest))


@contract('C10', 'Pattern', 'fillWithSilences')
def silences(ctx, call, self, maxSilenceTime=0, perTag=False, silenceTag='silence', silencePitch=0, **extra):
    if extra or not valid(self) or not inside(self):
        return call()
    before, text, others = evs(self.events), describe(self), dict(lib.meta(self))
    call_res = call()
    what = 'fillWithSilences(%r, %r, %r, %r) %s:' % (maxSilenceTime, perTag, silenceTag, silencePitch, text)
    judge_silences(ctx, before, evs(self.events), self.duration, max(0, maxSilenceTime), perTag, silenceTag,
                   silencePitch, what)
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'fillWithSilences')
    return call_res


@contract('C10', 'Pattern', 'getFilledWithSilences')
def filled(ctx, call, self, maxSilenceTime=0, perTag=False, silenceTag='silence', **extra):
    if extra or not valid(self) or not inside(self):
        return call()
    before, text = lib.snap(self), describe(self)
    mine = set(id(e) for e in self.events)
    res = call()
    what = 'getFilledWithSilences(%r, %r, %r) %s:' % (maxSilenceTime, perTag, silenceTag, text)
    judge_silences(ctx, before[1], evs(res.events), before[0]['duration'], max(0, maxSilenceTime), perTag, silenceTag,
                   0, what)
    want(ctx, lib.snap(self) == before, what, 'changes its source')
    want(ctx, res is not self and not any(id(e) in mine for e in res.events), what, 'shares events with its source')
    want(ctx, lib.meta(res) == before[0], what, 'changes settings', lib.meta(res))
    judged(ctx, 'getFilledWithSilences')
    return res


# --------------------------------------------------------------- C11 legato

@contract('C11', 'Pattern', 'applyLegato')
def legato(ctx, call, self, usePitchValues=True, **extra):
    if extra or not valid(self) or not inside(self):
        return call()
    before = [(e, ev(e)) for e in self.events]
    text, others = describe(self), dict(lib.meta(self))
    res = call()
    what = 'applyLegato(%r) %s:' % (usePitchValues, text)
    # (whether a tuple tag is in the voices of its elements is not said)
    expected, exact = [], usePitchValues or flat(self)
    for e, (s, d, p, v, t) in before:
        voice = [o for _, o in before if (o[2] == p if usePitchValues else o[4] == t)]
        if len([o for o in voice if o[0] == s]) > 1:
            exact = False       # simultaneous notes of one voice: which one is the last is not said
        later = [o[0] for o in voice if o[0] > s]
        until = min(later) if later else self.duration
        expected.append((s, max(d, until - s), p, v, t))
    after = evs(self.events)
    if exact:
        want(ctx, lib.same_events(after, expected), what, lib.diff_events(after, expected))
        judged(ctx, 'applyLegato')
    else:
        for (e, old) in before:
            new = ev(e)
            want(ctx, new[0] == old[0] and new[2:] == old[2:], what, 'event', old, 'becomes', new)
            want(ctx, new[1] >= old[1] - 1e-9, what, 'event', old, 'is shortened to', new)
        for e, old in before:
            voice = [o for _, o in before if (o[2] == old[2] if usePitchValues else
                                              o[4] == old[4] or isinstance(o[4], tuple) and old[4] in o[4])]
            if len([o for o in voice if o[0] == old[0]]) == 1:
                least = min([o[0] for o in voice if o[0] > old[0]] + [self.duration]) - old[0]
                want(ctx, ev(e)[1] >= least - 1e-9, what, 'event', old, 'becomes', ev(e), 'and leaves silence in its voice')
            want(ctx, lib.near(ev(e)[1], old[1]) or any(lib.near(old[0] + ev(e)[1], x) for x in [o[0] for _, o in before] + [self.duration]),
                 what, 'event', old, 'becomes', ev(e), 'which ends where nothing begins')
        want(ctx, len(after) == len(before), what, 'number of events changes')
        ctx.hit('legato with simultaneous notes')
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    return res


@contract('C11', 'Pattern', 'fillWithPreviousEvent')
def fill_previous(ctx, call, self, **extra):
    if extra or not valid(self) or not all(e.startTime < self.duration for e in self.events):
        return call()
    before, text, others = evs(self.events), describe(self), dict(lib.meta(self))
    res = call()
    onsets = sorted(set(e[0] for e in before)) + [self.duration]
    expected = [(e[0], onsets[onsets.index(e[0]) + 1] - e[0], e[2], e[3], e[4]) for e in before]
    after = evs(self.events)
    what = 'fillWithPreviousEvent() %s:' % text
    want(ctx, lib.same_events(after, expected), what, lib.diff_events(after, expected))
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'fillWithPreviousEvent')
    return res


# ------------------------------------- C12 quantize, stretch, transpose, bars

def by_position(ctx, self, objects, what):
    """After an operation in place: its events, matched to those before."""
    want(ctx, len(self.events) == len(objects), what, 'has', len(self.events), 'events instead of', len(objects))
    where = dict((id(e), i) for i, e in enumerate(objects))
    if all(id(e) in where for e in self.events):
        out = [None] * len(objects)
        for e in self.events:
            out[where[id(e)]] = ev(e)
        return out
    return evs(self.events)


@contract('C12', 'Pattern', 'quantize')
def quantize(ctx, call, self, stepSize=0.25, quantizeStartTime=True, quantizeDuration=True, **extra):
    if extra or not valid(self) or stepSize <= 0:
        return call()
    objects = list(self.events)
    before, text, others = evs(self.events), describe(self), dict(lib.meta(self))
    res = call()
    what = 'quantize(%r, %r, %r) %s:' % (stepSize, quantizeStartTime, quantizeDuration, text)
    after = by_position(ctx, self, objects, what)
    for old, new in zip(before, after):
        want(ctx, new is not None and old[2:] == new[2:], what, 'event', old, 'becomes', new)
        for i, name, on in ((0, 'start', quantizeStartTime), (1, 'duration', quantizeDuration)):
            if not on:
                want(ctx, new[i] == old[i], what, name, 'of', old, 'becomes', new[i])
                continue
            k = round(new[i] / stepSize)
            want(ctx, abs(new[i] - k * stepSize) < 1e-6, what, name, 'of', old, 'becomes', new[i], 'off the grid')
            if i == 1 and old[1] < stepSize / 2:
                want(ctx, near(new[1], stepSize), what, 'duration of', old, 'becomes', new[1])
            else:
                want(ctx, abs(new[i] - old[i]) <= stepSize / 2 + 1e-6, what, name, 'of', old, 'becomes', new[i],
                     'which is not nearest')
            want(ctx, i == 0 or new[1] > stepSize / 2, what, 'duration of', old, 'becomes', new[1])
            ctx.hit('times quantized')
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'quantize')
    return res


@contract('C12', 'Pattern', 'timeStretch')
def stretch(ctx, call, self, ratio, **extra):
    if extra:
        return call()
    objects = list(self.events)
    before, text, others = evs(self.events), describe(self), dict(lib.meta(self))
    res = call()
    what = 'timeStretch(%r) %s:' % (ratio, text)
    after = by_position(ctx, self, objects, what)
    for old, new in zip(before, after):
        want(ctx, new is not None and near(new[0], old[0] * ratio, 1e-9) and near(new[1], old[1] * ratio, 1e-9) and
             old[2:] == new[2:], what, 'event', old, 'becomes', new)
    want(ctx, near(self.duration, others['duration'] * ratio, 1e-9), what, 'duration becomes', self.duration)
    others['duration'] = self.duration
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'timeStretch')
    return res


@contract('C12', 'Pattern', 'transpose')
def transpose(ctx, call, self, interval, **extra):
    if extra or not all(0 <= e.pitch + interval for e in self.events):
        return call()
    objects = list(self.events)
    before, text, others = evs(self.events), describe(self), dict(lib.meta(self))
    res = call()
    what = 'transpose(%r) %s:' % (interval, text)
    after = by_position(ctx, self, objects, what)
    for old, new in zip(before, after):
        want(ctx, new is not None and new[:2] == old[:2] and new[3] == old[3] and new[2] == old[2] + interval and
             new[4] == gen.name_of(new[2]), what, 'event', old, 'becomes', new)
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'transpose')
    return res


@contract('C12', 'Pattern', 'durationToBar')
def to_bar(ctx, call, self, **extra):
    if extra:
        return call()
    before, others, bar = evs(self.events), dict(lib.meta(self)), self.timeSignature[0]
    res = call()
    what = 'durationToBar() with %r from %r:' % (self.timeSignature, others['duration'])
    want(ctx, near(self.duration / bar, round(self.duration / bar)), what, self.duration, 'is no number of bars')
    want(ctx, self.duration >= others['duration'] - 1e-9 and self.duration - bar < others['duration'] or
         self.duration == others['duration'] == 0, what, 'gives', self.duration)
    others['duration'] = self.duration
    want(ctx, dict(lib.meta(self)) == others and evs(self.events) == before, what, 'changes other fields')
    judged(ctx, 'durationToBar')
    return res


# ------------------------------------------------------------ C13 selections

def criterion(tagToLookFor, exactSearch):
    if isinstance(tagToLookFor, list):
        return lambda t: any(t == x for x in tagToLookFor)
    if callable(tagToLookFor):
        return tagToLookFor
    if exactSearch:
        return lambda t: t == tagToLookFor
    return lambda t: t == tagToLookFor or (isinstance(t, tuple) and any(x == tagToLookFor for x in t))


def judge_selection(ctx, self, res, before, objects, keep, makeCopy, what):
    expected = [(o, b) for o, b in zip(objects, before[1]) if keep(b)]
    got = res.events
    want(ctx, evs(got) == [b for _, b in expected], what, 'got', evs(got), 'expected', [b for _, b in expected])
    if makeCopy:
        mine = set(id(e) for e in objects)
        want(ctx, not any(id(e) in mine for e in got), what, 'the copy holds events of its source')
    else:
        want(ctx, all(g is o for g, (o, _) in zip(got, expected)), what, 'does not hold the very same events')
    want(ctx, res is not self and res.events is not self.events, what, 'shares its event list')
    want(ctx, lib.snap(self) == before, what, 'changes its source')
    ctx.hit('selected events', len(expected))
    ctx.hit('rejected events', len(objects) - len(expected))


def selection(method, default_exact, negate):
    @contract('C13', 'Pattern', method)
    def select(ctx, call, self, tagToLookFor, exactSearch=default_exact, makeCopy=True, **extra):
        if extra:
            return call()
        before, objects, text = lib.snap(self), list(self.events), describe(self)
        res = call()
        match = criterion(tagToLookFor, exactSearch)
        what = '%s(%r, %r, %r) %s:' % (method, 'predicate' if callable(tagToLookFor) else tagToLookFor, exactSearch,
                                       makeCopy, text)
        judge_selection(ctx, self, res, before, objects, lambda b: bool(match(b[4])) != negate, makeCopy, what)
        judged(ctx, method)
        return res
    return select


selection('getPatternWithTags', True, False)
selection('getPatternWithoutTags', False, True)


@contract('C13', 'Pattern', 'getPatternWithPitch')
def with_pitch(ctx, call, self, pitch, makeCopy=True, **extra):
    if extra:
        return call()
    before, objects, text = lib.snap(self), list(self.events), describe(self)
    res = call()
    judge_selection(ctx, self, res, before, objects, lambda b: b[2] == pitch, makeCopy,
                    'getPatternWithPitch(%r, %r) %s:' % (pitch, makeCopy, text))
    judged(ctx, 'getPatternWithPitch')
    return res


def judge_list(ctx, self, res, before, keep, what):
    """keep(event values) is True, False, or None where rounding decides"""
    verdicts = [(e, keep(ev(e))) for e in self.events]
    got = list(res)
    doubtful = set(id(e) for e, k in verdicts if k is None)
    sure = [e for e in got if id(e) not in doubtful]
    expected = [e for e, k in verdicts if k]
    want(ctx, len(sure) == len(expected) and all(a is b for a, b in zip(sure, expected)), what, 'got', evs(sure),
         'expected', evs(expected))
    want(ctx, lib.snap(self) == before, what, 'changes its source')
    ctx.hit('query answers', len(expected))


@contract('C13', 'Pattern', 'activeEventsAtTime')
def active(ctx, call, self, time, *rest, **extra):
    before, text = lib.snap(self), describe(self)
    res = call()
    if rest or extra:
        return res

    def keep(e):
        s, end = e[0], e[0] + e[1]
        if time == s:
            return e[1] > 0
        if abs(time - s) < 1e-9 or abs(time - end) < 1e-9 and not gen.exact(self, time):
            return None
        return s <= time < end
    judge_list(ctx, self, res, before, keep, 'activeEventsAtTime(%r) %s:' % (time, text))
    judged(ctx, 'activeEventsAtTime')
    return res


@contract('C13', 'Pattern', 'getStartingEventsAtTime')
def starting(ctx, call, self, time, tolerance=0, **extra):
    before, text = lib.snap(self), describe(self)
    res = call()
    if extra or tolerance < 0:
        return res

    def keep(e):
        if time == e[0]:
            return True
        if abs(time - e[0]) < 1e-9 or abs(time - e[0] - tolerance) < 1e-9 and not gen.exact(self, time, tolerance):
            return None
        return 0 <= time - e[0] <= tolerance
    judge_list(ctx, self, res, before, keep, 'getStartingEventsAtTime(%r, %r) %s:' % (time, tolerance, text))
    judged(ctx, 'getStartingEventsAtTime')
    return res


def common(t, u):
    """one tag in common: the whole of t, or an element of it, is u or in u"""
    elements = t if isinstance(t, tuple) else (t,)
    return any(x == u or isinstance(u, tuple) and x in u for x in elements)


@contract('C13', 'Pattern', 'getIdenticalEvents')
def identical(ctx, call, self, event, allTagsMustBeEquals=True, **extra):
    before, text = lib.snap(self), describe(self)
    res = call()
    if extra:
        return res

    def keep(e):
        if allTagsMustBeEquals:
            return e[4] == event.tag
        a, b = common(event.tag, e[4]), common(e[4], event.tag)
        return a if a == b else None      # nested tags: which way round is not said
    judge_list(ctx, self, res, before, keep, 'getIdenticalEvents(%r, %r) %s:' % (event.tag, allTagsMustBeEquals, text))
    judged(ctx, 'getIdenticalEvents')
    return res


@contract('C13', 'Pattern', 'getAllTags')
def all_tags(ctx, call, self, *rest, **extra):
    before, text = lib.snap(self), describe(self)
    res = call()
    if rest or extra:
        return res
    expected = set(e[4] for e in before[1])
    want(ctx, len(list(res)) == len(expected) and set(res) == expected, 'getAllTags()', text, ': got', res)
    want(ctx, lib.snap(self) == before, 'getAllTags()', text, 'changes its source')
    judged(ctx, 'getAllTags')
    return res


@contract('C13', 'Pattern', 'getAllPitches')
def all_pitches(ctx, call, self, *rest, **extra):
    before, text = lib.snap(self), describe(self)
    res = call()
    if rest or extra:
        return res
    expected = sorted(set(e[2] for e in before[1]))
    want(ctx, sorted(res) == expected, 'getAllPitches()', text, ': got', res)
    want(ctx, lib.snap(self) == before, 'getAllPitches()', text, 'changes its source')
    judged(ctx, 'getAllPitches')
    return res


@contract('C13', 'Event', 'hasOneOfTags')
def has_one(ctx, call, self, tags, **extra):
    wanted = list(tags) if isinstance(tags, (list, tuple, set, frozenset)) else None
    res = call()
    if extra or wanted is None:
        return res
    want(ctx, bool(res) == has_tag(self.tag, wanted), 'hasOneOfTags(%r) on tag' % (tags,), self.tag, 'gives', res)
    judged(ctx, 'hasOneOfTags')
    return res


@contract('C13', 'Event', 'isTag')
def is_tag(ctx, call, self, tag, **extra):
    res = call()
    want(ctx, bool(res) == (self.tag == tag), 'isTag(%r) on' % (tag,), self.tag, 'gives', res)
    judged(ctx, 'isTag')
    return res


@contract('C13', 'Event', 'allTagsAreEqualWith')
def all_equal(ctx, call, self, myEvent, **extra):
    res = call()
    want(ctx, bool(res) == (self.tag == myEvent.tag), 'allTagsAreEqualWith', myEvent.tag, 'on', self.tag, 'gives', res)
    judged(ctx, 'allTagsAreEqualWith')
    return res


@contract('C13', 'Event', 'hasCommonTagWith')
def has_common(ctx, call, self, event, **extra):
    res = call()
    a, b = common(self.tag, event.tag), common(event.tag, self.tag)
    if a == b:
        want(ctx, bool(res) == a, 'hasCommonTagWith', event.tag, 'on', self.tag, 'gives', res)
        judged(ctx, 'hasCommonTagWith')
    return res


@contract('C13', 'Event', 'containsTime')
def contains(ctx, call, self, time, **extra):
    res = call()
    s, d = self.startTime, self.duration
    if time == s or min(abs(time - s), abs(time - s - d)) > 1e-9 or all(map(gen.dyadic, (time, s, d))):
        want(ctx, bool(res) == (s <= time < s + d), 'containsTime(%r) on' % time, ev(self), 'gives', res)
        judged(ctx, 'containsTime')
    return res


# ----------------------------------------------------------------- C14 edits

def ids(p):
    return [id(e) for e in p.events]


@contract('C14', 'Pattern', 'addEvent')
def add_event(ctx, call, self, myEvent, **extra):
    if extra or not valid(self):
        return call()
    objects, before, text = list(self.events), evs(self.events), describe(self)
    others, value = dict(lib.meta(self)), ev(myEvent)
    res = call()
    what = 'addEvent(%r) %s:' % (value, text)
    want(ctx, sorted(ids(self)) == sorted(map(id, objects + [myEvent])), what, 'the events are now', evs(self.events))
    want(ctx, [ev(e) for e in objects] == before and ev(myEvent) == value, what, 'changes events')
    old, end = others['duration'], value[0] + value[1]
    allowed = [max(old, end), max([old, end] + [b[0] + b[1] for b in before])]
    want(ctx, any(near(self.duration, a, 1e-9) for a in allowed), what, 'duration becomes', self.duration)
    others['duration'] = self.duration
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'addEvent')
    return res


@contract('C14', 'Pattern', 'removeEvent')
def remove_event(ctx, call, self, event, **extra):
    if extra:
        return call()
    objects, before, text = list(self.events), evs(self.events), describe(self)
    others, value = dict(lib.meta(self)), ev(event)
    res = call()
    what = 'removeEvent(%r) %s:' % (value, text)
    left = [id(o) for o, b in zip(objects, before) if b != value]
    want(ctx, ids(self) == left, what, 'the events are now', evs(self.events))
    want(ctx, [ev(e) for e in objects] == before, what, 'changes events')
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'removeEvent')
    return res


@contract('C14', 'Pattern', 'removeByTags')
def remove_by_tags(ctx, call, self, tags, **extra):
    if extra or not isinstance(tags, (list, tuple)):
        return call()
    objects, before, text = list(self.events), evs(self.events), describe(self)
    others = dict(lib.meta(self))
    res = call()
    what = 'removeByTags(%r) %s:' % (tags, text)
    left = [id(o) for o, b in zip(objects, before) if not has_tag(b[4], tags)]
    want(ctx, ids(self) == left, what, 'the events are now', evs(self.events))
    want(ctx, [ev(e) for e in objects] == before, what, 'changes events')
    want(ctx, dict(lib.meta(self)) == others, what, 'changes other fields')
    judged(ctx, 'removeByTags')
    return res


@contract('C14', 'Pattern', 'reorderEvents')
def reorder(ctx, call, self, **extra):
    objects, before, text = list(self.events), evs(self.events), describe(self)
    others = dict(lib.meta(self))
    res = call()
    expected = [id(o) for o in sorted(objects, key=lambda e: e.startTime)]
    what = 'reorderEvents() %s:' % text
    want(ctx, ids(self) == expected, what, 'the events are now', evs(self.events))
    want(ctx, [ev(e) for e in objects] == before and dict(lib.meta(self)) == others, what, 'changes values')
    judged(ctx, 'reorderEvents')
    return res


@contract('C14', 'Pattern', 'lastNoteOff')
def last_off(ctx, call, self, **extra):
    before, text = lib.snap(self), describe(self)
    res = call()
    what = 'lastNoteOff() %s:' % text
    ends = [e[0] + e[1] for e in before[1]]
    want(ctx, (res is None and not ends) or (ends and res is not None and near(res, max(ends), 1e-9)), what, 'gives', res)
    want(ctx, sorted(map(tagkey, evs(self.events))) == sorted(map(tagkey, before[1])) and
         lib.meta(self) == before[0], what, 'changes values')
    judged(ctx, 'lastNoteOff')
    return res


@contract('C14', 'Pattern', 'durationToLastEvent')
def to_last(ctx, call, self, onlyIfBigger=True, **extra):
    if extra:
        return call()
    before, text = lib.snap(self), describe(self)
    res = call()
    what = 'durationToLastEvent(%r) %s:' % (onlyIfBigger, text)
    ends = [e[0] + e[1] for e in before[1]]
    old = before[0]['duration']
    expected = old if not ends else max(ends + [old]) if onlyIfBigger else max(ends)
    want(ctx, near(self.duration, expected, 1e-9), what, 'duration becomes', self.duration)
    others = dict(before[0], duration=self.duration)
    want(ctx, sorted(map(tagkey, evs(self.events))) == sorted(map(tagkey, before[1])) and
         lib.meta(self) == others, what, 'changes values')
    judged(ctx, 'durationToLastEvent')
    return res
