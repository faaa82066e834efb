from __future__ import absolute_import, division, print_function

import gen
import lib


def counted(t, ignored, included):
    """Is an event with tag t looked at?"""
    if isinstance(ignored, list):
        if t in ignored:
            return False
    elif t == ignored or isinstance(t, tuple) and ignored in t:
        return False
    if included:
        return t in included if isinstance(included, list) else t == included
    return True


def weights(n):
    """A beat's weight: the number of successive halvings of the loop that begin at it."""
    out = [0] * n
    width = n
    while width >= 1:
        for i in range(0, n, width):
            out[i] += 1
        width //= 2
    return out


def syncopation(events, n):
    w = weights(n)
    sounding = [any(s <= t < s + d for s, d, _, _, _ in events) for t in range(n)]
    return sum(abs(w[(t + 1) % n] - w[t]) for t in range(n) if sounding[t] and not sounding[(t + 1) % n])


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    D = gs.gsdescriptors
    pool = gen.tags(rng, rng.pick(['fs', 'f', 'fts', 'ftn']))
    choices = pool + ['silence', 'zz']
    kinds = []
    for _ in range(rng.int(1, 4)):
        ignored = None if rng.chance(0.5) else [rng.pick(choices) for _ in range(rng.int(1, 3))]
        included = None if rng.chance(0.4) else [rng.pick(choices) for _ in range(rng.int(1, 3))]
        if rng.chance(0.15):
            included = rng.pick([t for t in pool if t not in ('', 0)] or ['a'])
        if rng.chance(0.1):
            ignored = rng.pick([t for t in pool if t not in ('', 0)] or ['a'])
        cls = rng.pick([D.Density, D.NumberOfTags])
        kw = {}
        if ignored is not None:
            kw['ignoredTags'] = ignored
        if included is not None:
            kw['includedTags'] = included
        kinds.append((cls, ['silence'] if ignored is None else ignored, included, cls(**kw)))
    sync = D.Syncopation()
    drums = gs.gsextractors.DensityDrumSpace()
    patterns = []
    for _ in range(rng.int(1, 3)):
        beats = rng.pick([1, 2, 4, 8, 16, 32, 64] if rng.chance(0.3) else [4, 8])
        p = gs.gspattern.Pattern(duration=beats if rng.chance(0.7) else float(beats))
        drum_tags = pool + (['Kick', 'low Congas', 'snare', 'rimshot', 'shaker', 'closed hihat', 'hiconga', 'clave'] if rng.chance(0.3) else [])
        times = gen.Times(rng, rng.pick('qskk'))
        p.events = gen.events(gs, rng, times, beats, rng.int(0, 12), drum_tags, [36, 38, 60], rng.pick([0.25, 1, 1, 2]))
        for e in p.events:
            if rng.chance(0.03):
                # longer than the pattern lasts
                e.duration = rng.pick([beats + 1, 3 * beats, beats + 0.5])
        patterns.append(p)
        ctx.note('pattern', beats, lib.evs(p.events))
        ctx.sig(beats, lib.evs(p.events))
    for _ in range(rng.int(3, 10)):
        p = rng.pick(patterns)
        before = lib.snap(p)
        events = lib.evs(p.events)
        n = int(p.duration)
        what = rng.int(0, 3)
        if what <= 1:
            cls, ignored, included, d = rng.pick(kinds)
            got = d.getDescriptorForPattern(p)
            live = [e for e in events if counted(e[4], ignored, included)]
            want = sum(e[1] for e in live) if cls is D.Density else len(set(e[4] for e in live))
            ctx.note(cls.__name__, ignored, included)
            ctx.close(got, want, '%s(ignoring %r, including %r) of %r' % (cls.__name__, ignored, included, events))
            ctx.hit('judged ' + cls.__name__)
            ctx.nontrivial = ctx.nontrivial or bool(live)
        elif what == 2:
            plain = [e for e in events if e[4] != 'silence']
            if len(plain) != len(events):
                p.events = [e for e in p.events if e.tag != 'silence']
                events, before = plain, lib.snap(p)
            got = sync.getDescriptorForPattern(p)
            ctx.note('Syncopation')
            ctx.close(got, syncopation(events, n), 'syncopation over %d beats of %r' % (n, events))
            ctx.hit('judged Syncopation')
            ctx.nontrivial = ctx.nontrivial or got > 0
            if rng.chance(0.3):
                ctx.close(D.Syncopation().getDescriptorForPattern(p), got, 'syncopation by a new descriptor')
        else:
            got = drums.getFeatureSpace(p)
            sounding = [e for e in events if e[4] != 'silence']
            want = {'numberOfInstruments': len(set(e[4] for e in sounding)),
                    'loD': ['Kick', 'low Congas'], 'midD': ['snare', 'rimshot', 'hiconga'],
                    'hiD': ['closed hihat', 'shaker', 'clave']}
            for k in ('loD', 'midD', 'hiD'):
                want[k] = sum(e[1] for e in sounding if e[4] in want[k])
            ctx.same(sorted(got), sorted(want), 'features')
            for k in want:
                ctx.close(got[k], want[k], 'feature', k, 'of', events)
            ctx.hit('judged DensityDrumSpace')
        ctx.check(lib.snap(p) == before, 'describing changes the pattern')
        # the value depends on the pattern alone: edit it between the uses
        r = rng.int(0, 4)
        if r == 0:
            rng.shuffle(p.events)
        elif r == 1 and p.events:
            e = rng.pick(p.events)
            e.tag = rng.pick(choices)
        elif r == 2 and p.events:
            e = rng.pick(p.events)
            e.duration = rng.pick([0.5, 1, 0.25])
            e.startTime = rng.int(0, n - 1)
        elif r == 3 and p.events and rng.chance(0.5):
            p.events.pop()
        ctx.note('edit', r, lib.evs(p.events))
