from __future__ import absolute_import, division, print_function

import gen
import lib


def chromas(events, duration):
    c = [0.0] * 12
    for s, d, p, v, t in events:
        if t != 'silence':
            c[p % 12] += d
    return c


def score(c, root, intervals, duration):
    """sounding time weighted 0.8 for chord notes, -1 for foreign notes, less half
    the duration for each missing chord note"""
    notes = set((root + i) % 12 for i in intervals)
    total = 0.0
    for pc in range(12):
        if pc in notes:
            total += 0.8 * c[pc]
        else:
            total -= c[pc]
        if pc in notes and c[pc] <= 0:
            total -= duration / 2.0
    return total


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    types = gs.gsdefs.chordTypes
    E, P = gs.gspattern.Event, gs.gspattern.Pattern
    force, every = rng.chance(0.25), rng.chance(0.4)
    d = gs.gsdescriptors.Chord(forceMajMin=force, allowDuplicates=every)
    duration = rng.pick([1, 2, 4, 4, 8, 3, 0.5]) if not rng.chance(0.05) else rng.pick([1 / 1024.0, 1 / 4096.0, 0.0005])
    names = sorted(types)
    kind = rng.weighted([('chord', 6), ('any', 5), ('silence', 1)])
    played = None
    if kind == 'chord':
        played = (rng.int(0, 11), rng.pick(names))
        length = rng.pick([duration, duration, duration / 2.0, duration / 4.0])
        if rng.chance(0.05):
            length = duration / rng.pick([1024.0, 4096.0])
        events = []
        for i in types[played[1]]:
            pc = (played[0] + i) % 12
            # (a note in up to two octaves)
            for octave in rng.some(range(1, 9), 1, 2 if rng.chance(0.3) else 1):
                events.append(E(rng.pick([0, duration - length]), length, pc + 12 * octave, rng.int(1, 127),
                                rng.pick([(), 'x', ('C', 'maj'), 'C4'])))
        rng.shuffle(events)
    elif kind == 'silence':
        events = [E(0, duration, rng.int(0, 127), 0, 'silence') for _ in range(rng.int(0, 3))]
    else:
        times = gen.Times(rng, rng.pick('qsu'))
        events = gen.events(gs, rng, times, duration, rng.int(1, 12), ['a', 'b', 'silence'] if rng.chance(0.2) else ['a', ('b', 'c')],
                            [rng.int(0, 120) for _ in range(rng.int(1, 7))])
    p = P(duration, events)
    values = lib.evs(p.events)
    ctx.note(kind, played, 'force' if force else '', 'every' if every else '', duration, values)
    ctx.sig(kind, played, force, every, duration, values)
    got = d.getDescriptorForPattern(p)
    c = chromas(values, duration)
    ctx.same(lib.evs(p.events), values, 'pattern after describing it')
    if not any(x > 0 for x in c):
        ctx.same(got, 'silence', 'chord of silence')
        ctx.hit('judged silence')
        return
    ctx.nontrivial = True
    allowed = dict((k, types[k]) for k in names if not force or k in ('maj', 'min'))
    scores = dict(((r, k), score(c, r, allowed[k], duration)) for r in range(12) for k in allowed)
    best = max(scores.values())
    slack = 1e-6 * min([1, duration] + [x for x in c if x > 0])
    answers = list(got) if every else [got]
    ctx.check(len(answers) > 0, 'no answer')
    pairs = []
    for a in answers:
        ctx.check(isinstance(a, tuple) and len(a) == 2 and a[0] in gen.NAMES and a[1] in allowed, 'answer', repr(a),
                  tuple(a), 'is no chord of the table', 'forced' if force else '')
        pairs.append((gen.NAMES.index(a[0]), a[1]))
    for a in pairs:
        ctx.check(scores[a] >= best - slack, 'answer', a, 'scores', scores[a], 'but',
                  sorted(k for k in scores if scores[k] > best - slack), 'score', best)
    ctx.hit('scores judged', len(scores))
    winners = [k for k in scores if scores[k] >= best - slack]
    if every:
        # each equal type is among the answers (with a root as good)
        # (ties between sums of 0.8 are only exact for notes of equal weight)
        if played is not None and not force and len(set(x for x in c if x > 0)) == 1 and 16 * max(c) >= duration:
            ctx.check(set(k[1] for k in winners) == set(k[1] for k in pairs), 'answers', pairs, 'but equally good are', winners)
        ctx.hit('judged duplicates')
    if played is not None and not force:
        pcs = set((played[0] + i) % 12 for i in types[played[1]])
        for a in pairs:
            ctx.check(set((a[0] + i) % 12 for i in types[a[1]]) == pcs, 'notes of', played, 'are recognised as', a)
        if every and len(set(x for x in c if x > 0)) == 1 and 16 * max(c) >= duration:
            same = [a for a in pairs if a[1] == played[1]]
            ctx.check(same, 'notes of', played, 'are recognised only as', pairs)
        ctx.hit('judged table chords')
    # transposed, shuffled and moved by octaves, the answer follows
    k = rng.int(-11, 11)
    q = P(duration, [E(s, n, pitch + k if 0 <= pitch + k <= 127 else pitch + k + (12 if k < 0 else -12), v, t)
                     for s, n, pitch, v, t in values])
    rng.shuffle(q.events)
    again = d.getDescriptorForPattern(q)
    moved = [again] if not every else list(again)
    if len(winners) == 1:
        ctx.check([tuple(a) for a in moved] == [(gen.NAMES[(a[0] + k) % 12], a[1]) for a in pairs],
                  'transposed by %d the answer' % k, pairs, 'becomes', [tuple(a) for a in moved])
        ctx.hit('judged transpositions')
    else:
        c2 = chromas(lib.evs(q.events), duration)
        for a in moved:
            s = score(c2, gen.NAMES.index(a[0]), types[a[1]], duration)
            ctx.check(s >= best - slack, 'transposed by %d the answer' % k, tuple(a), 'scores', s, 'instead of', best)
    if rng.chance(0.3):
        # a descriptor that has seen other patterns answers the same
        ctx.check(lib.canon(d.getDescriptorForPattern(p)) == lib.canon(got), 'asked again the answer differs')
