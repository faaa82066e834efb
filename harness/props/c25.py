# -*- coding: utf-8 -*-
"""Generated basslines, variations and constrained models, against an
independent constraint solver on recounted sequences."""
from __future__ import absolute_import, division, print_function

import json
import os
import random

import numpy as np

import bass
import c20
import lib


def learn(rng, bm):
    """A model and its counts; beat patterns may be shared, rare or followed by nothing."""
    m, c = bm.MarkovModel(16), bass.Counts()
    pool = rng.some(range(16), 1, rng.pick([2, 4, 6, 10]))
    kicks = rng.some(range(16), 1, rng.pick([1, 2, 4]))
    history = []
    for _ in range(rng.int(1, 6)):
        b = bass.sequence(rng, pool)
        k = bass.sequence(rng, kicks, rng.pick([len(b), None]))
        m.add_temporal(b)
        c.temporal(b)
        m.add_interlocking(k, b)
        c.interlocking(k, b)
        history.append((k, b))
    if rng.chance(0.1):
        # one that many follow, some often and some hardly ever
        a = rng.pick(pool)
        for b in rng.some(range(16), 5, 16):
            s = [a, b] * rng.pick([1, 1, 2, 20, 60])
            k = bass.sequence(rng, kicks, len(s))
            m.add_temporal(s)
            c.temporal(s)
            m.add_interlocking(k, s)
            c.interlocking(k, s)
            history.append((k, s))
    if rng.chance(0.15):
        k, b = bass.sequence(rng, kicks), bass.sequence(rng, range(16))
        m.add_interlocking(k, b)
        c.interlocking(k, b)
        history.append((k, b, 'interlocking only'))
    if rng.chance(0.1):
        b = [rng.int(0, 15)]
        m.add_temporal(b)
        c.temporal(b)
        history.append((None, b))
    m.normalize_model()
    return m, c, history, kicks


def as_pattern(gs, rng, ids, name='target'):
    P, E = gs.gspattern.Pattern, gs.gspattern.Event
    p = P(rng.pick([len(ids), float(len(ids)), len(ids) - 0.25 if not ids[-1] & 1 else len(ids)]))
    if not ids[-1] & 7 and rng.chance(0.2):
        # hardly longer than the beats before the last
        p.duration = len(ids) - 1 + rng.pick([0.25, 1 / 256.0, 0.001])
    for t in bass.onsets(ids):
        for _ in range(2 if rng.chance(0.1) else 1):
            p.events.append(E(t, rng.pick([0.25, 0.1, 0.5]), 36, rng.int(1, 127), 'Kick'))
    rng.shuffle(p.events)
    p.name = name
    return p


def snapshot(m):
    counts = [getattr(m, n, 0) for n in ('support_initial', 'support_temporal', 'support_interlocking')]
    return [np.array(x, copy=True) for x in [m.get_initial(), m.get_temporal(), m.get_interlocking()] + counts] + [
        repr(m.model_dictionary)]


def unchanged(ctx, m, before, what):
    now = snapshot(m)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(now[:-1], before[:-1])) and now[-1] == before[-1], 'the model after', what)
    ctx.hit('models compared')


def saved(ctx, folder, name, want, what):
    with open(os.path.join(folder, name)) as f:
        got = json.load(f)
    ctx.check(got == json.loads(json.dumps(want)), what, 'saved in', name, got, 'instead of', want)
    ctx.hit('saved models judged')


def judge_transitions(ctx, c, ids, what):
    ctx.check(ids[0] in c.init or what == 'variation', what, 'begins with', ids[0], 'of', sorted(c.init))
    for a, b in zip(ids, ids[1:]):
        ctx.check(b in c.trans.get(a, {}), what, ids, 'goes from', a, 'to', b)
        ctx.hit('transitions judged')


def frequencies(ctx, draws, want, what):
    """draws: {(step, previous): {id: times}}; want(step, previous) -> weights"""
    for (i, a), d in draws.items():
        w = want(i, a)
        n = sum(d.values())
        for b, x in w.items():
            ctx.check(c20.unlikely(n, d.get(b, 0), x / sum(w.values())) > 1e-12, what, 'at beat', i, 'after', a, ': pattern', b,
                      'of probability', x / sum(w.values()), 'was chosen', d.get(b, 0), 'times of', n)
            ctx.hit('frequencies judged')


def draw(draws, ids, first=True):
    if first:
        d = draws.setdefault((0, None), {})
        d[ids[0]] = d.get(ids[0], 0) + 1
    for i, (a, b) in enumerate(zip(ids, ids[1:])):
        d = draws.setdefault((i + 1, a), {})
        d[b] = d.get(b, 0) + 1


def free(ctx, rng, gs, bm, m, c, many):
    if any(b not in c.trans for b in c.init):
        return      # a beginning without continuation
    beats = rng.pick([8, 4, 1, 2, 16, rng.int(1, 24)])
    draws = {}
    for _ in range(many):
        p = bm.generateBassRhythm(m, beats) if beats != 8 or rng.chance(0.5) else bm.generateBassRhythm(m)
        ids = bass.read_bassline(ctx, p, beats, 'bassline')
        judge_transitions(ctx, c, ids, 'bassline')
        draw(draws, ids)
        ctx.hit('free basslines judged')
    if many > 20:
        frequencies(ctx, draws, lambda i, a: c.init if a is None else c.trans[a], 'bassline')


def interlocked(ctx, rng, gs, bm, m, c, kicks, many):
    n = rng.pick([4, 8, 2, 1, 3, rng.int(1, 16)])
    pool = kicks if rng.chance(0.8) else kicks + [rng.int(0, 15)]
    ids = bass.sequence(rng, pool, n)
    if not any(ids):
        return
    metronome = c.inter.get(8)
    allowed = []
    for k in ids:
        row = c.inter.get(k, metronome)
        if row is None:
            ctx.hit('targets without solution')
            return
        if k not in c.inter:
            ctx.hit('beats of unknown kick patterns')
        allowed.append(set(row))
    problem = bass.Problem(c, allowed)
    first = problem.first()
    target = as_pattern(gs, rng, ids)
    ctx.note('target', ids, target.duration)
    if not first:
        ctx.hit('targets without solution')
        return
    ctx.nontrivial = True
    before = lib.snap(target)
    folder = os.path.join(ctx.scratch, 'nh') + '/'
    if not os.path.isdir(folder):
        os.makedirs(folder)
    res = bm.constrainMM(m, target, folder) if rng.chance(0.7) else bm.constrainMM(m, target)
    where = folder if os.path.exists(folder + 'NHModel.json') else os.path.join(ctx.scratch, 'output')
    bass.judge_constrained(ctx, res, problem, first, 'interlocking model of %s' % ids)
    saved(ctx, where, 'NHModel.json', res[1], 'interlocking model')
    saved(ctx, where, 'Model_init.json', res[0], 'its beginning')
    if where == folder:
        os.remove(folder + 'NHModel.json')
    beats = rng.pick([n, n, n + 3, 8, 1, rng.int(1, n)])
    draws = {}
    for _ in range(many):
        if rng.chance(0.2) and hasattr(bm, '_generateBassRhythm'):
            # from the constrained model itself
            p = bm._generateBassRhythm(res, min(n, beats))
        else:
            p = bm.generateBassRhythm(m, beats, target) if rng.chance(0.7) else bm.generateBassRhythm(m, target=target, beat_length=beats)
        got = bass.read_bassline(ctx, p, min(n, beats), 'bassline on %s' % ids)
        judge_transitions(ctx, c, got, 'bassline on %s' % ids)
        for b, (g, a) in enumerate(zip(got, allowed)):
            ctx.check(g in a, 'bassline', got, 'on kicks', ids, 'has at beat', b, 'none of', sorted(a))
        ctx.hit('interlocked basslines judged')
        draw(draws, got)
    if many > 20:
        frequencies(ctx, draws, lambda i, a: first if a is None else problem.next(i - 1, a), 'interlocked bassline')
    ctx.check(lib.snap(target) == before, 'the target after generating is', lib.snap(target), 'was', before)


def varied(ctx, rng, gs, bm, m, c, many):
    n = rng.pick([4, 8, 2, 3, 1, rng.int(1, 16)]) if not rng.chance(0.05) else rng.int(17, 40)
    if rng.chance(0.8) and c.trans:
        # a bassline the model could play
        ids = [rng.pick(sorted(c.trans))]
        while len(ids) < n:
            ids.append(rng.pick(sorted(c.trans[ids[-1]])))
    else:
        ids = [rng.int(0, 15) for _ in range(n)]
    mask = [rng.pick([1, -1, 2, -3]) for _ in range(n)] if rng.chance(0.8) else [rng.pick([1, -1])] * n
    target = as_pattern(gs, rng, ids)
    allowed = [set([k]) if i == 0 or mask[i] > 0 else set(c.trans) for i, k in enumerate(ids)]
    problem = bass.Problem(c, allowed)
    ctx.note('variation', ids, mask)
    if not problem.ok[0]:
        ctx.hit('targets without solution')
        return
    ctx.nontrivial = True
    before = lib.snap(target)
    given = list(mask)
    masked = [k if i == 0 or mask[i] > 0 else rng.pick([-1, -k - 1]) for i, k in enumerate(ids)]
    if ids[0] in c.trans or n == 1:
        asked = list(masked)
        res = bm.variationMM(m, masked)
        ctx.same(masked, asked, 'the masked target after constraining')
        ctx.check(int(res[0]['initial']['pattern']) == ids[0] and res[0]['initial']['prob'] == 1, 'variation begins', res[0])
        bass.judge_steps(ctx, res[1], problem, {ids[0]: 1}, 'variation model of %s' % masked)
        saved(ctx, os.path.join(ctx.scratch, 'output'), 'NHModel_var.json', res[1], 'variation model')
        saved(ctx, os.path.join(ctx.scratch, 'output'), 'Model_init_var.json', res[0], 'its beginning')
    draws = {}
    for _ in range(many):
        p = bm.generateBassRhythmVariation(m, target, mask + ([1] if rng.chance(0.1) else []))
        got = bass.read_bassline(ctx, p, n, 'variation')
        judge_transitions(ctx, c, got, 'variation')
        for i, k in enumerate(ids):
            if i == 0 or mask[i] > 0:
                ctx.check(got[i] == k, 'variation', got, 'of', ids, 'with mask', mask, 'changed beat', i)
                ctx.hit('preserved beats judged')
        ctx.hit('variations judged')
        draw(draws, got, False)
    if many > 20:
        frequencies(ctx, draws, lambda i, a: problem.next(i - 1, a), 'variation')
    ctx.same(mask, given, 'the mask after generating')
    ctx.check(lib.snap(target) == before, 'the target after varying is', lib.snap(target), 'was', before)
    if rng.chance(0.2) and n > 1:
        short = bm.generateBassRhythmVariation(m, target, mask[:n - 2])
        ctx.check(short is None, 'a mask that is too short gave', short)


def sampled(ctx, rng, bm):
    """Indices drawn from a list of probabilities."""
    w = [rng.pick([0, 1, 1, 2, 5]) for _ in range(rng.int(1, 8))]
    if not any(w):
        w[rng.int(0, len(w) - 1)] = 1
    p = [x / float(sum(w)) for x in w]
    if rng.chance(0.3):
        p = np.array(p)
    given = list(p)
    n = rng.pick([1, 10, 400])
    ctx.note('sampling', given, n)
    seen = {}
    for _ in range(n):
        k = bm.pdf_sampling(p)
        seen[k] = seen.get(k, 0) + 1
    ctx.same(list(p), given, 'probabilities after sampling')
    for k in sorted(seen):
        ctx.check(0 <= k < len(w) and w[k], 'index', k, 'drawn of', given)
    for k, x in enumerate(given):
        if x:
            ctx.check(c20.unlikely(n, seen.get(k, 0), x) > 1e-12, 'index', k, 'of probability', x, 'was drawn', seen.get(k, 0), 'times of', n)
    ctx.hit('samples judged', n)


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    bm = gs.bassmine
    s = rng.int(0, (1 << 31) - 1)
    np.random.seed(s)
    random.seed(s)
    m, c, history, kicks = learn(rng, bm)
    if rng.chance(0.05):
        sampled(ctx, rng, bm)
    ctx.note('model', history)
    ctx.sig(history)
    before = snapshot(m)
    for _ in range(rng.int(1, 4)):
        many = 250 if rng.chance(0.03) else rng.int(1, 5)
        r = rng.int(0, 4)
        if r == 0:
            free(ctx, rng, gs, bm, m, c, min(many, 120))
        elif r <= 2:
            interlocked(ctx, rng, gs, bm, m, c, kicks, many)
        else:
            varied(ctx, rng, gs, bm, m, c, many)
        unchanged(ctx, m, before, 'generating')
    if rng.chance(0.3):
        # a model goes on learning after generating
        b = bass.sequence(rng, range(16))
        m.add_temporal(b)
        c.temporal(b)
        m.normalize_model()
        bass.judge_model(ctx, m, c, 'after generating and learning')
