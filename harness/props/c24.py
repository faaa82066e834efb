# -*- coding: utf-8 -*-
"""Bassline analysis, recounted."""
from __future__ import absolute_import, division, print_function

import json
import os
import shutil

import numpy as np

import bass
import c01
import lib
import smf


def setup(ctx):
    c01.setup(ctx)


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    bm = gs.bassmine
    if idx == 0:
        everything(ctx, bm)
        shipped(ctx, bm)
    rng.pick([learning, learning, corpus, rhythms])(ctx, rng, gs, bm)


def everything(ctx, bm):
    """All beat patterns, and all pairs of them."""
    d = bm.createMarkovGenerationDictionary()['patterns']
    ctx.same(sorted(d), list(range(16)), 'ids of the dictionary')
    for a in range(16):
        ctx.same(list(d[a]), bass.onsets([a]), 'onsets of beat pattern', a)
        ctx.same(list(bm.translate_rhythm([bass.bits(a)])), [a], 'id of', bass.bits(a))
        for b in range(16):
            r = bm.binaryBeatPattern(bass.onsets([a, b]), 2)
            ctx.same([[int(x) for x in row] for row in r], [bass.bits(a), bass.bits(b)], 'binary pattern of', a, b)
            ctx.same(list(bm.translate_rhythm(r)), [a, b], 'ids of', a, b)
            ctx.hit('beat patterns judged', 2)


def rhythms(ctx, rng, gs, bm):
    beats = rng.pick([1, 2, 4, 8, 16, rng.int(1, 40), 3.5, 7.25, 2.0])
    n = int(-(-beats // 1))
    on, want = [], [[0] * 4 for _ in range(n)]
    for _ in range(rng.int(0, 3 * n)):
        beat, k = rng.int(0, n + 1), rng.int(0, 3)
        t = beat + k * 0.25
        if rng.chance(0.5):
            # played early or late, nearest to this sixteenth all the same
            t += rng.pick([0.12, -0.12, 0.01, -0.06, 0.124, -0.124, 1.0 / 12]) if k or beat else 0.1
            if int(t) != beat:
                t = beat
        if beat < n:
            want[beat][k] = 1
        on.append(t)
    given = list(on)
    ctx.note('rhythm', beats, on)
    ctx.sig(beats, on)
    ctx.nontrivial = bool(on)
    r = bm.binaryBeatPattern(on, beats)
    ctx.same(on, given, 'onsets after binarizing')
    ctx.same([[int(x) for x in row] for row in r], want, 'binary pattern of', on)
    ids = [8 * w[0] + 4 * w[1] + 2 * w[2] + w[3] for w in want]
    ctx.same([int(x) for x in bm.translate_rhythm(r)], ids, 'ids of', want)
    ctx.same([int(x) for x in bm.translate_rhythm(want)], ids, 'ids of', want)
    d = bm.MarkovModel(16).model_dictionary['patterns']
    ctx.same([b + s for b, i in enumerate(ids) for s in d[i]], bass.onsets(ids), 'onsets of', ids)
    ctx.same([int(x) for x in bm.translate_rhythm(bm.binaryBeatPattern(bass.onsets(ids), beats))], ids, 'ids there and back')
    ctx.hit('rhythms judged')
    here = os.path.join(ctx.scratch, 'dict') + '/'
    if not os.path.isdir(here):
        os.makedirs(here)
    got = bm.createMarkovGenerationDictionary(toJSON=True, _path=here)
    with open(here + 'pattern_dict.json') as f:
        ctx.same(json.load(f), {'patterns': dict((str(k), list(v)) for k, v in got['patterns'].items())}, 'saved dictionary')


def as_given(rng, s):
    return rng.pick([s, s, np.array(s), tuple(s), [float(x) for x in s]])


def learning(ctx, rng, gs, bm):
    size, arg = rng.pick([((16, 16), 16), ((16, 16), 16), ((16, 16), (16, 16)), ((5, 5), 5), ((25, 25), 25), ((3, 3), (3, 3))])
    models = [[bm.MarkovModel(arg), bass.Counts(size)] for _ in range(rng.int(1, 2))]
    pool = rng.some(range(size[0]), 1, rng.int(1, 8))
    kicks = rng.some(range(size[0]), 1, 5)
    learned = []
    for _ in range(rng.int(1, 14)):
        m, c = models[0] if rng.chance(0.8) else rng.pick(models)
        s = bass.sequence(rng, pool, long=True)
        if rng.chance(0.25):
            k = bass.sequence(rng, kicks, rng.pick([None, None, len(s)]), long=True)
            ctx.note('interlocking', k, s)
            m.add_interlocking(as_given(rng, k), as_given(rng, s))
            c.interlocking(k, s)
            if m is models[0][0]:
                learned.append((None, k, s))
        else:
            ctx.note('temporal', s)
            a = as_given(rng, s)
            m.add_temporal(a)
            ctx.same([int(x) for x in a], s, 'sequence after learning')
            c.temporal(s)
            if m is models[0][0]:
                learned.append((s, None, None))
        if rng.chance(0.3):
            for m, c in models:
                if c.init:
                    m.normalize_model()
                    bass.judge_model(ctx, m, c, 'while learning')
                    ctx.check(m.normalized is True, 'model does not say that it is normalized')
                    if size == (16, 16) and rng.chance(0.3):
                        rhythm_model(ctx, m, c)
                    if size == (25, 25) or rng.chance(0.05):
                        pitch_model(ctx, m, c)
                    if rng.chance(0.3):
                        m.normalize_model()
                        bass.judge_model(ctx, m, c, 'normalized again')
                        ctx.hit('second normalisations judged')
        ctx.sig(s)
    ctx.nontrivial = True
    m, c = models[0]
    if not c.init:
        return
    m.normalize_model()
    bass.judge_model(ctx, m, c)
    other = bm.MarkovModel(arg)
    for s, k, b in rng.shuffle(list(learned)):
        if s is not None:
            other.add_temporal(s)
        else:
            other.add_interlocking(k, b)
    other.normalize_model()
    bass.judge_model(ctx, other, c, 'learned in another order')
    ctx.hit('orders judged')


def pitch_model(ctx, m, c):
    got = m.pitch_model()
    ctx.same(sorted(got), sorted(a - 12 for a in c.trans), 'intervals of the pitch model')
    for a in c.trans:
        row = got[a - 12]
        bass.judge_dist(ctx, [x + 12 for x in row['interval']], row['probs'], c.trans[a], 'pitch model after %d' % (a - 12))
    bass.judge_model(ctx, m, c, 'after its pitch model')
    ctx.hit('pitch models judged')


def rhythm_model(ctx, m, c):
    folder = os.path.join(ctx.scratch, 'models') + '/'
    if not os.path.isdir(folder):
        os.makedirs(folder)
    init, steps = m.rhythm_model(folder)
    bass.judge_dist(ctx, init['initial']['pattern'], init['initial']['prob'], c.init, 'initial rhythm model')
    ctx.same(sorted(steps), sorted(c.trans), 'beat patterns of the rhythm model')
    for a in c.trans:
        bass.judge_dist(ctx, steps[a]['pattern'], steps[a]['probs'], c.trans[a], 'rhythm model after %d' % a)
    for name, want in (('HModel.json', steps), ('HModel_init.json', init)):
        with open(folder + name) as f:
            ctx.same(json.load(f), json.loads(json.dumps(want)), 'saved', name)
    bass.judge_model(ctx, m, c, 'after its rhythm model')
    ctx.hit('rhythm models judged')


# ---------------------------------------------------------------------------
# folders of files

def midi(rng, res, beats, notes):
    """A file with notes (tick, pitch) of the given length."""
    end = int(beats * res)
    out = []
    for t, pitch in notes:
        ch = rng.pick([0, 9])
        out.append((t, 'ch', 0x90, ch, [pitch, rng.int(1, 127)]))
        out.append((min(t + max(1, res // 8), end), 'ch', 0x80, ch, [pitch, 0]))
    out.sort(key=lambda e: (e[0], e[2]))
    out = [e for e in out if e[0] <= end] + [(end, 'meta', 0x2F, [])]
    head = [(0, 'meta', 0x51, smf.tempo_bytes(500000)), (0, 'meta', 0x58, [4, 2, 24, 8])]
    if rng.chance(0.5):
        return smf.encode_file([smf.relative(head + out)], res, 0)
    return smf.encode_file([smf.relative(head + [(0, 'meta', 0x2F, [])]), smf.relative(out)], res, 1)


def ids_of_notes(starts, beats):
    n = int(-(-beats // 1))
    out = [0] * n
    for s in starts:
        b = int(s)
        k = min(range(4), key=lambda k: abs(s - b - 0.25 * k))
        if b < n:
            out[b] |= 8 >> k
    return out


def notes_of(rng, ids, res, pitches):
    out = []
    for t in bass.onsets(ids):
        for pitch in rng.some(pitches, 1, 2):
            jitter = rng.int(0, res // 10) if rng.chance(0.2) else 0
            out.append((int(round(t * res)) + jitter, pitch))
    return out


def corpus(ctx, rng, gs, bm):
    root = os.path.join(ctx.scratch, 'corpus')
    shutil.rmtree(root, ignore_errors=True)
    bp, dp = os.path.join(root, rng.pick(['bass', 'b [1]'])), os.path.join(root, rng.pick(['drums', 'd d']))
    os.makedirs(bp)
    os.makedirs(dp)
    c = bass.Counts()
    kicks = []
    names = rng.some(['a', 'aa', 'b', 'Song 1', 'x [2]', 'a.b', 'bass', 'drums', '10', '9', 'loop', 'mid'], 1, 5)
    pool, kpool = rng.some(range(16), 1, 6), rng.some(range(16), 1, 5)
    for n in names:
        res = rng.pick([96, 480, 960, 24])
        b = bass.sequence(rng, pool, long=rng.chance(0.3))
        k = bass.sequence(rng, kpool, rng.pick([None, len(b)]))
        data = {}
        bnotes = notes_of(rng, b, res, [30, 36, 41, 55])
        knotes = notes_of(rng, k, res, [36])
        others = notes_of(rng, bass.sequence(rng, range(16), len(k)), res, [38, 42, 35, 37, 48])
        length = rng.pick([0, 0, 0, 0.25, 0.5])
        db, dk = len(b) - length, len(k)
        bnotes = [x for x in bnotes if x[0] < db * res]
        lib.write_bytes(os.path.join(bp, 'bass_%s.mid' % n), midi(rng, res, db, bnotes))
        lib.write_bytes(os.path.join(dp, 'drums_%s.mid' % n), midi(rng, res, dk, knotes + others))
        got = {}
        for what, path in (('bass', os.path.join(bp, 'bass_%s.mid' % n)), ('kick', os.path.join(dp, 'drums_%s.mid' % n))):
            m = smf.import_model(smf.decode_file(lib.read_bytes(path)))
            starts = [x[2] / m['resolution'] for x in m['notes'] if what == 'bass' or x[4] == 36]
            got[what] = (starts, ids_of_notes(starts, m['end'] / m['resolution']))
        c.temporal(got['bass'][1])
        c.interlocking(got['kick'][1], got['bass'][1])
        kicks.append((n, sorted(got['kick'][0])))
        ctx.note(n, got)
        ctx.sig(n, got)
    for extra in rng.some(['note.txt', 'bass_a.json', 'x.midi'], 0):
        lib.write_bytes(os.path.join(rng.pick([bp, dp]), extra), b'nothing')
    ctx.nontrivial = True
    m, kp = bm.corpus_analysis(bp, dp)
    ctx.files.check(ctx, 'the analysis')
    m.normalize_model()
    bass.judge_model(ctx, m, c, 'of the corpus')
    ctx.same(sorted(lib.canon(sorted(e.startTime for e in p.events)) for p in kp), sorted(lib.canon(k) for _, k in kicks), 'kick patterns')
    ctx.check(all(e.pitch == 36 for p in kp for e in p.events), 'kick patterns hold other drums')
    ctx.hit('corpora judged')
    if rng.chance(0.5):
        m2, _ = bm.corpus_analysis(bp, dp)
        m2.normalize_model()
        bass.judge_model(ctx, m2, c, 'of the corpus analysed again')
        # learning goes on
        s = bass.sequence(rng, pool)
        m.add_temporal(s)
        c.temporal(s)
        m.normalize_model()
        bass.judge_model(ctx, m, c, 'of the corpus and one more')


def shipped(ctx, bm):
    """The folders that come with the library."""
    root = os.path.join(lib.REPO, 'examples', 'corpora', 'bassmine')
    for name in sorted(os.listdir(root)):
        bp, dp = os.path.join(root, name, 'bass'), os.path.join(root, name, 'drums')
        if not os.path.isdir(bp):
            continue
        c = bass.Counts()
        for f in sorted(os.listdir(bp)):
            if not f.endswith('.mid'):
                continue
            got = {}
            for what, path in (('bass', os.path.join(bp, f)), ('kick', os.path.join(dp, 'drums' + f[4:]))):
                m = smf.import_model(smf.decode_file(lib.read_bytes(path)))
                starts = [x[2] / m['resolution'] for x in m['notes'] if what == 'bass' or x[4] == 36]
                got[what] = ids_of_notes(starts, m['end'] / m['resolution'])
            c.temporal(got['bass'])
            c.interlocking(got['kick'], got['bass'])
        m, _ = bm.corpus_analysis(bp, dp)
        m.normalize_model()
        bass.judge_model(ctx, m, c, 'of ' + name)
        ctx.hit('shipped corpora judged')
