# -*- coding: utf-8 -*-
"""JSON round trips."""
from __future__ import absolute_import, division, print_function

import json
import os
import shutil

import gen
import lib


def setup(ctx):
    import c01
    c01.setup(ctx)
    ctx.deep = gen.DEEP_TAGS + [((1, 2), (3, (4, 5))), ('a', ()), (), ((), ()), ('a', None), ((None, 'b'), 0)]


def values(p):
    return lib.evs(p.events)


def whole(p):
    """Everything JSON is said to keep."""
    m = lib.meta(p)
    return {'name': m['name'], 'duration': m['duration'], 'bpm': m['bpm'], 'timeSignature': m['timeSignature'],
            'startTime': m['startTime'], 'key': m['key'], 'resolution': m['resolution']}


def strict_tag(t):
    """A tag with its types: tuples are not lists."""
    if isinstance(t, tuple):
        return ('tuple',) + tuple(strict_tag(x) for x in t)
    if isinstance(t, list):
        return ('list',) + tuple(strict_tag(x) for x in t)
    if isinstance(t, lib.string_types):
        return ('s', t)
    if isinstance(t, dict):
        return ('dict', sorted(t))
    return ('v', t)


def judge(ctx, q, p, where, above=()):
    want = whole(p)
    above = ((p, q),) + tuple(above)
    # saving extends the duration to the last event
    last = max([e.endTime() for e in p.events] + [0])
    ctx.check(p.duration >= last - 1e-9, 'saving leaves a duration before the last event')
    got = whole(q)
    for k in want:
        if k in ('duration', 'bpm', 'startTime'):
            ctx.close(got[k], want[k], k, where)
        else:
            ctx.same(got[k], want[k], k, where)
    ctx.check(q.timeSignature == p.timeSignature, 'time signature', q.timeSignature, 'instead of', p.timeSignature, where)
    a, b = values(q), values(p)
    if len(a) != len(b) or not all(x[:4] == y[:4] and strict_tag(x[4]) == strict_tag(y[4]) for x, y in zip(a, b)):
        # the order of events is not promised
        rest = list(a)
        for y in b:
            for x in rest:
                if lib.near(x[0], y[0]) and lib.near(x[1], y[1]) and x[2:4] == y[2:4] and strict_tag(x[4]) == strict_tag(y[4]):
                    rest.remove(x)
                    break
            else:
                ctx.fail('event', y, 'of', where, 'is lost or changed: got', a)
        ctx.check(not rest, 'events', rest, 'are new', where)
    ctx.hit('events judged', len(b))
    ctx.same(sorted(q.viewpoints), sorted(p.viewpoints), 'viewpoints', where)
    for k in p.viewpoints:
        v = q.viewpoints[k]
        origin = p.viewpoints[k].originPattern
        linked = [b for a, b in above if a.name == origin.name][:1] if any(a is origin for a, b in above) else [q]
        ctx.check(v.originPattern is linked[0], 'viewpoint', k, 'is not linked to its pattern', where)
        judge(ctx, v, p.viewpoints[k], 'viewpoint %s of %s' % (k, where), above)
        ctx.hit('viewpoints judged')


def add_viewpoints(ctx, gs, rng, p):
    if rng.chance(0.4):
        p.generateViewpoint('chords', sliceType=rng.pick([1, 4, 'perEvent', 'all']))
    if rng.chance(0.3):
        p.generateViewpoint('density', descriptor=gs.gsdescriptors.Density(), sliceType=rng.pick([1, 2, 'all']))
    if rng.chance(0.2):
        p.generateViewpoint(' a b ', descriptor=gs.gsdescriptors.NumberOfTags(), sliceType='all')
    if rng.chance(0.2) and p.viewpoints:
        # nested ones
        v = p.viewpoints[rng.pick(sorted(p.viewpoints))]
        if v.events:
            v.generateViewpoint('n', descriptor=gs.gsdescriptors.NumberOfTags(), sliceType='all')
            if rng.chance(0.4):
                # one that describes the pattern itself
                v.viewpoints['n'].originPattern = p
                ctx.hit('viewpoints of grandparents')


def unusual(rng, p):
    if rng.chance(0.1):
        p.bpm = rng.pick([123.456789, 59.9999, 0.001, 1000000])
    if rng.chance(0.3):
        p.name = rng.pick(['X', 'N', 'chords ', 'x.1', 'x.2', 'a b', 'p.mid', 'p.json', 'p_s', '.p', 'n-0', '0'])
    for e in rng.some(p.events, 0, 2) if p.events and rng.chance(0.3) else []:
        what = rng.int(0, 3)
        if what == 0:
            e.velocity = rng.pick([0, 63.5, 127.25])
        elif what == 1:
            e.pitch = rng.pick([60.5, -1, 200, 0])
        elif what == 2:
            e.duration = rng.pick([0, 1e-7, 1e6 + 0.1])
        else:
            e.startTime = rng.pick([1e-9, 12345.678901234567, -0.25, -3])


def several_tags(ctx, rng, gs, path, conserve):
    """A file whose events list the indices of all their tags."""
    d = json.loads(lib.read_bytes(path).decode('utf-8'))
    if not d['eventTags'] or 'eventList' not in d or any(isinstance(t, dict) for t in d['eventTags']):
        return
    d['viewpoints'] = {}
    plain = gs.gsio.fromJSONFile(path, conserveTuple=conserve)
    tags = {}
    for e, f in zip(d['eventList'], plain.events):
        tags[e['tagIdx']] = f.tag
    if any(isinstance(t, tuple) for t in tags.values()):
        return      # (tuples in tuples)
    want = []
    for e, f in zip(d['eventList'], plain.events):
        e['tagsIdx'] = [rng.pick(sorted(tags)) for _ in range(rng.int(0, 3))]
        del e['tagIdx']
        want.append((f.startTime, f.duration, f.pitch, f.velocity, tuple(tags[i] for i in e['tagsIdx'])))
    other = os.path.join(ctx.scratch, 'several.json')
    with open(other, 'w') as f:
        json.dump(d, f)
    got = values(gs.gsio.fromJSONFile(other, conserveTuple=conserve))
    ctx.check([x[:4] + (strict_tag(x[4]),) for x in got] == [x[:4] + (strict_tag(x[4]),) for x in want],
              'events with several tag indices are', got, 'not', want)
    ctx.hit('files with several tags judged')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    folder = os.path.join(ctx.scratch, 'json')
    shutil.rmtree(folder, ignore_errors=True)
    if rng.chance(0.5):
        os.makedirs(folder)
    if rng.chance(0.2):
        folder = os.path.join(folder, 'x', 'y')
    kept = {}
    pool = []
    for _ in range(rng.int(1, 2)):
        conserve = rng.chance(0.5)
        kinds = rng.pick(['f', 't', 'ft', 'fs', 'n', 'fn', 'ftn'] + (['ftd', 'd', 'td'] if conserve else []))
        p = gen.pattern(gs, rng, kinds=kinds, inside=rng.chance(0.7), big=0.02, viewpoints=rng.weighted([(0, 3), (1, 2), (2, 1)]))
        if 'd' in kinds and p.events and rng.chance(0.5):
            for e in rng.some(p.events, 1, 3):
                e.tag = rng.pick(ctx.deep)
        if not lib.PY2 and rng.chance(0.1) and p.events:
            rng.pick(p.events).tag = u'\u00e9t\u00e9 "q" \\ \n'
        p.startTime = rng.pick([0, 0, 4, 2.5])
        if rng.chance(0.4) and 'd' not in kinds:
            add_viewpoints(ctx, gs, rng, p)
        unusual(rng, p)
        pool.append((p, conserve))
        if p.viewpoints and rng.chance(0.3) and not any(w.originPattern is p for v in p.viewpoints.values() for w in v.viewpoints.values()):
            # a viewpoint alone
            pool.append((p.viewpoints[rng.pick(sorted(p.viewpoints))], conserve))
        ctx.note('pattern', gen.show(p))
        ctx.sig(lib.evs(p.events))
        if p.events:
            ctx.nontrivial = True
    for _ in range(rng.int(1, 5)):
        i = rng.int(0, len(pool) - 1)
        p, conserve = pool[i]
        index = rng.chance(0.5)
        suffix = rng.pick([None, '', '_s', '-2'])
        kw = {'useTagIndexing': index, 'conserveTuple': conserve}
        if suffix is not None:
            kw['nameSuffix'] = suffix
        before = values(p)
        meta = lib.meta(p)
        views = dict((k, [lib.meta(v), lib.evs(v.events)]) for k, v in p.viewpoints.items())
        ctx.note('save', p.name, kw)
        path = gs.gsio.toJSONFile(p, folder, **kw)
        ctx.files.check(ctx, 'saving')
        # (they may be put in order of time)
        ctx.same(sorted(values(p), key=lib._key), sorted(before, key=lib._key), 'events after saving')
        after = lib.meta(p)
        ctx.same(dict((k, after[k]) for k in after if k != 'duration'), dict((k, meta[k]) for k in meta if k != 'duration'),
                 'fields after saving')
        last = max([e[0] + e[1] for e in before] + [0])
        ctx.close(after['duration'], max(meta['duration'], last), 'duration after saving')
        ctx.same(sorted(p.viewpoints), sorted(views), 'viewpoints after saving')
        for k, v in p.viewpoints.items():
            m, es = views[k]
            ctx.same(sorted(lib.evs(v.events), key=lib._key), sorted(es, key=lib._key), 'events of viewpoint', k, 'after saving')
            m['duration'] = max([m['duration']] + [e.endTime() for e in v.events])
            ctx.same(lib.meta(v), m, 'fields of viewpoint', k, 'after saving')
        ctx.same(path, os.path.abspath(os.path.join(folder, p.name + (suffix or '') + '.json')), 'path')
        text = lib.read_bytes(path)
        try:
            json.loads(text.decode('utf-8'))
        except ValueError as e:
            ctx.fail('the saved file is not complete JSON:', str(e))
        for other in kept:
            if other != path:
                ctx.check(lib.read_bytes(other) == kept[other], 'saving changes another file')
        kept[path] = text
        q = gs.gsio.fromJSONFile(path, conserveTuple=conserve)
        ctx.files.check(ctx, 'loading')
        ctx.check(lib.read_bytes(path) == text, 'loading changes the file')
        judge(ctx, q, p, 'loaded with %s' % sorted(kw.items()))
        ctx.hit('files judged')
        stored = json.loads(text.decode('utf-8'))
        if p.events and 'eventList' in stored:
            ctx.check(all(('tagIdx' in e or 'tagsIdx' in e) == index for e in stored['eventList']),
                      'tags are stored', 'directly' if index else 'as indices', 'with %s' % sorted(kw.items()))
            ctx.hit('ways to store tags judged')
        if not conserve and rng.chance(0.3):
            # what the defaults give
            plain = os.path.join(folder, 'plain')
            again = gs.gsio.toJSONFile(p, plain)
            judge(ctx, gs.gsio.fromJSONFile(again), p, 'saved and loaded with the defaults')
            ctx.hit('defaults judged')
        if rng.chance(0.3):
            # loaded into a pattern that held something else
            used = gen.pattern(gs, rng, inside=True, big=0, viewpoints=rng.int(0, 2))
            ctx.note('loaded into', gen.show(used))
            back = used.fromJSONDict(p.toJSONDict(useTagIndexing=index))
            ctx.check(back is used, 'loading into a pattern returns another one')
            judge(ctx, used, p, 'loaded into a used pattern')
            ctx.hit('used patterns judged')
        if index and rng.chance(0.3):
            several_tags(ctx, rng, gs, path, conserve)
        ctx.hit('files judged, conserve=%s index=%s' % (conserve, index))
        ctx.hit('deep tags judged', sum(1 for e in p.events if isinstance(e.tag, tuple) and any(isinstance(x, tuple) for x in e.tag)))
        # edits of what was loaded, and of what was saved
        if rng.chance(0.4):
            pool[i] = (q, conserve)
        r = pool[i][0]
        if r.events and rng.chance(0.5):
            e = rng.pick(r.events)
            k = rng.int(0, 3)
            if k == 0:
                r.events.remove(e)
            elif k == 1:
                e.tag = rng.pick(['new', ('new', 'er'), 3])
            elif k == 2:
                e.startTime += 1
            else:
                r.name = rng.pick(['renamed', 'p'])
            ctx.note('edit', lib.evs(r.events))
