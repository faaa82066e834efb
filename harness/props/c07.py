# -*- coding: utf-8 -*-
"""Pickle round trips."""
from __future__ import absolute_import, division, print_function

import os
import shutil

import c06
import gen
import lib


class Own(object):
    """A hashable type of a user."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Own) and other.x == self.x

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return 'Own(%r)' % (self.x,)


TAGS = [None, True, 3, 2.5, 'a', '', (), ('a', 'b'), ('a', ('b', ('c',))), frozenset(['x', 'y']), Own(3), Own('z'), (Own(1), 'k')]


def setup(ctx):
    c06.setup(ctx)
    ctx.tags = list(TAGS) + [lib.load_gsapi().gsdescriptors.ChordTag(('C', 'maj'))]


def graph(p, seen=None):
    """The value of a pattern with everything it links to, as a finite tree:
    what was met before is named by its number."""
    seen = {} if seen is None else seen
    if p is None:
        return None
    if id(p) in seen:
        return ('met', seen[id(p)])
    seen[id(p)] = len(seen)
    ev = []
    for e in p.events:
        if id(e) in seen:
            ev.append(('met', seen[id(e)]))
            continue
        seen[id(e)] = len(seen)
        ev.append((lib.ev(e), type(e.tag).__name__, graph(e.originPattern, seen)))
    return (sorted(lib.meta(p).items()), ev, [(k, graph(p.viewpoints[k], seen)) for k in sorted(p.viewpoints)],
            graph(p.originPattern, seen))


def everything(p, out):
    """ids of all mutable objects reached."""
    if p is None or id(p) in out:
        return out
    out.add(id(p))
    out.add(id(p.events))
    for e in p.events:
        out.add(id(e))
        everything(e.originPattern, out)
    for v in p.viewpoints.values():
        everything(v, out)
    everything(p.originPattern, out)
    return out


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    folder = os.path.join(ctx.scratch, 'pickles')
    shutil.rmtree(folder, ignore_errors=True)
    if rng.chance(0.3):
        folder = os.path.join(folder, 'x', 'y')
    kept = {}
    pool = []
    for _ in range(rng.int(1, 2)):
        p = gen.pattern(gs, rng, kinds=rng.pick(['f', 't', 'ft', 'fs', 'd', 'n']), big=0.01, viewpoints=rng.weighted([(0, 2), (1, 2)]))
        for e in rng.some(p.events, 0, 3):
            e.tag = rng.pick(ctx.tags)
        if rng.chance(0.4) and all(lib.tagkey(e.tag)[0] in 's(' for e in p.events):
            c06.add_viewpoints(ctx, gs, rng, p)
        if rng.chance(0.3):
            # a slice, linked to what it comes from
            q = p.copy()
            q.originPattern = p
            q.name = 'slice'
            p = q
        if p.events and rng.chance(0.3):
            other = gen.pattern(gs, rng, n=3)
            for e in rng.some(p.events, 1, 3):
                e.originPattern = rng.pick([other, p])
        c06.unusual(rng, p)
        pool.append(p)
        ctx.note('pattern', gen.show(p))
        ctx.sig(lib.evs(p.events))
        if p.events:
            ctx.nontrivial = True
    loaded = []
    for _ in range(rng.int(1, 4)):
        i = rng.int(0, len(pool) - 1)
        p = pool[i]
        suffix = rng.pick([None, '', '_s', '.x'])
        before = graph(p)
        path = gs.gsio.toPickleFile(p, folder, suffix) if suffix is not None else gs.gsio.toPickleFile(p, folder)
        ctx.note('save', p.name, suffix)
        ctx.files.check(ctx, 'saving')
        ctx.same(graph(p), before, 'pattern after saving')
        ctx.same(path, os.path.abspath(os.path.join(folder, p.name + (suffix or '') + '.pickle')), 'path')
        data = lib.read_bytes(path)
        for other in kept:
            if other != path:
                ctx.check(lib.read_bytes(other) == kept[other], 'saving changes another file')
        kept[path] = data
        q = gs.gsio.fromPickleFile(path)
        ctx.files.check(ctx, 'loading')
        ctx.same(graph(q), before, 'loaded pattern')
        ctx.check(isinstance(q, gs.gspattern.Pattern), 'loaded a', type(q).__name__)
        ctx.check(not everything(q, set()) & everything(p, set()), 'the loaded pattern shares objects with the saved one')
        ctx.hit('patterns judged')
        ctx.hit('events judged', len(p.events))
        ctx.hit('objects reached', len(everything(q, set())))
        ctx.hit('links judged', sum(1 for e in p.events if e.originPattern is not None) + len(p.viewpoints) +
                (p.originPattern is not None))
        # later changes stay where they are made
        if q.events:
            e = rng.pick(q.events)
            e.tag, e.startTime = 'changed', e.startTime + 1
            q.events.append(gs.gspattern.Event(0, 1, 60, 100, 'new'))
            q.bpm = 77
            for v in q.viewpoints.values():
                if v.events:
                    v.events.pop()
            ctx.same(graph(p), before, 'saved pattern after changing the loaded one')
            q2 = gs.gsio.fromPickleFile(path)
            ctx.same(graph(q2), before, 'pattern loaded twice')
            if rng.chance(0.5):
                pool[i] = q
            elif rng.chance(0.5):
                pool[i] = q2
