from __future__ import absolute_import, division, print_function

import contracts
import gen
import lib
import session

OPS = [('add', 6), ('add_again', 1), ('remove', 4), ('remove_tags', 2), ('set', 3), ('reorder', 2), ('last', 1),
       ('duration', 2), ('shuffle', 1), ('poke', 1)]


def setup(ctx):
    contracts.install(ctx, lib.load_gsapi(), 'C14')


def case(ctx, rng, idx):
    """One pattern, edited for long, against a plain list of what it should hold."""
    gs = lib.load_gsapi()
    s = session.Session(ctx, gs, rng, kinds=rng.pick([None, 'f', 'ft', 'tdn']), inside=rng.chance(0.8))
    p = s.pool[0]
    model = list(p.events)
    views = repr([(k, lib.snap(v)) for k, v in sorted(p.viewpoints.items())])
    poked = max([e.endTime() for e in model] + [0]) > p.duration
    for _ in range(rng.int(5, 40) if len(model) < 60 else 6):
        op = rng.weighted(OPS)
        ctx.hit('op ' + op)
        before = p.duration
        if op in ('add', 'add_again'):
            e = session.new_event(gs, rng, p)
            if op == 'add_again' and model:
                e = rng.pick(model).copy()       # an equal event, once more
            ctx.note('add', lib.ev(e))
            p.addEvent(e)
            model.append(e)
            if not poked:
                ctx.close(p.duration, max(before, e.endTime()), 'duration after adding', lib.ev(e))
        elif op == 'remove':
            e = rng.pick(model).copy() if model and rng.chance(0.8) else session.new_event(gs, rng, p)
            if rng.chance(0.15):
                setattr(e, *rng.pick([('velocity', 130), ('duration', e.duration + 1), ('tag', 'other'), ('pitch', 128)]))
            ctx.note('remove', lib.ev(e))
            p.removeEvent(e)
            model = [m for m in model if lib.ev(m) != lib.ev(e)]
        elif op == 'remove_tags':
            tags = [session.any_tag(rng, p) for _ in range(rng.int(0, 2) if rng.chance(0.9) else 9)]
            ctx.note('removeByTags', tags)
            p.removeByTags(tags)
            model = [m for m in model if not contracts.has_tag(m.tag, tags)]
        elif op == 'set' and model:
            i = rng.int(0, len(model) - 1)
            e = session.new_event(gs, rng, p)
            ctx.note('set', i, lib.ev(e))
            old = p[i]
            p[i] = e
            ctx.check(p[i] is e, 'pattern[%d] is not what was set' % i)
            model[[id(m) for m in model].index(id(old))] = e
            poked = poked or e.endTime() > p.duration
        elif op == 'duration':
            bigger = rng.chance(0.6)
            ctx.note('durationToLastEvent', bigger)
            p.durationToLastEvent(onlyIfBigger=bigger)
            ends = [e.endTime() for e in model]
            if model:
                ctx.close(p.duration, max(ends + [before]) if bigger else max(ends), 'duration fitted to the last event')
                poked = False
        elif op == 'shuffle':
            rng.shuffle(p.events)
        elif op == 'poke' and model:
            e = rng.pick(model)
            e.duration = e.duration * rng.pick([0.5, 2])
            poked = poked or e.endTime() > p.duration
        elif op == 'reorder':
            p.reorderEvents()
        elif op == 'last':
            off = p.lastNoteOff()
            ctx.check(off == (max(e.endTime() for e in model) if model else None), 'lastNoteOff gives', off)
        ctx.check(sorted(map(id, p.events)) == sorted(map(id, model)), 'after', op, 'the pattern holds',
                  lib.evs(p.events), 'instead of', lib.evs(model))
        ctx.check(len(p) == len(model), 'len gives', len(p))
        if model:
            i = rng.int(0, len(model) - 1)
            ctx.check(p[i] is p.events[i], 'indexing gives another event')
        ctx.hit('histories steps judged')
    ctx.same(repr([(k, lib.snap(v)) for k, v in sorted(p.viewpoints.items())]), views, 'viewpoints after all edits')
    ctx.sig(ctx.trace)
    ctx.nontrivial = True
