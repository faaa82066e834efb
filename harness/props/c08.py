from __future__ import absolute_import, division, print_function

import contracts
import gen
import lib
import session
import settings


def setup(ctx):
    contracts.install(ctx, lib.load_gsapi(), 'C08')


def held(ctx, rng, gs):
    """A note held over a great many pieces."""
    n = rng.int(990, 2400)
    p = gs.gspattern.Pattern(n)
    p.addEvent(gs.gspattern.Event(rng.pick([0, 0.25, 3]), n - 5, 40, 100, 'drone'))
    for _ in range(rng.int(0, 6)):
        p.addEvent(gs.gspattern.Event(rng.int(0, 4 * n - 1) * 0.25, rng.pick([0.5, 1, 2.5, n]), rng.int(41, 80), rng.int(1, 127), 'a'))
    p.durationToLastEvent()
    length = rng.pick([1, 0.5, 1.5, 1])
    copy = rng.chance(0.8)
    ctx.note('held', gen.show(p), length, copy)
    ctx.sig(lib.evs(p.events), length, copy)
    ctx.nontrivial = True
    res = p.splitInEqualLengthPatterns(length, makeCopy=copy, supressEmptyPattern=rng.chance(0.5))
    ctx.check(len(res) >= (n - 5) / length - 1, 'a note of', n - 5, 'beats gives', len(res), 'pieces of', length)
    ctx.hit('pieces of held notes', len(res))


def case(ctx, rng, idx):
    if rng.chance(0.004):
        return held(ctx, rng, lib.load_gsapi())
    spec = settings.SESSIONS['C08']
    kinds = rng.pick(spec['kinds'])
    s = session.Session(ctx, lib.load_gsapi(), rng, kinds=kinds)
    s.run(spec['ops'], rng.int(4, spec['length']))
