from __future__ import absolute_import, division, print_function

import contracts
import lib
import session
import settings


def setup(ctx):
    contracts.install(ctx, lib.load_gsapi(), 'C13')


def case(ctx, rng, idx):
    spec = settings.SESSIONS['C13']
    kinds = rng.pick(spec['kinds'])
    s = session.Session(ctx, lib.load_gsapi(), rng, kinds=kinds)
    s.run(spec['ops'], rng.int(4, spec['length']))
