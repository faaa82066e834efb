# -*- coding: utf-8 -*-
"""The random numbers of the program go on whatever the library is used for."""
from __future__ import absolute_import, division, print_function

import os
import random
import shutil

import gen
import lib


def uses(ctx, gs, rng, style, pats):
    d = os.path.join(ctx.scratch, 'streams')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k in range(2):
        p = gen.pattern(gs, rng, kinds='f')
        for e in p.events:
            e.pitch, e.velocity = abs(int(e.pitch)) % 128, 90
        p.originFilePath = None
        gs.gsio.toMidiFile(p, folderPath=d, name='%d.mid' % k)
    base = gs.gsstyles.DatabaseStyle(generatePatternOrdering='random')
    base.generateStyle(pats)
    dens = gs.gstransformers.AgnosticDensity(numSteps=8)
    path = d + '/style'
    style.saveToJSON(path)
    yield 'a seeded generation', lambda: style.generatePattern(3)
    yield 'a generation', style.generatePattern
    yield 'saving a style', lambda: style.saveToJSON(path)
    yield 'loading a style', lambda: gs.gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4).loadFromJSON(path)
    yield 'learning', lambda: gs.gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4).generateStyle(pats)
    yield 'a choice with a seed', lambda: base.generatePattern(3)
    yield 'a choice', base.generatePattern
    yield 'loading a dataset', lambda: gs.gsdataset.Dataset(midiFolder=d, midiGlob='*')
    yield 'importing', lambda: gs.gsio.fromMidiFile(d + '/0.mid')
    yield 'importing a collection', lambda: gs.gsio.fromMidiCollection(d + '/*.mid')
    yield 'exporting', lambda: gs.gsio.toMidiFile(pats[0], folderPath=d, name='out.mid')
    yield 'a density transformation', lambda: dens.transformPattern(pats[0], dict((t, 0.5) for t in pats[0].getAllTags()))
    yield 'a chord', lambda: gs.gsdescriptors.Chord().getDescriptorForPattern(pats[0])
    yield 'a viewpoint', lambda: pats[0].copy().generateViewpoint('chords')
    yield 'copying', pats[0].copy
    if not lib.JAVA:
        yield 'sampling', lambda: gs.bassmine.pdf_sampling([0.5, 0.5])


def judge(ctx, gs, rng, style, pats):
    was = random.getstate()
    try:
        for what, use in uses(ctx, gs, rng, style, [p.copy() for p in pats]):
            drawn = set()
            for k in range(3):
                random.seed(1000 * rng.int(0, 1 << 40) + k)
                try:
                    use()
                except Exception as e:
                    # (other properties say what must work)
                    ctx.note(what, e)
                drawn.add(random.random())
            ctx.check(len(drawn) == 3, what, 'starts the random numbers of the program again:', sorted(drawn))
            ctx.hit('uses judged to leave random numbers')
    finally:
        random.setstate(was)
