# -*- coding: utf-8 -*-
"""Calls that fail half-way: what they leave behind, and the same call again."""
from __future__ import absolute_import, division, print_function

import ast
import json
import os
import pickle
import random
import shutil
import sys

import c02
import c28
import gen
import lib
import markov
from c28 import table, tags, value

if not lib.JAVA:
    import resource
    import bass
if lib.PY2:
    import __builtin__ as builtins
else:
    import builtins
    import io

LIBRARY = c28.LIBRARY
RAISED = (Exception,)
if lib.JAVA:
    import java.lang
    RAISED += (java.lang.Exception,)


class Interrupted(BaseException):
    """Like pressing Ctrl-C."""


RAISED += (Interrupted,)


class Injected(IOError):
    pass


# ---------------------------------------------------------------------------
# files that fail

PHASE = ['']


def saved(x=None):
    """The call that saves has returned; what follows looks at the file."""
    PHASE[0] = 'saved'
    return x


class File(object):
    """A real file that counts and fails, and remembers whether it was closed."""

    def __init__(self, disk, real):
        self.disk, self.real, self.shut = disk, real, False

    def _act(self, name, *args):
        self.disk.step(name)
        return getattr(self.real, name)(*args)

    def read(self, *a):
        return self._act('read', *a)

    def readline(self, *a):
        return self._act('readline', *a)

    def readlines(self, *a):
        return self._act('readlines', *a)

    def write(self, data):
        if self.disk.due('write') and len(data) > 1:
            self.real.write(data[:len(data) // 2])      # the disk gets full in the middle
        return self._act('write', data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        return self._act('flush')

    def close(self):
        if not self.shut:
            self.shut = True
            self.real.close()
            if 'r' not in self.real.mode:       # (closing what was read does not fail)
                self.disk.step('close')

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __iter__(self):
        return iter(self.real)

    def __getattr__(self, name):
        return getattr(self.real, name)


class Disk(object):
    """Stands for open() while a call is watched; the step-th action fails."""

    def __init__(self, step=None):
        self.fail, self.count, self.struck, self.files, self.phase = step, 0, None, [], None

    def due(self, name):
        return self.fail is not None and self.count + 1 == self.fail

    def step(self, name):
        self.count += 1
        if self.fail is not None and self.count == self.fail:
            self.struck, self.phase = name, PHASE[0]
            raise Injected(28, 'No space left on device')

    def open(self, *a, **kw):
        self.step('open')
        f = File(self, self.real(*a, **kw))
        self.files.append(f)
        return f

    def __enter__(self):
        self.real = builtins.open
        builtins.open = self.open
        if not lib.PY2:
            self.io = io.open
            io.open = self.open
        return self

    def __exit__(self, *exc):
        builtins.open = self.real
        if not lib.PY2:
            io.open = self.io

    def left_open(self):
        return [f.real.name for f in self.files if not f.shut]


# ---------------------------------------------------------------------------
# interruptions

_unfair = {}


def unfair_lines(path):
    """Lines that clean up, or that nothing could clean up after."""
    if path not in _unfair:
        bad = set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
        except (SyntaxError, IOError):
            tree = ast.Module([], [])

        def span(nodes):
            for n in nodes:
                bad.update(range(n.lineno, n.end_lineno + 1))
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                bad.add(node.lineno)
                span(node.finalbody)
                for h in node.handlers:
                    span([h])
            elif isinstance(node, ast.With):
                bad.update(range(node.lineno, node.body[0].lineno))
        _unfair[path] = bad
    return _unfair[path]


class Breaker(object):
    """Interrupts at the n-th place (entry of a function, or a line)."""

    def __init__(self, event, n=None):
        self.event, self.n, self.count, self.struck = event, n, 0, None

    def fair(self, frame):
        if frame.f_code.co_flags & 0x20:        # generators
            return False
        f = frame if self.event == 'line' else frame.f_back
        while f is not None:
            name = f.f_code.co_filename
            if name.startswith(LIBRARY) and f.f_lineno in unfair_lines(name):
                return False
            f = f.f_back
        return True

    def here(self, frame):
        self.count += 1
        if self.n is not None and self.count >= self.n and self.struck is None and self.fair(frame):
            self.struck = '%s:%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            raise Interrupted()

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIBRARY):
            return None
        if self.event == 'call':
            self.here(frame)
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.here(frame)
        return self.line

    def __enter__(self):
        sys.settrace(self.call)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)


# ---------------------------------------------------------------------------
# the calls: each gives what must stay as it was, and the call itself

def loose(p):
    """Saving may sort the events and extend the duration to the last one."""
    v = value(p)
    end = max([e.startTime + e.duration for e in p.events] or [0])
    v[0] = [[k, lib.canon(max(x, end)) if k == 'duration' else x] for k, x in v[0]]
    v[2] = [loose_view(q) for _, q in sorted(p.viewpoints.items())]
    return v


def loose_view(q):
    return loose(q)


def own(gs, rng, **kw):
    kw.setdefault('kinds', rng.pick(['f', 'fs', 'ft']))
    kw.setdefault('n', rng.int(1, 6))
    p = gen.pattern(gs, rng, times=gen.Times(rng, rng.pick('qs')), pitches=[rng.int(20, 100) for _ in range(4)], **kw)
    p.name, p.key = 'own', p.key or 'C'
    return p


def midi_file(gs, rng, folder, name='in.mid'):
    path = os.path.join(folder, name)
    lib.write_bytes(path, c02.make_file(rng, nested=False))
    return path


MAPPING = {'low': [(k, '*') for k in range(60)], 'high': [(k, '*') for k in range(60, 128)], 'mid': list(range(50, 70))}


def style(gs, rng):
    n = rng.pick([4, 8])
    s = gs.gsstyles.MarkovStyle(order=rng.int(1, 2), numSteps=n, loopDuration=rng.pick([4, 2]))
    s.generateStyle(markov.loops(gs, rng, n, s.markovChain.loopDuration, ['a', 'b', 'c'], rng.int(1, 3)))
    return s


def behaviour(s):
    return [table(None, s.markovChain), [value(s.generatePattern(k)) for k in range(3)] if s.isBuilt() else None]


def save_midi(gs, rng, d):
    p, kw = own(gs, rng), rng.pick([{}, {'midiMap': {'a': 36, 'Kick': 38}}])
    return [(p, loose)], lambda: [lib.canon(lib.read_bytes(saved(gs.gsio.toMidiFile(p, folderPath=d + '/out', name='m', **kw))))], 'out/m.mid'


def save_json(gs, rng, d):
    p, index, keep = own(gs, rng, viewpoints=rng.int(0, 1)), rng.chance(0.5), rng.chance(0.8)
    return [(p, loose)], lambda: value(gs.gsio.fromJSONFile(saved(gs.gsio.toJSONFile(p, d + '/out', useTagIndexing=index, conserveTuple=keep)),
                                                            conserveTuple=keep)), 'out/own.json'


def save_pickle(gs, rng, d):
    p = own(gs, rng, viewpoints=rng.int(0, 1))
    return [(p, loose)], lambda: value(gs.gsio.fromPickleFile(saved(gs.gsio.toPickleFile(p, d + '/out')))), 'out/own.pickle'


def save_raw(gs, rng, d):
    m = gs.midiio.read_midifile(midi_file(gs, rng, d))
    same = lambda m: [[[type(e).__name__, e.tick] + [int(x) for x in e.data] for e in t] for t in m]    # noqa: E731

    def run():
        saved(gs.midiio.write_midifile(d + '/raw.mid', m))
        return lib.canon(lib.read_bytes(d + '/raw.mid'))
    return [(m, same)], run, 'raw.mid'


def save_style(gs, rng, d):
    s, way = style(gs, rng), rng.pick(['JSON', 'Pickle'])

    def run():
        saved(getattr(s, 'saveTo' + way)(d + '/style'))
        t = gs.gsstyles.MarkovStyle()
        getattr(t, 'loadFrom' + way)(d + '/style')
        return behaviour(t)
    return [(s, behaviour)], run, 'style'


def save_database(gs, rng, d):
    s, way = gs.gsstyles.DatabaseStyle(), rng.pick(['JSON', 'Pickle'])
    s.generateStyle([own(gs, rng, kinds='f') for _ in range(rng.int(1, 3))])

    def run():
        saved(getattr(s, 'saveTo' + way)(d + '/style'))
        t = gs.gsstyles.DatabaseStyle()
        getattr(t, 'loadFrom' + way)(d + '/style')
        return [loose(p) for p in t.patternList]
    return [(s, lambda s: [loose(p) for p in s.patternList])], run, 'style'


def save_data(gs, rng, d):
    data = {'a': [rng.int(0, 99) for _ in range(20)]}

    def run():
        saved(gs.gsio.write2pickle('data', data, d + '/out/'))
        with open(d + '/out/data.pickle', 'rb') as f:
            return pickle.load(f)
    return [(data, repr)], run, 'out/data.pickle'


def load_midi(gs, rng, d):
    path, mapping = midi_file(gs, rng, d), dict(MAPPING)
    kw = rng.pick([{'noteToTagMap': mapping}, {}, {'checkForOverlapped': True}, {'noteToTagMap': mapping, 'filterOutNotMapped': False}])
    return [(mapping, repr)], lambda: value(gs.gsio.fromMidiFile(path, **kw)), None


def load_collection(gs, rng, d):
    for k in range(rng.int(1, 3)):
        midi_file(gs, rng, d, 'in%d.mid' % k)
    mapping, length = dict(MAPPING), rng.pick([0, 2])
    return [(mapping, repr)], lambda: sorted([value(p) for p in gs.gsio.fromMidiCollection(d + '/*.mid', mapping, desiredLength=length)],
                                             key=str), None


def load_dataset(gs, rng, d):
    for k in range(rng.int(1, 3)):
        midi_file(gs, rng, d, 'in%d.mid' % k)

    def run():
        s = gs.gsdataset.Dataset(midiFolder=d, midiMap=rng2.pick(['pitchName', MAPPING]))
        return sorted([value(p) for p in s.patterns], key=str) + sorted([value(p) for p in s.getAllSliceOfDuration(2)], key=str)
    rng2 = lib.Rng('map', 1)
    rng2.pick = lambda seq, n=rng.int(0, 1): seq[n]
    return [(MAPPING, repr)], run, None


def load_json(gs, rng, d):
    path = gs.gsio.toJSONFile(own(gs, rng, viewpoints=1), d, conserveTuple=True)
    return [], lambda: value(gs.gsio.fromJSONFile(path, conserveTuple=True)), None


def load_pickle(gs, rng, d):
    path = gs.gsio.toPickleFile(own(gs, rng, viewpoints=1), d)
    return [], lambda: value(gs.gsio.fromPickleFile(path)), None


def load_raw(gs, rng, d):
    path = midi_file(gs, rng, d)
    return [], lambda: [[[type(e).__name__, e.tick] + [int(x) for x in e.data] for e in t] for t in gs.midiio.read_midifile(path)], None


def load_style(gs, rng, d):
    old, new, way = style(gs, rng), style(gs, rng), rng.pick(['JSON', 'Pickle'])
    getattr(new, 'saveTo' + way)(d + '/style')

    def run():
        run.loaded = False
        getattr(old, 'loadFrom' + way)(d + '/style')
        run.loaded = True
        return behaviour(old)
    return [(old, behaviour)], run, None


def load_database(gs, rng, d):
    old, new, way = gs.gsstyles.DatabaseStyle(), gs.gsstyles.DatabaseStyle(), rng.pick(['JSON', 'Pickle'])
    for s in (old, new):
        s.generateStyle([own(gs, rng, kinds='f') for _ in range(rng.int(1, 3))])
    getattr(new, 'saveTo' + way)(d + '/style')
    see = lambda s: [loose(p) for p in s.patternList]   # noqa: E731

    def run():
        run.loaded = False
        getattr(old, 'loadFrom' + way)(d + '/style')
        run.loaded = True
        return see(old)
    return [(old, see)], run, None


def search(gs, rng, d):
    for k in range(3):
        midi_file(gs, rng, d, 'in%d.mid' % k)
    return [], lambda: [sorted(map(os.path.basename, gs.gsutil.search_files(d, '.mid'))), gs.gsutil.pitch2name(60, gs.gsdefs.defaultPitchNames)], None


def select(gs, rng, d):
    p, k, x, y = own(gs, rng, n=rng.int(2, 7), duration=4), rng.int(0, 8), rng.pick([0.5, 1, 2]), rng.chance(0.5)
    t = rng.pick([e.tag for e in p.events] or ['a'])
    run = [lambda: value(p.copy()),
           lambda: [value(q) for q in p.splitInEqualLengthPatterns(x, supressEmptyPattern=y)],
           lambda: value(p.patternFromTimeSlice(x, 2, trimEnd=y)),
           lambda: value(p.getPatternWithTags(t, exactSearch=y)),
           lambda: value(p.getPatternWithoutTags(t, exactSearch=y)),
           lambda: value(p.getFilledWithSilences(perTag=y)),
           lambda: [c28.event(e) for e in p.activeEventsAtTime(x)] + sorted(map(lib.tagkey, p.getAllTags())),
           lambda: value(p.getPatternWithPitch(60)),
           lambda: [len(repr(p)), len(p.splitInEqualLengthPatterns(x))]][k]
    return [(p, value)], run, None


def describe(gs, rng, d):
    D = gs.gsdescriptors
    p, q = own(gs, rng, n=rng.int(2, 7), duration=4), own(gs, rng, duration=2)
    ds = [D.Density(), D.NumberOfTags(), D.Syncopation(), D.Chord(allowDuplicates=True), D.Density(includedTags=['a'])]
    ds = rng.some(ds, 1, 2)

    def run():
        for e in ds:        # (a descriptor that broke off describes another pattern)
            e.getDescriptorForPattern(q)
        out = [e.getDescriptorForPattern(p) for e in ds] + sorted(gs.gsextractors.DensityDrumSpace().getFeatureSpace(p).items())
        return [tags(x) if isinstance(x, (list, tuple)) else x for x in out]
    return [(p, value), (q, value)], run, None


def viewpoints(gs, rng, d):
    D = gs.gsdescriptors
    p, cut = own(gs, rng, n=rng.int(2, 6), duration=4), rng.pick([1, 2, 'perEvent', 'all'])

    def run():
        p.generateViewpoint('v', descriptor=D.Density(), sliceType=cut)
        return value(p.viewpoints['v'])
    return [(p, lambda p: value(p)[:2])], run, None


def chordify(gs, rng, d):
    p = own(gs, rng, n=rng.int(2, 6), duration=4)

    def run():
        c = gs.gstransformers.Chordify(p)
        return [[e.startTime, e.duration, sorted(x[:2] for x in e.components), sorted(map(lib.tagkey, e.tag))] for e in c.events]
    return [(p, value)], run, None


def learn(gs, rng, d):
    n = rng.pick([4, 8])
    loops = markov.loops(gs, rng, n, 4, ['a', 'b', 'c'], rng.int(1, 3))
    s = gs.gsstyles.MarkovStyle(order=1, numSteps=n, loopDuration=4)

    def run():
        s.generateStyle(loops)
        return table(None, s.markovChain)
    return [(p, value) for p in loops], run, None


def generate(gs, rng, d):
    s, k = style(gs, rng), rng.int(0, 99)
    return [(s, behaviour)], lambda: [value(s.generatePattern(k)), len(repr(s.markovChain)), len(s.getInternalState()['markovChain'])], None


def density(gs, rng, d):
    loop = markov.loops(gs, rng, 8, 4, ['a', 'b', 'Kick'], 1, 0.5)[0]
    asked = dict((t, rng.pick([0, 0.5, 1, 2])) for t in sorted(set(e.tag for e in loop.events)))
    m = gs.gstransformers.AgnosticDensity(mode=rng.pick(['random', 'hysteresis']), numSteps=8)

    def run():
        m.configure({'inputPattern': loop})
        return sorted(c28.event(e) for e in m.transformPattern(None, {'normalizedDensities': asked}).events)
    return [(loop, value), (asked, repr)], run, None


def see_model(m):
    return [lib.canon(m.get_initial().tolist()), lib.canon(m.get_temporal().tolist()), lib.canon(m.get_interlocking().tolist()), repr(m.model_dictionary)]


def bassline(gs, rng, d):
    bm = gs.bassmine
    m, pool = bm.MarkovModel(16), rng.some(range(16), 1, 4)
    for _ in range(2):
        s, k = bass.sequence(rng, pool, 4), bass.sequence(rng, [8, 4, 0], 4)
        m.add_temporal(s)
        m.add_interlocking(k, s)
    m.add_interlocking([8], s)
    m.normalize_model()
    k[0] = k[0] or 8
    target = gs.gspattern.Pattern(4)
    target.events = [gs.gspattern.Event(t, 0.25, 36, 100, 'Kick') for t in bass.onsets(k)]
    os.makedirs(d + '/out')
    which, seed = rng.int(0, 4), rng.int(0, 99)

    def run():
        bm.np.random.seed(seed)
        random.seed(seed)
        x = (bm.constrainMM(m, target, d + '/out/') if which == 0 else m.rhythm_model(d + '/out/') if which == 1 else
             value(bm.generateBassRhythm(m, 4)) if which == 2 else
             [bm.createMarkovGenerationDictionary(True, d + '/out/')] if which == 3 else value(bm.generateBassRhythm(m, 4, target)))
        return [repr(x), [(f, lib.canon(lib.read_bytes(d + '/out/' + f))) for f in sorted(os.listdir(d + '/out'))]]
    return [(m, see_model), (target, value)], run, None


SAVES = [save_midi, save_json, save_pickle, save_raw, save_style, save_database, save_data]
LOADS = [load_midi, load_collection, load_dataset, load_json, load_pickle, load_raw, load_style, load_database]
CALLS = SAVES + LOADS + [search, select, select, describe, viewpoints, chordify, learn, generate, density]
if not lib.JAVA:
    CALLS.append(bassline)
HALFWAY = (load_style, load_database)       # what an interruption between two assignments does to these is not judged


# ---------------------------------------------------------------------------

class Setting(object):
    """One call with inputs of its own in a folder of its own; the same each time."""

    def __init__(self, ctx, gs, call, seed, name):
        self.folder = os.path.join(ctx.scratch, 'faults', name)
        os.makedirs(self.folder)
        random.seed(seed)
        self.kept, self._run, self.out = call(gs, lib.Rng('call', seed), self.folder)
        random.seed(seed)
        lib.write_bytes(os.path.join(self.folder, 'other.txt'), b'mine')
        if self.out:
            if not os.path.isdir(os.path.dirname(self.path())) and seed % 2:
                os.makedirs(os.path.dirname(self.path()))
            if os.path.isdir(os.path.dirname(self.path())):
                for f in ('a.mid', 'a.json', 'a.pickle'):
                    lib.write_bytes(os.path.join(os.path.dirname(self.path()), f), b'mine')
        self.before = self.see()
        self.files = self.disk()
        self.seed = seed

    def run(self):
        random.seed(self.seed)
        PHASE[0] = ''
        return lib.canon(self._run())

    def path(self):
        return os.path.join(self.folder, self.out)

    def see(self):
        state = random.getstate()
        try:
            return [s(x) for x, s in self.kept]
        finally:
            random.setstate(state)

    def disk(self):
        out = {}
        for base, _, names in os.walk(self.folder):
            for n in names:
                p = os.path.join(base, n)
                out[os.path.relpath(p, self.folder)] = lib.canon(lib.read_bytes(p)) if not os.path.islink(p) else os.readlink(p)
        return out


def judge(ctx, gs, s, call, fault, ref, error, got, where, cwd, disk=None, loaded=False):
    """After a call that a fault struck."""
    what = call.__name__ + ' struck by ' + fault
    ctx.note(what, where, 'raised' if error is not None else 'returned')
    if error is None:
        ctx.check(got == ref, what, where, 'returned', got, 'not', ref)
    elif call in SAVES and (disk is None or disk.phase == ''):
        ctx.check(PHASE[0] != 'saved', what, where, 'returned, but what it saved cannot be read:', error)
        ctx.hit('failed saves judged')
    if disk is not None:
        ctx.same(disk.left_open(), [], what, where, 'left files open')
    ctx.same(os.getcwd(), cwd, what, where, 'changed the working directory')
    if error is not None and not loaded and not getattr(s._run, 'loaded', False):
        after = s.see()
        for (x, _), a, b in zip(s.kept, after, s.before):
            ctx.check(a == b, what, where, 'left a', type(x).__name__, 'changed: now', a, 'before', b)
            ctx.hit('inputs judged')
    for f, data in s.files.items():
        if f != s.out:
            now = os.path.join(s.folder, f)
            ctx.check(os.path.isfile(now) and lib.canon(lib.read_bytes(now)) == data, what, where, 'changed the file', f)
            ctx.hit('other files judged')


def attempt(job):
    """(result, error): the error without its frames."""
    try:
        return job(), None
    except lib.Violation:
        raise
    except RAISED as e:
        return None, lib.ascii_text(lib.short(e, 300))


def again(ctx, s, call, ref, fault, where):
    got, error = attempt(s.run)
    ctx.check(error is None, call.__name__, 'raised', error, 'when called again after', fault, where)
    ctx.check(got == ref, call.__name__, 'gave', got, 'when called again after', fault, where, 'expected', ref)
    ctx.hit('calls again judged')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    shutil.rmtree(os.path.join(ctx.scratch, 'faults'), ignore_errors=True)
    call, seed = rng.pick(CALLS), rng.int(0, 10 ** 6)
    ctx.sig(call.__name__, seed)
    cwd = os.getcwd()
    # undisturbed
    with Disk() as disk:
        s = Setting(ctx, gs, call, seed, 'ref')
        disk.count = 0
        disk.files = []
        ref, error = attempt(s.run)
    if error is not None:
        # (a kick target may leave no bassline)
        ctx.check(call.__name__ == 'bassline', call.__name__, 'raised', error)
        return
    size = os.path.getsize(s.path()) if s.out else 0
    actions, left = disk.count, disk.left_open()
    ctx.same(left, [], call.__name__, 'left files open')
    ctx.check(call in HALFWAY or s.see() == s.before, call.__name__, 'changed what it was given')
    places = {}
    if not lib.JAVA:
        for event in ('call', 'line'):
            s = Setting(ctx, gs, call, seed, 'count' + event)
            with Breaker(event) as b:
                s.run()
            places[event] = b.count
    turn = 0
    for kind in ['io'] * (6 if actions else 0) + ([] if lib.JAVA else ['call'] * 4 + ['line'] * 6):
        turn += 1
        s = Setting(ctx, gs, call, seed, 'f%d' % turn)
        fds = lib.open_fds() if not lib.JAVA else None
        if kind == 'io':
            with Disk(rng.int(1, actions)) as disk:
                got, error = attempt(s.run)
            struck = disk.struck
        else:
            if not places[kind]:
                continue
            disk = None
            with Disk() as disk:
                with Breaker(kind, rng.int(1, places[kind])) as b:
                    got, error = attempt(s.run)
            struck = b.struck
        if struck is None:
            continue
        ctx.hit('faults struck: ' + kind)
        ctx.hit('faults struck in ' + call.__name__)
        ctx.sig(kind, struck)
        judge(ctx, gs, s, call, kind, ref, error, got, struck, cwd, disk, loaded=kind == 'line' and call in HALFWAY)
        if fds is not None:
            ctx.check(lib.open_fds() <= fds, call.__name__, 'struck by', kind, struck, 'leaked a descriptor')
        again(ctx, s, call, ref, kind, struck)
    if call in SAVES:
        for kind in ('full', 'folder in place', 'file for folder'):
            if kind != 'full' or size and not lib.JAVA:
                real_fault(ctx, gs, call, seed, kind, ref, cwd, rng.int(0, size - 1))
        bad_value(ctx, gs, rng, seed, cwd)
    if call in LOADS:
        for kind in ('missing', 'cut', 'lines lost', 'garbage'):
            bad_file(ctx, gs, rng, call, seed, kind, ref, cwd)
    if call in (viewpoints, describe, select):
        for _ in range(3):
            bad_descriptor(ctx, gs, rng)
    ctx.nontrivial = True


def real_fault(ctx, gs, call, seed, kind, ref, cwd, size):
    s = Setting(ctx, gs, call, seed, kind.replace(' ', ''))
    where = os.path.dirname(s.path())
    if kind == 'file for folder':
        if where == s.folder or os.path.isdir(where):
            return
        lib.write_bytes(where, b'mine')
    else:
        if not os.path.isdir(where):
            os.makedirs(where)
        if kind == 'folder in place':
            os.mkdir(s.path())
    if kind == 'full':
        # no file may grow beyond a part of what is to be written
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
        try:
            got, error = attempt(s.run)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    else:
        got, error = attempt(s.run)
    judge(ctx, gs, s, call, kind, ref, error, got, 'at its file', cwd)
    ctx.hit('real faults struck: ' + kind)
    if kind == 'file for folder':
        ctx.check(os.path.isfile(where) and lib.read_bytes(where) == b'mine', call.__name__, 'changed the file in place of its folder')
        os.remove(where)
    elif os.path.islink(s.path()) or os.path.isfile(s.path()):
        os.remove(s.path())
    elif os.path.isdir(s.path()):
        os.rmdir(s.path())
    again(ctx, s, call, ref, kind, 'at its file')


def bad_value(ctx, gs, rng, seed, cwd):
    """A pattern holding what a file cannot."""
    d = os.path.join(ctx.scratch, 'faults', 'value')
    os.makedirs(d)
    p = own(gs, lib.Rng('value', seed), n=rng.int(2, 6), kinds='f')
    p.originFilePath = None
    if not p.events:
        return
    e = rng.pick(p.events)
    save = rng.pick([
        lambda: gs.gsio.toMidiFile(p, folderPath=d, name='v.mid'),
        lambda: gs.gsio.toJSONFile(p, d, useTagIndexing=index, conserveTuple=keep),
        lambda: gs.gsio.toPickleFile(p, d)])
    index, keep = rng.chance(0.5), rng.chance(0.5)
    good = loose(p)
    name, bad = rng.pick([('tag', frozenset([1])), ('tag', lambda: 0), ('pitch', 300), ('pitch', 'C'), ('velocity', 1000), ('velocity', None)])
    was = getattr(e, name)
    setattr(e, name, bad)
    before = loose(p)
    fds = lib.open_fds() if not lib.JAVA else None
    with Disk() as disk:
        got, error = attempt(save)
    ctx.note('saved with', name, str(bad)[:20], 'raised' if error is not None else 'returned')
    ctx.same(disk.left_open(), [], 'saving with', name, str(bad)[:20], 'left files open')
    ctx.same(os.getcwd(), cwd, 'saving with', name, str(bad)[:20], 'changed the working directory')
    ctx.same(loose(p), before, 'saving with', name, str(bad)[:20], 'changed the pattern')
    if fds is not None:
        ctx.check(lib.open_fds() <= fds, 'saving with', name, 'leaked a descriptor')
    setattr(e, name, was)
    ctx.same(loose(p), good, 'after saving with', name, str(bad)[:20], 'the pattern')
    for load in (lambda: gs.gsio.fromJSONFile(gs.gsio.toJSONFile(p, d)), lambda: gs.gsio.fromPickleFile(gs.gsio.toPickleFile(p, d))):
        ctx.same(loose(load()), good, 'after saving with', name, 'the same pattern saved and loaded')
    ctx.hit('bad values saved')


class Stubborn(object):
    """A descriptor that raises at its k-th pattern."""

    def __init__(self, k):
        self.k = k

    def getDescriptorForPattern(self, pattern):
        self.k -= 1
        if self.k < 0:
            raise Injected('this pattern has no such thing')
        return len(pattern.events)


def bad_descriptor(ctx, gs, rng):
    p = own(gs, rng, n=rng.int(2, 6), duration=4)
    D = gs.gsdescriptors
    if rng.chance(0.7):
        p.generateViewpoint('v', D.Density(), rng.pick([1, 2]))
    before = value(p)
    cut = rng.pick([1, 2, 'perEvent', 'all'])
    k = rng.int(0, 3)
    got, error = attempt(lambda: p.generateViewpoint('v', Stubborn(k), cut))
    ctx.note('viewpoint of a descriptor that raises', k, cut, error)
    if error is not None:
        ctx.same(value(p), before, 'a viewpoint whose descriptor raised left the pattern')
        ctx.hit('descriptors that raised judged')
    p.generateViewpoint('v', Stubborn(99), cut)
    q = p.copy()
    q.viewpoints = {}
    ctx.same([c28.event(e) for e in p.viewpoints['v'].events], [c28.event(e) for e in q.generateViewpoint('v', Stubborn(99), cut).events],
             'the same viewpoint afterwards')


def bad_file(ctx, gs, rng, call, seed, kind, ref, cwd):
    s = Setting(ctx, gs, call, seed, kind.replace(' ', ''))
    names = [f for f in sorted(s.files) if f != 'other.txt']
    f = os.path.join(s.folder, rng.pick(names))
    good = lib.read_bytes(f)
    text = f.endswith('.json') or good[:1] == b'{'
    if kind == 'missing':
        if call in (load_collection, load_dataset):
            return
        os.remove(f)
    elif kind == 'cut':
        lib.write_bytes(f, good[:rng.int(0, len(good) - 1)])
    elif kind == 'lines lost' and text:
        # still JSON, with something missing or of another kind somewhere
        data = json.loads(good.decode('utf-8'))
        nodes = []

        def walk(x):
            if isinstance(x, (dict, list)) and x:
                nodes.append(x)
                for y in (x.values() if isinstance(x, dict) else x):
                    walk(y)
        walk(data)
        x = rng.pick(nodes)
        k = rng.pick(sorted(x)) if isinstance(x, dict) else rng.int(0, len(x) - 1)
        if rng.chance(0.5):
            del x[k]
        else:
            x[k] = rng.pick([None, 3, 'x', [], {}, [1]])
        lib.write_bytes(f, json.dumps(data).encode('utf-8'))
    else:
        junk = [rng.int(0, 255) for _ in range(rng.int(0, 60))]
        if junk and not text:
            # (a pickle of random bytes may ask for any amount of memory: that is pickle's)
            junk[0] = rng.int(200, 255)
        lib.write_bytes(f, bytes(bytearray(junk)))
    s.files = s.disk()
    with Disk() as disk:
        got, error = attempt(s.run)
    ctx.note(call.__name__, 'of a file', kind, 'raised' if error is not None else 'returned', error)
    ctx.hit('bad files loaded: ' + kind)
    ctx.same(disk.left_open(), [], call.__name__, kind, 'left files open')
    ctx.same(os.getcwd(), cwd, call.__name__, kind, 'changed the working directory')
    if kind == 'missing':
        ctx.check(error is not None, call.__name__, 'of a missing file returned', got)
    if kind == 'cut' and good[:4] != b'MThd':
        # (neither JSON nor a pickle of which the end is missing means anything)
        ctx.check(error is not None, call.__name__, 'of a file that was cut returned', got)
    if error is not None and not getattr(s._run, 'loaded', False):
        after = s.see()
        for (x, _), a, b in zip(s.kept, after, s.before):
            ctx.check(a == b, call.__name__, kind, 'raised', error, 'and left a', type(x).__name__, 'changed: now', a, 'before', b)
            ctx.hit('styles judged after bad files' if call in HALFWAY else 'inputs judged')
    for g, data in s.files.items():
        ctx.check(lib.canon(lib.read_bytes(os.path.join(s.folder, g))) == data, call.__name__, 'changed the file', g)
    lib.write_bytes(f, good)
    again(ctx, s, call, ref, 'a file ' + kind, '')
