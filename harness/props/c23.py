# -*- coding: utf-8 -*-
"""Datasets of random folders, file searches and name matching."""
from __future__ import absolute_import, division, print_function

import copy
import os
import random
import shutil

import c02
import c03
import lib
import smf

STEMS = ['a', 'b', 'ab', 'a1', 'Loop 1', 'B', 'x.y', 'funk_y', 'a.mid', 'z', 'mid']
ODD = ['take [1]', 'wild*', 'q?', '[ab]', 'n!']


def setup(ctx):
    c02.setup(ctx)
    lib.load_gsapi()


def tiny(i):
    """A file of one note of its own."""
    ev = [(i, 'ch', 0x90, i % 16, [i % 128, 90]), (i + 5, 'ch', 0x80, i % 16, [i % 128, 0]), (i + 9, 'meta', 0x2F, [])]
    return smf.encode_file([smf.relative(ev)], 16, 0)


def hidden(name):
    return name.startswith('.')


def match(pattern, name):
    """Shell matching with * ? and [..] of one name."""
    if not pattern:
        return not name
    if hidden(name) and not hidden(pattern):
        return False
    return _match(pattern, name)


def _match(p, s):
    if not p:
        return not s
    if p[0] == '*':
        return any(_match(p[1:], s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    if p[0] == '?':
        return _match(p[1:], s[1:])
    if p[0] == '[' and ']' in p:
        k = p.index(']')
        return s[0] in p[1:k] and _match(p[k + 1:], s[1:])
    return p[0] == s[0] and _match(p[1:], s[1:])


class Folder(object):
    def __init__(self, ctx, rng):
        self.rng = rng
        self.root = os.path.join(ctx.scratch, 'dataset')
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, 'sub'))
        self.files = {}
        self.n = 0
        for _ in range(rng.int(0, 8)):
            self.add()
        if rng.chance(0.01):
            # a folder of many
            for i in range(rng.int(101, 140)):
                name = 'n%d.mid' % i
                data = tiny(i)
                lib.write_bytes(os.path.join(self.root, name), data)
                self.files[name] = data

    def add(self):
        rng = self.rng
        name = rng.pick(STEMS) + rng.pick(['.mid', '.mid', '.mid', '.midi', '.MID', '.txt', ''])
        if rng.chance(0.1):
            name = '.' + name
        if rng.chance(0.2):
            name = 'sub/' + name
        if name == 'sub':
            return
        data = c02.make_file(rng, nested=rng.pick([None, False]), names=c03.NAMES)
        if self.files and rng.chance(0.2):
            # the same music under another name
            data = self.files[rng.pick(sorted(self.files))]
        lib.write_bytes(os.path.join(self.root, *name.split('/')), data)
        self.files[name] = data

    def change(self):
        r = self.rng.int(0, 3)
        if r and self.files:
            name = self.rng.pick(sorted(self.files))
            if r == 1:
                os.remove(os.path.join(self.root, *name.split('/')))
                del self.files[name]
            else:
                data = c02.make_file(self.rng, nested=None, names=c03.NAMES)
                lib.write_bytes(os.path.join(self.root, *name.split('/')), data)
                self.files[name] = data
        else:
            self.add()

    def matching(self, glob):
        parts = glob.split('/')
        out = []
        for name in self.files:
            names = name.split('/')
            if len(names) == len(parts) and all(match(p, n) for p, n in zip(parts, names)):
                out.append(name)
        return sorted(out)


def value(p):
    m, events, views = lib.snap(p)
    return lib.repr_sort(lib.canon([m, events, views]))


def a_glob(rng, folder):
    names = sorted(folder.files) + ['a.mid', 'b.mid']
    g = rng.pick(['*', '*', '*', '*.mid', 'a*', 'a*.mid', '?', 'sub/*', '*/*.mid', '[ab]*.mid', '[ab]', 'nothing*', '??.mid', rng.pick(names),
                  rng.pick(names), '*1*', '.*'])
    return g


def dataset_case(ctx, rng, gs):
    folder = Folder(ctx, rng)
    drums = gs.gsdefs
    tables = repr([drums.simpleDrumMap, drums.verySimpleDrumMap])
    made = []
    for _ in range(rng.int(1, 2)):
        g = a_glob(rng, folder)
        kw = {}
        if rng.chance(0.7):
            notes = [n for d in folder.files.values() for n in smf.import_model(smf.decode_file(d))['notes']]
            kw['midiMap'] = rng.pick([c03.mapping(rng, notes) if notes else {'a': 60}, 'pitchName', drums.verySimpleDrumMap])
        if rng.chance(0.6):
            kw['checkForOverlapped'] = rng.chance(0.5)
        given = copy.deepcopy(kw)
        ctx.note('dataset', sorted(folder.files), g, kw)
        d = gs.gsdataset.Dataset(midiFolder=folder.root, midiGlob=g, **kw)
        ctx.same(kw, given, 'arguments of the dataset')
        made.append([d, kw, g, {}])
        judge(ctx, gs, folder, made[-1])
    for _ in range(rng.int(1, 6)):
        m = rng.pick(made)
        d = m[0]
        op = rng.pick(['import', 'import', 'change', 'slices', 'viewpoint', 'index', 'spoil', 'again'])
        ctx.note(op)
        if op == 'change':
            folder.change()
            ctx.note(sorted(folder.files))
        elif op == 'import':
            g = a_glob(rng, folder)
            ctx.note(g)
            res = d.importMidi(g)
            m[2] = g
            ctx.check([value(p) for p in res] == [value(p) for p in d.patterns], 'importing returns other patterns than are held')
            judge(ctx, gs, folder, m)
            ctx.hit('imports with another glob judged')
        elif op == 'again':
            # another dataset of the same files shares nothing with this one
            before = [value(p) for p in d.patterns]
            other = gs.gsdataset.Dataset(midiFolder=folder.root, midiGlob=m[2], **m[1])
            for p in other.patterns:
                if p.events:
                    p.events[0].tag = 'other'
                    p.events.pop()
                p.name = 'other'
            ctx.same([value(p) for p in d.patterns], before, 'dataset after another one was edited')
        elif op == 'spoil':
            for p in d.patterns:
                if p.events:
                    p.events[-1].pitch = 1
                    p.events[-1].tag = 'spoilt'
        elif op == 'slices':
            length = rng.pick([1, 2, 4, 0.5, 1.5, 16, 3])
            if any(p.duration / length > 200 for p in d.patterns):
                continue
            kw = {}
            if rng.chance(0.4):
                kw['supressEmptyPattern'] = rng.chance(0.5)
            vn = None
            if d.patterns and rng.chance(0.3):
                vn = rng.pick(sorted(set.intersection(*[set(p.viewpoints) for p in d.patterns])) + [None])
                if vn is not None:
                    kw['viewpointName'] = vn
            ctx.note(length, kw)
            before = [value(p) for p in d.patterns]
            got = d.getAllSliceOfDuration(length, **kw)
            ctx.same([value(p) for p in d.patterns], before, 'patterns after slicing the dataset')
            want = []
            for p in d.patterns:
                src = p.viewpoints[vn] if vn is not None else p
                want += src.splitInEqualLengthPatterns(length, supressEmptyPattern=kw.get('supressEmptyPattern', True))
            ctx.same([value(p) for p in got], [value(p) for p in want], 'slices of the dataset')
            ctx.hit('slices judged', len(got))
        elif op == 'viewpoint':
            name = rng.pick(['chords', 'density', 'v'])
            st = rng.pick([4, 2, 'all', 'perEvent'])
            if any(len(p.events) > 60 for p in d.patterns):
                continue
            D = gs.gsdescriptors
            desc = rng.pick([D.Density, D.NumberOfTags, D.Chord])
            ctx.note(name, st, desc.__name__)
            default = name == 'chords' and rng.chance(0.5)
            copies = [p.copy() for p in d.patterns]
            if default:
                d.generateViewpoint('chords')
            else:
                d.generateViewpoint(name, descriptor=desc(), sliceType=st)
            for p, c in zip(d.patterns, copies):
                if default:
                    c.generateViewpoint('chords')
                else:
                    c.generateViewpoint(name, descriptor=desc(), sliceType=st)
                ctx.same(value(p), value(c), 'pattern after a viewpoint of the dataset')
                ctx.check(p.viewpoints[name].originPattern is p, 'viewpoint belongs to another pattern')
                ctx.hit('viewpoints judged')
        elif op == 'index':
            n = len(d.patterns)
            for i in range(-n, n):
                ctx.check(d[i] is d.patterns[i], 'item', i, 'is another pattern')
            ctx.same([id(p) for p in d], [id(p) for p in d.patterns], 'iteration over the dataset')
    ctx.same(repr([drums.simpleDrumMap, drums.verySimpleDrumMap]), tables, 'drum tables')
    for name, data in folder.files.items():
        ctx.check(lib.read_bytes(os.path.join(folder.root, *name.split('/'))) == data, 'file', name, 'was changed')


def judge(ctx, gs, folder, m):
    d, kw, g, _ = m
    names = folder.matching(g if g.endswith('.mid') else g + '.mid')
    mapp = kw.get('midiMap', gs.gsdefs.simpleDrumMap)
    overlap = kw.get('checkForOverlapped', True)
    want = {}
    for n in names:
        p = gs.gsio.fromMidiFile(os.path.join(folder.root, *n.split('/')), mapp, checkForOverlapped=overlap)
        want[n] = value_alone(p)
    got = [value_alone(p) for p in d.patterns]
    ctx.check(sorted(got) == sorted(want.values()), 'dataset', g, 'with', kw, 'has', got, 'instead of', want)
    ctx.same(len(set(id(p) for p in d.patterns)), len(names), 'separate patterns')
    ctx.check(all(not p.viewpoints for p in d.patterns), 'viewpoints on imported patterns')
    ctx.hit('datasets judged')
    ctx.hit('patterns judged', len(names))
    if names:
        ctx.nontrivial = True
        ctx.sig(g, sorted(want.values()), overlap)


def value_alone(p):
    m, events, views = lib.snap(p)
    for k in ('name', 'originFilePath'):
        if m[k]:
            m[k] = os.path.basename(m[k])
    return lib.repr_sort(lib.canon([m, events]))


# ---------------------------------------------------------------------------
# file searches

SUFFIXES = [None, '.mid', '.txt', '.midi', 'mid', ['.mid', '.txt'], ['.mid'], ['.mid', 'mid'], [], ['.txt', '.json', '.midi'], 'nope', '']


def has(name, suffix):
    if suffix is None:
        return True
    if isinstance(suffix, list):
        return any(name.endswith(s) for s in suffix)
    return name.endswith(suffix)


def search_case(ctx, rng, gs):
    root = os.path.join(ctx.scratch, 'search')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    dirs, files = [], []
    for d in rng.some(['d1', 'd 2', 'e.f'] + ODD, 1, 3):
        os.makedirs(os.path.join(root, d))
        dirs.append(d)
        for s in rng.some(STEMS + ODD, 0, 6):
            n = s + rng.pick(['.mid', '.mid', '.txt', '.midi', '', '.json'])
            if n and (d, n) not in files:
                lib.write_bytes(os.path.join(root, d, n), b'x')
                files.append((d, n))
    ctx.note('files', files)
    before = sorted(files)
    for _ in range(rng.int(2, 8)):
        suffix = copy.deepcopy(rng.pick(SUFFIXES))

        def one():
            if files and rng.chance(0.4):
                d, n = rng.pick(files)
                return os.path.join(root, d, n), [(d, n)]
            d = rng.pick(dirs)
            return os.path.join(root, d), [f for f in files if f[0] == d]

        def several(depth):
            paths, found = [], []
            for _ in range(rng.int(0, 4)):
                p, f = several(depth - 1) if depth and rng.chance(0.15) else one()
                paths.append(p)
                found += f
            return paths, found
        path, found = several(1) if rng.chance(0.5) else one()
        given = copy.deepcopy((path, suffix))
        ctx.note('search', path, suffix)
        got = gs.gsutil.search_files(path, suffix)
        ctx.check((path, suffix) == given, 'arguments after searching')
        want = sorted(set(os.path.join(root, d, n) for d, n in found if has(n, suffix)))
        ctx.same(list(got), want, 'files in', path, 'with suffix', suffix)
        ctx.hit('searches judged')
        if want:
            ctx.nontrivial = True
            ctx.sig(files, repr(path), repr(suffix))
        got.append('mine')
        ctx.same(list(gs.gsutil.search_files(path, suffix)), want, 'files in', path, 'searched again')
    missing = os.path.join(root, 'missing')
    try:
        res = gs.gsutil.search_files(rng.pick([missing, [missing]]))
        ctx.fail('searching what does not exist gave', res)
    except (IOError, OSError):
        ctx.hit('missing paths judged')
    now = sorted((d, n) for d in os.listdir(root) for n in os.listdir(os.path.join(root, d)))
    ctx.same(now, before, 'files after searching')


def match_case(ctx, rng, gs):
    stems = rng.some(STEMS + ODD, 1, 6)
    folders = ['', 'x/', '/a/b/', 'take [1]/']
    suffixes = ['.mid', '.txt', '.midi', '', '.beats', '.MID']
    names = []
    for _ in range(rng.int(0, 12)):
        s = rng.pick(stems)
        s = rng.pick([s, s, 'the' + s, s + '2', s[:-1] or s])
        names.append(rng.pick(folders) + s + rng.pick(suffixes))
    ctx.note('names', names)
    given = list(names)
    for _ in range(rng.int(2, 8)):
        suffix = rng.pick(['.mid', '.txt', None, None, '.beats'])
        msuffix = rng.pick(['.mid', '.txt', None, '.midi', '.beats'])
        name = rng.pick(folders) + rng.pick(stems) + rng.pick(['', '.mid', '.txt', '.beats', suffix or '', '.MID', '.TXT'])
        base = name.split('/')[-1]
        if suffix is not None and base.endswith(suffix):
            base = base[:-len(suffix)]
        if not base:
            continue
        want = []
        for n in names:
            b = n.split('/')[-1]
            if msuffix is not None:
                if not b.endswith(msuffix):
                    continue
                b = b[:-len(msuffix)]
            if b == base:
                want.append(n)
        got = gs.gsutil.match_files(name, names, suffix=suffix, match_suffix=msuffix)
        ctx.same(list(got), want, 'matches of', name, suffix, 'in', names, msuffix)
        ctx.hit('name matches judged')
        if want:
            ctx.nontrivial = True
            ctx.sig(name, suffix, msuffix, names)
        strip = gs.gsutil.strip_suffix(name, suffix)
        ctx.same(strip, name[:len(name) - len(suffix)] if suffix and name.endswith(suffix) else name, 'name', name, 'without', suffix)
    ctx.same(names, given, 'names after matching')


def case(ctx, rng, idx):
    gs = lib.load_gsapi()
    random.seed(rng.int(0, 1 << 30))
    r = rng.int(0, 3)
    if r <= 1:
        dataset_case(ctx, rng, gs)
    elif r == 2:
        search_case(ctx, rng, gs)
    else:
        match_case(ctx, rng, gs)
