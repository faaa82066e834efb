# -*- coding: utf-8 -*-
"""What every monitor shares: random numbers, verdicts, observation counters,
value snapshots and tolerant comparisons.  Runs under Python 2.7 (Jython) and 3."""
from __future__ import absolute_import, division, print_function

import os
import struct
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get('GSAPI_REPO', '/repo')
JAVA = 'java' in sys.platform
PY2 = sys.version_info[0] == 2
TOL = 1e-6

if PY2:
    text_type = unicode  # noqa: F821
    string_types = (str, unicode)  # noqa: F821
    int_types = (int, long)  # noqa: F821
else:
    text_type = str
    string_types = (str,)
    int_types = (int,)


# ---------------------------------------------------------------------------
# import of the code under test, always from the repository's working tree

class _NoBassmine(object):
    """There is no numpy under Jython: gsapi.bassmine becomes an empty module."""

    def find_module(self, name, path=None):
        return self if name == 'gsapi.bassmine' else None

    def load_module(self, name):
        mod = sys.modules.setdefault(name, types.ModuleType(name))
        mod.__loader__ = self
        return mod


def load_gsapi():
    if 'gsapi' not in sys.modules:
        if JAVA:
            sys.meta_path.insert(0, _NoBassmine())
        sys.path.insert(0, REPO)
        import gsapi  # noqa: F401
        import logging
        logging.disable(logging.CRITICAL)
        where = os.path.realpath(os.path.dirname(sys.modules['gsapi'].__file__))
        want = os.path.realpath(os.path.join(REPO, 'gsapi'))
        if where != want:
            raise RuntimeError('imported gsapi from %s' % where)
    return sys.modules['gsapi']


# ---------------------------------------------------------------------------
# random numbers, the same under every interpreter

_M = (1 << 64) - 1


def _mix(z):
    z = (z + 0x9E3779B97F4A7C15) & _M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & _M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & _M
    return z ^ (z >> 31)


def hash64(*parts):
    h = 0x243F6A8885A308D3
    for p in parts:
        for b in bytearray(str(p).encode('utf-8')):
            h = ((h ^ b) * 0x100000001B3) & _M
        h = _mix(h)
    return h


class Rng(object):
    def __init__(self, *seed):
        self.s = hash64(*seed)

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & _M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & _M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & _M
        return z ^ (z >> 31)

    def int(self, lo, hi):
        """lo <= result <= hi"""
        return lo + int(self.next() % (hi - lo + 1))

    def unit(self):
        return (self.next() >> 11) * (1.0 / (1 << 53))

    def chance(self, p):
        return self.unit() < p

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def some(self, seq, lo=0, hi=None):
        seq = list(seq)
        n = self.int(lo, len(seq) if hi is None else min(hi, len(seq)))
        self.shuffle(seq)
        return seq[:n]

    def shuffle(self, li):
        for i in range(len(li) - 1, 0, -1):
            j = self.int(0, i)
            li[i], li[j] = li[j], li[i]
        return li

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        r = self.unit() * total
        for v, w in pairs:
            r -= w
            if r < 0:
                return v
        return pairs[-1][0]


# ---------------------------------------------------------------------------
# verdicts and observations

class Violation(Exception):
    pass


class Ctx(object):
    """One run of a workload: what it saw, and what it found wrong."""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.trace = []
        self.log = []          # (key, value) pairs for cross-run comparison
        self.nontrivial = False
        self.signature = None
        self.scratch = '.'
        self.depth = 0
        self.violation = None   # a monitor's verdict, whatever the code does with the exception

    def begin(self, idx):
        self.idx = idx
        self.depth = 0
        self.violation = None
        self.trace = []
        self.nontrivial = False
        self.signature = []

    def note(self, *what):
        """Remember one step of the history: what a replay prints."""
        self.trace.append(what)

    def sig(self, *what):
        """What makes this case different from others."""
        self.signature.append(what)

    def hit(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def check(self, ok, *message):
        self.hit('oracle_decisions')
        if not ok:
            self.fail(*message)

    def fail(self, *message):
        raise Violation(' '.join(m if isinstance(m, str) else short(m) for m in message))

    def same(self, got, want, *message):
        self.hit('oracle_decisions')
        if not (got == want):
            self.fail(*(message + (': got', got, 'expected', want)))

    def close(self, got, want, *message):
        self.hit('oracle_decisions')
        if not near(got, want):
            self.fail(*(message + (': got', got, 'expected', want)))

    def end(self):
        if self.violation is not None:
            raise self.violation
        if self.nontrivial:
            self.distinct.add(hash64(repr(self.signature)))
            if len(self.samples) < 3:
                self.samples.append(short(self.trace, 1500))


def short(x, limit=1200):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + '...'


def near(a, b, tol=TOL):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except TypeError:
        return a == b


# ---------------------------------------------------------------------------
# snapshots (values only) and their comparison

def ev(e):
    """(start, duration, pitch, velocity, tag)"""
    return (e.startTime, e.duration, e.pitch, e.velocity, e.tag)


def evs(events):
    return [ev(e) for e in events]


def meta(p):
    return {'bpm': p.bpm, 'timeSignature': tuple(p.timeSignature), 'key': p.key,
            'resolution': p.resolution, 'startTime': p.startTime, 'name': p.name,
            'originFilePath': p.originFilePath, 'duration': p.duration}


def snap(p):
    """The whole value of a pattern, viewpoints included."""
    return (meta(p), evs(p.events),
            sorted((str(k), snap(v)) for k, v in p.viewpoints.items()))


def tagkey(t):
    """Orders and prints tags in the same way under Python 2 and 3."""
    if isinstance(t, tuple):
        return '(' + ','.join(tagkey(x) for x in t) + ')'
    if isinstance(t, string_types):
        return 's:' + t
    if isinstance(t, bool):
        return 'b:%s' % t
    if isinstance(t, int_types):
        return 'n:%d' % t
    if isinstance(t, float):
        # (sums may differ in the last digits)
        return ('n:%d' % round(t)) if abs(t - round(t)) < 1e-9 * max(1, abs(t)) else 'f:%.9g' % t
    if t is None:
        return 'None'
    return 'o:' + str(t)


def _key(e):
    return (tagkey(e[4]), e[2], e[3], e[0], e[1])


def _same_event(a, b, tol):
    return (abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol and
            a[2] == b[2] and a[3] == b[3] and a[4] == b[4])


def same_events(got, want, tol=TOL):
    """Multiset equality of event values, times up to a rounding tolerance."""
    if len(got) != len(want):
        return False
    g, w = sorted(got, key=_key), sorted(want, key=_key)
    if all(_same_event(a, b, tol) for a, b in zip(g, w)):
        return True
    rest = list(g)
    for b in w:
        for i, a in enumerate(rest):
            if _same_event(a, b, tol):
                del rest[i]
                break
        else:
            return False
    return True


def same_list(got, want, tol=TOL):
    return len(got) == len(want) and all(_same_event(a, b, tol) for a, b in zip(got, want))


def diff_events(got, want, tol=TOL):
    rest, missing = list(got), []
    for b in want:
        for i, a in enumerate(rest):
            if _same_event(a, b, tol):
                del rest[i]
                break
        else:
            missing.append(b)
    return 'missing %s, unexpected %s' % (short(missing, 500), short(rest, 500))


def check_events(ctx, got, want, what, ordered=False):
    ctx.hit('events_compared', len(want))
    ok = same_list(got, want) if ordered else same_events(got, want)
    if not ok:
        if ordered and same_events(got, want):
            ctx.fail(what, ': right events in wrong order: got', got, 'expected', want)
        ctx.fail(what, ':', diff_events(got, want))
    ctx.hit('oracle_decisions')


def ascii_text(s):
    return s if all(ord(c) < 128 for c in s) else ''.join(c if ord(c) < 128 else '<%x>' % ord(c) for c in s)


def canon(x):
    """JSON-able value that two interpreters can compare."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int_types):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return 'float:' + str(x).lower()
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return float('%.12g' % x)
    if isinstance(x, string_types):
        return ascii_text(x)
    if isinstance(x, (bytes, bytearray)):
        return [int(b) for b in bytearray(x)]
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(y) for y in x), key=repr_sort)
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    return str(x)


def repr_sort(x):
    import json
    return json.dumps(x, sort_keys=True)


def open_fds():
    try:
        return len(os.listdir('/proc/self/fd'))
    except OSError:
        return None


def read_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def write_bytes(path, data):
    with open(path, 'wb') as f:
        f.write(bytes(data))
