# -*- coding: utf-8 -*-
"""Compares what the two interpreters recorded on the same histories."""
import lib


def differ(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d and %d items' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return '%s: keys %s and %s' % (path, sorted(a), sorted(b))
        for k in a:
            d = differ(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return None if lib.near(a, b, 1e-9) else '%s: %r and %r' % (path, a, b)
    return None if a == b else '%s: %r and %r' % (path, a, b)


def violation(key, what, interp):
    idx = int(key.split('.')[0].split('-')[0].replace('read ', '')) if any(c.isdigit() for c in key) else 0
    return {'idx': idx, 'what': what, 'trace': key, 'interpreter': interp, 'case': idx}


def compare(logs, counters):
    """logs: {shard: {'cpython': {key: value}, 'jython': ..., 'cpythonr': what cpython read of jython's files, ...}}"""
    out = []
    for shard, by in sorted(logs.items()):
        c, j = by.get('cpython', {}), by.get('jython', {})
        last = min(max([case_of(k) for k in x] or [-1]) for x in (c, j))
        for key in sorted(set(c) | set(j), key=lambda k: (case_of(k), k)):
            if case_of(key) >= last:
                continue        # one of them ended earlier
            if (key in c) != (key in j):
                out.append(violation(key, 'only %s recorded %s' % ('Python 3' if key in c else 'Python 2.7', key), 'cpython'))
                break
            counters['values compared'] = counters.get('values compared', 0) + 1
            counters['oracle_decisions'] = counters.get('oracle_decisions', 0) + 1
            d = differ(c[key], j[key])
            if d:
                out.append(violation(key, 'Python 3 and Python 2.7 differ in %s %s: %s and %s' % (
                    key, d, lib.short(c[key], 600), lib.short(j[key], 600)), 'cpython'))
                break
        for reader, writer, name in (('cpythonr', j, 'Python 3 reads of Python 2.7'), ('jythonr', c, 'Python 2.7 reads of Python 3')):
            for key, v in sorted(by.get(reader, {}).items()):
                if key not in writer:
                    continue
                counters['files exchanged'] = counters.get('files exchanged', 0) + 1
                counters['oracle_decisions'] = counters.get('oracle_decisions', 0) + 1
                d = differ(v, writer[key])
                if d:
                    out.append(violation(key, '%s something else: %s %s: %s and %s' % (
                        name, key, d, lib.short(v, 600), lib.short(writer[key], 600)), 'cpython'))
                    break
    return out


def case_of(key):
    k = key[5:] if key.startswith('read ') else key
    n = ''
    for ch in k:
        if not ch.isdigit():
            break
        n += ch
    return int(n or 0)
