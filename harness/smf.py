# -*- coding: utf-8 -*-
"""An independent strict reader and writer of standard MIDI files: the oracle
for everything gsapi reads or writes as MIDI.  Shares no code with gsapi."""
from __future__ import absolute_import, division, print_function


class BadFile(Exception):
    pass


def varlen(n):
    assert 0 <= n < (1 << 28)
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.insert(0, (n & 0x7F) | 0x80)
        n >>= 7
    return bytearray(out)


DATA_LEN = {0x80: 2, 0x90: 2, 0xA0: 2, 0xB0: 2, 0xC0: 1, 0xD0: 1, 0xE0: 2}


def encode_track(events, running=None, eot=True):
    """events: list of (delta, kind, ...):
       (d, 'ch', status, channel, [data]), (d, 'meta', type, [data]), (d, 'sysex', status, [data]).
       running: callable() -> bool, whether to use running status where it is allowed."""
    buf = bytearray()
    status = None
    for e in events:
        buf += varlen(e[0])
        if e[1] == 'ch':
            st = e[2] | e[3]
            if st == status and running is not None and running():
                pass
            else:
                buf.append(st)
            status = st
            buf += bytearray(e[4])
        elif e[1] == 'meta':
            buf += bytearray([0xFF, e[2]]) + varlen(len(e[3])) + bytearray(e[3])
            status = None
        else:
            buf += bytearray([e[2]]) + varlen(len(e[3])) + bytearray(e[3])
            status = None
    return buf


def be(n, size):
    return bytearray([(n >> (8 * (size - 1 - i))) & 0xFF for i in range(size)])


def encode_file(tracks, resolution, fmt=1, header_extra=b'', running=None):
    head = bytearray(b'MThd') + be(6 + len(header_extra), 4) + be(fmt, 2) + be(len(tracks), 2) + \
        be(resolution, 2) + bytearray(header_extra)
    out = head
    for t in tracks:
        body = encode_track(t, running)
        out += bytearray(b'MTrk') + be(len(body), 4) + body
    return bytes(out)


def decode_file(data):
    """Strict: raises BadFile on anything a strict reader would reject."""
    data = bytearray(data)
    if data[:4] != bytearray(b'MThd'):
        raise BadFile('magic')
    size = num(data, 4, 4)
    fmt, ntracks, res = num(data, 8, 2), num(data, 10, 2), num(data, 12, 2)
    pos = 8 + size
    tracks = []
    while pos < len(data):
        if data[pos:pos + 4] != bytearray(b'MTrk'):
            raise BadFile('track magic at %d' % pos)
        n = num(data, pos + 4, 4)
        body = data[pos + 8:pos + 8 + n]
        if len(body) != n:
            raise BadFile('track shorter than its size')
        tracks.append(decode_track(body))
        pos += 8 + n
    if len(tracks) != ntracks:
        raise BadFile('%d tracks, header says %d' % (len(tracks), ntracks))
    return {'format': fmt, 'resolution': res, 'tracks': tracks}


def num(data, pos, n):
    if pos + n > len(data):
        raise BadFile('ends inside a number')
    v = 0
    for b in data[pos:pos + n]:
        v = (v << 8) | b
    return v


def read_var(body, pos):
    v = 0
    for i in range(4):
        if pos >= len(body):
            raise BadFile('ends inside a variable length number')
        b = body[pos]
        pos += 1
        v = (v << 7) | (b & 0x7F)
        if not b & 0x80:
            return v, pos
    raise BadFile('variable length number over four bytes')


def decode_prefix(body):
    """The events that are complete in a cut track."""
    out = []
    try:
        decode_track(body, out)
    except BadFile:
        pass
    return out


def decode_track(body, out=None):
    """-> list of (delta, 'ch', status, channel, data) etc."""
    pos, status = 0, None
    out = [] if out is None else out
    while pos < len(body):
        delta, pos = read_var(body, pos)
        if pos >= len(body):
            raise BadFile('delta without event')
        b = body[pos]
        if b == 0xFF:
            if pos + 1 >= len(body):
                raise BadFile('meta without type')
            kind = body[pos + 1]
            if kind & 0x80:
                raise BadFile('meta type %d' % kind)
            n, pos = read_var(body, pos + 2)
            d = list(body[pos:pos + n])
            if len(d) != n:
                raise BadFile('meta data cut')
            pos += n
            status = None
            out.append((delta, 'meta', kind, d))
            if kind == 0x2F and pos != len(body):
                raise BadFile('data after end of track')
        elif b in (0xF0, 0xF7):
            n, pos = read_var(body, pos + 1)
            d = list(body[pos:pos + n])
            if len(d) != n:
                raise BadFile('sysex data cut')
            pos += n
            status = None
            out.append((delta, 'sysex', b, d))
        elif b >= 0xF0:
            raise BadFile('system status %x in a file' % b)
        else:
            if b & 0x80:
                status = b
                pos += 1
            if status is None:
                raise BadFile('data byte without running status')
            n = DATA_LEN[status & 0xF0]
            d = list(body[pos:pos + n])
            if len(d) != n:
                raise BadFile('channel message cut')
            if any(x & 0x80 for x in d):
                raise BadFile('data byte over 127')
            pos += n
            out.append((delta, 'ch', status & 0xF0, status & 0x0F, d))
    return out


def absolute(track):
    t, out = 0, []
    for e in track:
        t += e[0]
        out.append((t,) + tuple(e[1:]))
    return out


def relative(events):
    """absolute (tick, ...) list, sorted by tick -> delta list"""
    last, out = 0, []
    for e in events:
        out.append((e[0] - last,) + tuple(e[1:]))
        last = e[0]
    return out


MAJOR = {-7: 'Cb', -6: 'Gb', -5: 'Db', -4: 'Ab', -3: 'Eb', -2: 'Bb', -1: 'F', 0: 'C',
         1: 'G', 2: 'D', 3: 'A', 4: 'E', 5: 'B', 6: 'F#', 7: 'C#'}
MINOR = {-7: 'Ab', -6: 'Eb', -5: 'Bb', -4: 'F', -3: 'C', -2: 'G', -1: 'D', 0: 'A',
         1: 'E', 2: 'B', 3: 'F#', 4: 'C#', 5: 'G#', 6: 'D#', 7: 'A#'}


def tempo_bytes(mpqn):
    return list(be(mpqn, 3))


def import_model(decoded, tracks=None):
    """What importing the decoded file must give, from the definition of the
    format alone: (notes, duration, bpm, signature, key).  A note is
    (track, channel, start tick, end tick or None, pitch, velocity)."""
    notes = []
    duration = None
    last_off = 0
    mpqn, sig, key = 500000, (4, 4), ''
    names = []
    for ti, tr in enumerate(decoded['tracks']):
        for e in tr:
            if e[1] == 'meta':
                if e[2] == 0x51:
                    mpqn = (e[3][0] << 16) | (e[3][1] << 8) | e[3][2]
                elif e[2] == 0x58:
                    sig = (e[3][0], 2 ** e[3][1])
                elif e[2] == 0x59:
                    n = e[3][0] - 256 if e[3][0] > 127 else e[3][0]
                    key = MINOR[n] + 'm' if e[3][1] == 1 else MAJOR[n]
    for ti, tr in enumerate(decoded['tracks']):
        name = ''
        for e in tr:
            if e[1] == 'meta' and e[2] == 3:
                name = ''.join(chr(c) for c in e[3])
                break
        names.append(name)
        if tracks is not None and ti not in tracks and name not in tracks:
            continue
        open_notes = {}
        for e in absolute(tr):
            if e[1] == 'meta' and e[2] == 0x2F:
                duration = e[0] if duration is None else max(duration, e[0])
            if e[1] != 'ch' or e[2] not in (0x80, 0x90):
                continue
            pitch, vel = e[4]
            k = (e[3], pitch)
            if e[2] == 0x90 and vel > 0:
                note = [ti, e[3], e[0], None, pitch, vel]
                notes.append(note)
                open_notes.setdefault(k, []).append(note)
            else:
                opened = open_notes.get(k, [])
                before = [n for n in opened if n[2] < e[0]] or opened
                if before:
                    n = before[-1]
                    n[3] = e[0]
                    opened[:] = [o for o in opened if o is not n]
                    last_off = max(last_off, e[0])
    return {'notes': notes, 'end': duration, 'last_off': last_off, 'bpm': 6e7 / mpqn if mpqn else None,
            'sig': sig, 'key': key, 'names': names, 'resolution': decoded['resolution']}
