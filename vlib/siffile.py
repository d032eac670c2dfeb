"""Independent writer for formatted and unformatted SESAM interface files.
(Used to make inputs; the readers of the code under test are never used.)"""
import struct
from . import common
import numpy as np


class Rec(object):
    """One record. `kind`: 't1' (input: continuation lines of four values),
    't2' (results), 'text' (DATE/TEXT), 'td', 'neg' (prologue record)."""

    def __init__(self, name, head, body=(), lines=(), kind='t1', pad=True):
        self.name, self.kind = name, kind
        self.pad = pad       # last line of a 't1' record filled with zeros
        self.head = tuple(float(np.float32(x)) for x in head)
        self.body = tuple(float(np.float32(x)) for x in body)
        self.lines = tuple(lines)

    def __repr__(self):
        return 'Rec(%r, %r, %r, %r, %r)' % (self.name, self.head, self.body,
                                            self.lines, self.kind)


def _num(vals):
    return ''.join('%16.8E' % v for v in vals)


def write_formatted(recs, path, last_newline=True):
    out = []
    for r in recs:
        out.append('%-8s' % r.name + _num(r.head))
        body = list(r.body)
        if r.kind == 't1' and r.pad:
            body += [0.]*(-len(body) % 4)
        for i in range(0, len(body), 4):
            out.append(' '*8 + _num(body[i:i+4]))
        out.extend(r.lines)
    s = '\n'.join(out) + ('\n' if last_newline else '')
    common.case(s)
    with open(path, 'w', newline='\n') as f:
        f.write(s)
    return path


def _block(data, rng=None):
    assert len(data) <= 128, len(data)
    n = len(data)
    if n == 128 and (rng is None or rng.random() < .5):
        n = 129
    return struct.pack('B', n) + data + struct.pack('B', n)


def _floats(v):
    return np.asarray(v, '<f4').tobytes()


def write_unformatted(recs, path, rng=None, blocks=None):
    """`blocks`: function (number of remaining values) -> block size 1..32"""
    out = [b'K']
    for r in recs:
        out.append(_block(('%-8s' % r.name).encode() + _floats(r.head), rng))
        body = list(r.body)
        if r.kind == 't1':
            if r.pad:
                body += [0.]*(-len(body) % 4)
            for i in range(0, len(body), 4):
                out.append(_block(b' '*8 + _floats(body[i:i+4]), rng))
        else:
            while body:
                n = blocks(len(body)) if blocks else 32
                n = max(1, min(n, 32, len(body)))
                out.append(_block(_floats(body[:n]), rng))
                body = body[n:]
        for l in r.lines:
            out.append(_block(l.encode(), rng))
    common.case(b''.join(out))
    with open(path, 'wb') as f:
        f.write(b''.join(out))
    return path


def write(recs, path, formatted=True, rng=None, blocks=None):
    if formatted:
        return write_formatted(recs, path)
    if blocks is None and rng is not None:
        mode = rng.integers(0, 4)
        if mode == 0:
            blocks = lambda n: 32
        elif mode == 1:
            blocks = lambda n: 4
        else:
            blocks = lambda n: int(rng.integers(1, 33))
    return write_unformatted(recs, path, rng, blocks)
