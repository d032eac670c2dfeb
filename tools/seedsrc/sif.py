"""small writer of SESAM interface files, for the demonstrations"""
import struct
import os
import sys
import tempfile
import shutil
import atexit
import warnings
import numpy as np
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import freesif as fs     # noqa
TMP = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, TMP, True)


def path(n):
    return os.path.join(TMP, n)


def R(name, head, body=(), lines=(), t=1):
    return name, tuple(head), tuple(body), tuple(lines), t


def fmt(recs, p):
    out = []
    for name, head, body, lines, t in recs:
        out.append('%-8s' % name + ''.join('%16.8E' % v for v in head))
        body = list(body)
        if t == 1:
            body += [0.]*(-len(body) % 4)
        for i in range(0, len(body), 4):
            out.append(' '*8 + ''.join('%16.8E' % v for v in body[i:i+4]))
        out.extend(lines)
    with open(p, 'w') as f:
        f.write('\n'.join(out) + '\n')
    return p


def blk(d):
    return struct.pack('B', len(d)) + d + struct.pack('B', len(d))


def unf(recs, p, size=32):
    out = [b'K']
    for name, head, body, lines, t in recs:
        out.append(blk(('%-8s' % name).encode() +
                       np.array(head, '<f4').tobytes()))
        body = list(body)
        n, pre = (4, b' '*8) if t == 1 else (size, b'')
        if t == 1:
            body += [0.]*(-len(body) % 4)
        for i in range(0, len(body), n):
            out.append(blk(pre + np.array(body[i:i+n], '<f4').tobytes()))
        for l in lines:
            out.append(blk(l.encode()))
    with open(p, 'wb') as f:
        f.write(b''.join(out))
    return p


IDENT = R('IDENT', (1, 1, 3, 0))
IEND = R('IEND', (0, 0, 0, 0))
NN = {15: 2, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}


def td(name, ident, text):
    return R(name, (4, ident, 100 + len(text), 0), (), (' '*8 + text,), 2)


def setrec(i, members, istype=2):
    return R('GSETMEMB', (5 + len(members), i, 1, istype),
             (0,) + tuple(members), (), 2)


def model(elems, nn=30, sets=(), extra=()):
    """elems: [(type, nodes, geono)]"""
    recs = [IDENT]
    for i in range(1, nn + 1):
        recs.append(R('GNODE', (i + 100, i, 6, 123456)))
    for i in range(1, nn + 1):
        recs.append(R('GCOORD', (i, i, 2*i, i*i)))
    for k, (t, nodes, g) in enumerate(elems):
        recs.append(R('GELMNT1', (k + 11, k + 1, t, 0), nodes))
    for k, (t, nodes, g) in enumerate(elems):
        recs.append(R('GELREF1', (k + 1, 1, 0, 0),
                      (0, 0, 0, 0, g, 0, 0, 0)))
    for k, (name, mem) in enumerate(sets):
        recs.append(setrec(k + 1, mem))
    for k, (name, mem) in enumerate(sets):
        recs.append(td('TDSETNAM', k + 1, name))
    return recs + list(extra) + [IEND]


def convert(recs, name='T1.FEM', unformatted=False, **kw):
    p = path(name)
    (unf if unformatted else fmt)(recs, p)
    h = path(name.replace('.', '_') + '.h5')
    fs.sif2hdf5(p, h, **kw)
    return h


def table(h, where):
    import tables as tb
    with tb.open_file(h) as f:
        return f.get_node(where)[:]
