"""C22 - records written to a formatted file read back unchanged"""
import os
import numpy as np
from vlib.conv import fs
from vlib.strucapi import raises
from freesif.sequentialparser.sequentialfiles import FormattedFile

NAMES = ['GCOORD', 'GELMNT1', 'W1MATRIX', 'X', 'ABCDEFGH', 'GNODE', 'IEND']


def chunks(rng, v):
    """split of the values over write calls: first the record, then more"""
    n = len(v)
    cuts = [0]
    while cuts[-1] < n:
        m = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 40]))
        cuts.append(min(n, cuts[-1] + m))
    if rng.random() < .3:
        cuts.append(n)
    return [v[a:b] for a, b in zip(cuts[:-1], cuts[1:])] or [[]]


def value(rng):
    k = rng.integers(0, 8)
    if k == 0:
        return 0.
    if k == 1:
        return float(rng.integers(-99, 100))
    if k == 2:
        return float(np.float32(rng.normal()*10.**rng.integers(-37, 37)))
    return float(np.float32(rng.normal()))


def script(rng):
    """list of ('rec', name, chunks) / ('str', text, blanks) / ('more',
    chunks)"""
    ops = []
    for _ in range(int(rng.integers(1, 7))):
        n = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 30]))
        if rng.random() < .8:
            n = max(n, 4)
        v = [value(rng) for _ in range(n)]
        ops.append(['rec', str(rng.choice(NAMES)), chunks(rng, v)])
        if not ops[-1][2][0]:
            ops[-1][2] = ops[-1][2] + [[]]
        for _ in range(int(rng.integers(0, 3)) if rng.random() < .5 else 0):
            t = 'TEXT LINE %d.' % rng.integers(0, 10**int(rng.integers(1, 9)))
            ops.append(['str', t, int(rng.choice([8, 8, 8, 0, 3]))])
            if rng.random() < .3:
                w = [value(rng) for _ in range(int(rng.integers(1, 10)))]
                ops.append(['more', chunks(rng, w)])
    return ops


def perform(ops, path, typ):
    f = FormattedFile(path, 'w')
    conv = {'tuple': tuple, 'list': list,
            'array': lambda c: np.array(c, 'f8')}[typ]
    for op in ops:
        if op[0] == 'rec':
            f.write_record(op[1], conv(op[2][0]))
            for c in op[2][1:]:
                f.write_floats(conv(c))
        elif op[0] == 'str':
            if op[2] == 8:
                f.write_string(op[1])
            else:
                f.write_string(op[1], op[2])
        else:
            for c in op[1]:
                f.write_floats(conv(c))
    f.close()


def lines_expected(ops):
    """[(name, values)] per physical line, or the text of the line"""
    out = []
    for op in ops:
        if op[0] == 'str':
            out.append(' '*op[2] + op[1])
            continue
        vals = [x for c in op[-1] for x in c]
        name = op[1] if op[0] == 'rec' else ''
        first = True
        for i in range(0, max(len(vals), 1), 4):
            out.append((name if first else '', vals[i:i+4]))
            first = False
    return out


def check(ctx, ops, k, typ):
    p = ctx.path('w%d.sif' % k)
    try:
        perform(ops, p, typ)
        with open(p, newline='') as f:
            text = f.read()
        want = lines_expected(ops)
        got = text.split('\n')
        if got and got[-1] == '':
            got.pop()
        if len(got) != len(want):
            return '%d lines written, expected %d:\n%s' % (len(got),
                                                           len(want), text)
        for g, w in zip(got, want):
            if isinstance(w, str):
                if g != w:
                    return 'text line %r, expected %r' % (g, w)
                continue
            g = g.rstrip(' ') if len(w[1]) == 0 else g.rstrip(' ')
            if g[:8].strip() != w[0]:
                return 'line %r, expected to start with %r' % (g, w[0])
            cols = [g[i:i+16] for i in range(8, len(g), 16)]
            if len(cols) != len(w[1]):
                return 'line %r has %d values, expected %s' % (g, len(cols),
                                                               w[1])
            for c, x in zip(cols, w[1]):
                if len(c) != 16 or np.float32(float(c)) != np.float32(x):
                    return 'column %r, written %r' % (c, x)
        return reread(ops, p)
    finally:
        if os.path.exists(p):
            os.unlink(p)


def reread(ops, p):
    f = FormattedFile(p)
    try:
        for op in ops:
            if op[0] == 'str':
                s = f.read_stringrec()
                if s != ' '*op[2] + op[1]:
                    return 'text read back as %r' % s
                continue
            v = [x for c in op[-1] for x in c]
            got = ()
            if op[0] == 'rec':
                nm, got = f.read_headerrec()
                if nm != op[1]:
                    return 'record %s read back as %s' % (op[1], nm)
                got = tuple(got)
            if len(got) < len(v):
                got += tuple(f.read_floats(len(v) - len(got)))
            if len(got) != len(v) or not np.array_equal(
                    np.float32(got), np.float32(v)):
                return 'values %s read back as %s' % (v, got)
        if f.f.read().strip():
            return 'data left after the last record'
    finally:
        f.close()


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 22)
    k = 0
    # every length with every split into two or three write calls
    top = ctx.budget(14, 22)
    for n in range(1, top):
        for a in range(1, n + 1):
            for b in range(a, n + 1):
                if ctx.quick and (a > 9 and b != n):
                    continue
                v = [float(i + 1) for i in range(n)]
                tail = [['rec', 'IEND', [[0., 0., 0., 0.]]]] if (a + b) % 3 \
                    else [['str', 'last', 8], ['rec', 'IEND', [[1.]]]]
                ops = [['rec', 'GCOORD', [v[:a], v[a:b], v[b:]]]] + tail
                k += 1
                ctx.count('lengths and splits')
                one(ctx, ops, k, 'tuple')
    for j in range(ctx.budget(600, 12000)):
        k += 1
        ctx.count('random scripts')
        one(ctx, script(rng), k, ['tuple', 'list', 'array'][j % 3])


def one(ctx, ops, k, typ):
    ctx.case(ops)
    try:
        bad = check(ctx, ops, k, typ)
    except Exception as e:
        bad = 'raises %r' % (e,)
    if bad:
        ctx.fail('written operations read back differently: ' + bad,
                 {'operations': ops, 'sequence type': typ})


def deductive(ctx):
    from pyvc import seqfile, sifwriter
    from pyvc.report import Task
    return sifwriter.tasks() + [
        Task('FormattedFile: read_headerrec, read_stringrec, read_floatrec, '
             'tofloatrec, read_floats', seqfile.verify,
             ('FormattedFile', 't1'), replay=sifwriter.replay_read),
        Task('FormattedFile: read_headerrec (short records)', seqfile.short,
             replay=sifwriter.replay_read)], sifwriter.TRUSTED + seqfile.TRUSTED
