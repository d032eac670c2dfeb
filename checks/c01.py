"""C01 - numeric data are read identically however blocked or requested"""
import numpy as np
from vlib import siffile
from vlib.siffile import Rec
from vlib.conv import fs
from freesif.sequentialparser.sequentialfiles import (FormattedFile,
                                                      UnformattedFile)

NAMES1, NAMES2 = ('GNODE', 'GBEAMG', 'GELREF1'), ('RVNODDIS', 'GSETMEMB',
                                                  'W1MATRIX')


CASES = [(c, k) for c in ('FormattedFile', 'UnformattedFile')
         for k in ('t1', 't2')]


def deductive(ctx):
    from pyvc import seqfile
    from pyvc.report import Task
    return ([Task('%s: read_headerrec, read_stringrec, read_floatrec, '
                  'tofloatrec, read_floats, at_headerrec (%s)' % (
                      c, {'t1': 'input records', 't2': 'results records'}[k]),
                  seqfile.verify, (c, k), replay=concrete)
             for c, k in CASES] +
            [Task('record names', seqfile.names)], seqfile.TRUSTED)


def concrete(ctx, ob):
    """the counterexample, or one close to it, on the real code"""
    cls, kind = ob.task.args
    m = ob.d['info'] if isinstance(ob.d['info'], dict) else {}

    def num(k, d, hi):
        v = m.get(k)
        return v if isinstance(v, int) and 0 <= v <= hi else d
    P = m.get('P')
    sizes = []
    if P and all(isinstance(x, int) for x in P):
        w = [b - a for a, b in zip(P, P[1:])]
        if w and all(1 <= x <= 32 for x in w) and sum(w) <= 3000:
            sizes.append(w)
    L = num('L', 80, 3000)
    for L in dict.fromkeys((L, L + 1, 80, 33, 4, 1)):
        for blocks in sizes + [None, 1, 5, 32]:
            if isinstance(blocks, list) and sum(blocks) != L:
                continue
            for req in ((num('c', 0, L), num('n', 1, L)), (1, 1), (3, 4),
                        (0, 5), (5, 0, 3), (2, 7, 1), (L, 0), (32, 1)):
                run_one(ctx, cls, kind, L, blocks, req)
                if ctx.violations:
                    return True
    return None


def run_one(ctx, cls, kind, L, blocks, req):
    vals = [float(k + 1) for k in range(L)]
    name = 'GBEAMG' if kind == 't1' else 'RVNODDIS'
    recs = [Rec(name, (4. + L, 1, 2, 3), vals, (), kind, False),
            Rec('IEND', (0, 0, 0, 0))]
    if isinstance(blocks, list):
        it = list(blocks)
        bl = lambda left: it.pop(0)
    else:
        bl = (lambda left: blocks) if blocks else None
    p = siffile.write(recs, ctx.path('z'), cls == 'FormattedFile', None, bl)
    c = {'FormattedFile': FormattedFile,
         'UnformattedFile': UnformattedFile}[cls]
    sk = 8 if kind == 't1' else 0
    f, out, n, at = c(p), [], 0, None
    try:
        h = f.read_headerrec()
        for r in req:
            r = min(r, L - n)
            v = f.read_floats(r, sk)
            n += r
            out.append((r, tuple(v)))
        if kind == 't1' and f.at_headerrec() != (n == L):
            at = 'at_headerrec() is %s' % (not n == L)
        while n < L:
            v = f.read_floats(min(4, L - n), sk)
            out.append((min(4, L - n), tuple(v)))
            n += min(4, L - n)
        e = f.read_headerrec()
    except Exception as ex:
        h = e = ('%r' % ex, ())
    f.close()
    ctx.count('counterexamples replayed')
    got = [x for r, v in out for x in v]
    if at or h[0] != name or e[0] != 'IEND' or got != vals or \
            any(r != len(v) for r, v in out):
        ctx.fail('%s: record of %d values, blocks %s, requests %s: read %s, '
                 'next header %s %s' % (cls, L, blocks, req, out[:3], e[0],
                                        at or ''), dict(values=vals))


def drive(f, recs, reqs, t1float):
    """read the records; reqs[i] = request sizes for record i"""
    out = []
    for r, req in zip(recs, reqs):
        name, rec = f.read_headerrec()
        skip = 8 if r.kind == 't1' else 0
        vals = []
        parts = []
        for n in req:
            if n == 'line':
                v = f.read_floatrec(skip)
            else:
                v = f.read_floats(n, skip)
                parts.append((n, len(v)))
            vals.extend(v)
        out.append((name, tuple(rec), tuple(vals), parts))
    return out


def f32(v):
    return np.asarray(v, 'f8').astype('f4')


def one(ctx, rng, big=False):
    recs, reqs, exp = [], [], []
    nrec = int(rng.integers(1, 5))
    for k in range(nrec):
        t1 = rng.random() < .5
        name = str(rng.choice(NAMES1 if t1 else NAMES2))
        n = int(rng.choice([0, 1, 3, 4, 5, 8, 12, 31, 32, 33, 63, 64, 65,
                            int(rng.integers(0, 200))]))
        vals = f32(rng.normal(size=n)*10.**rng.integers(-20, 20, n))
        head = f32(rng.normal(size=4)*1000)
        if not t1:
            head[0] = 4 + n
        head = np.abs(head)
        r = Rec(name, head, vals, (), 't1' if t1 else 't2', True)
        body = list(r.body)
        if t1:
            body += [0.]*(-len(body) % 4)
        req, left = [], len(body)
        while left:
            m = int(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 32, 33, left]))
            if m > left:
                continue
            req.append(m)
            left -= m
        # leave values of the last line unread: they must not leak into the
        # next record
        if req and rng.random() < .4:
            used = sum(req) - req[-1]
            last = len(body) - used
            keep = last - int(rng.integers(1, 4)) if last > 3 else last
            # only values within the last physical line may be left
            if t1 or True:
                req[-1] = max(keep, 0)
                if not t1 or (len(body) - used - keep) >= 4 or keep < 1:
                    req[-1] = last
        if rng.random() < .3:
            req.insert(int(rng.integers(0, len(req)+1)), 0)
        recs.append(r)
        reqs.append(req)
        exp.append((name, r.head, tuple(body[:sum(req)])))
    end = Rec('IEND', (0, 0, 0, 0))
    res = []
    for fmt, cls in ((True, FormattedFile), (False, UnformattedFile)):
        p = siffile.write(recs + [end], ctx.path('x'), fmt, rng)
        try:
            f = cls(p)
            got = drive(f, recs + [end], reqs + [[]], None)
            f.close()
        except Exception as e:
            ctx.fail('%s: reading raises %r' % (cls.__name__, e),
                     dict(records=[repr(r) for r in recs], requests=reqs))
            continue
        ctx.count('record sequences read')
        for (name, head, vals, parts), (en, eh, ev) in zip(got[:-1], exp):
            bad = None
            if name != en or not np.array_equal(f32(head), f32(eh)):
                bad = 'header %s %s read, %s %s on file' % (name, head, en,
                                                            eh)
            elif any(a != b for a, b in parts):
                bad = 'requests %s answered with %s values' % (
                    [a for a, b in parts], [b for a, b in parts])
            elif not np.array_equal(f32(vals), f32(ev)):
                bad = 'values %s read, %s on file' % (vals[:12], ev[:12])
            if bad:
                ctx.fail('%s: %s' % (cls.__name__, bad),
                         dict(records=[repr(r) for r in recs], requests=reqs))
                break
        else:
            if got[-1][0] != 'IEND':
                ctx.fail('%s: %s read where IEND is on file' % (
                    cls.__name__, got[-1][0]),
                    dict(records=[repr(r) for r in recs], requests=reqs))
            res.append(got)


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed)
    for _ in range(ctx.budget(400, 6000)):
        one(ctx, rng)
    # every single request size after every leftover, for the three readers
    vals = [float(k + 1) for k in range(80)]
    for fmt, cls in ((True, FormattedFile), (False, UnformattedFile)):
        for kind in ('t1', 't2'):
            name = 'GBEAMG' if kind == 't1' else 'RVNODDIS'
            recs = [Rec(name, (84, 1, 2, 3), vals, (), kind),
                    Rec('IEND', (0, 0, 0, 0))]
            for b in ((None,) if fmt or kind == 't1' else
                      (lambda n: 32, lambda n: 1, lambda n: 5)):
                p = siffile.write(recs, ctx.path('y'), fmt, None, b)
                for a in range(0, 37):
                    for c in range(0, 37, 1 if not ctx.quick else 3):
                        f = cls(p)
                        sk = 8 if kind == 't1' else 0
                        f.read_headerrec()
                        try:
                            v = f.read_floats(a, sk) + f.read_floats(c, sk) \
                                + f.read_floats(1, sk)
                        except Exception as e:
                            v = repr(e)
                        f.close()
                        ctx.count('request size pairs')
                        if v != tuple(vals[:a + c + 1]):
                            ctx.fail('%s, %s record: requests %d, %d, 1 '
                                     'return %s' % (cls.__name__, kind, a, c,
                                                    v), dict(values=vals))
