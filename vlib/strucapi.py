"""Open generated structural models with the code under test."""
import copy
import functools
import os
import contextlib
import io
import numpy as np
import tables as tb
from . import strucmodel, siffile
from .conv import fs
from .siffile import Rec

_n = [0]
_live = [0]


class Spoil(object):
    """a data object whose answers are destroyed after they were copied: an
    answer must not be affected by what the user did with earlier ones, and
    the arrays given as arguments must come back as they were"""

    def __init__(self, obj):
        self._obj = obj

    def __getattr__(self, name):
        a = getattr(self._obj, name)
        if not callable(a):
            return a

        @functools.wraps(a)
        def call(*args, **kw):
            given = [x for x in list(args) + list(kw.values())
                     if isinstance(x, (np.ndarray, list))]
            before = copy.deepcopy(given)
            r = a(*args, **kw)
            for x, y in zip(given, before):
                if not np.array_equal(x, y):
                    raise AssertionError('%s modified its argument %r' % (
                        name, y))
            out = copy.deepcopy(r)
            destroy(r, given)
            return out
        return call


def destroy(r, keep=()):
    if any(r is k for k in keep):
        return
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.size and not any(
                np.shares_memory(r, k) for k in keep
                if isinstance(k, np.ndarray)):
            r[...] = np.zeros((), r.dtype)
    elif isinstance(r, (tuple, list)):
        for x in r:
            destroy(x, keep)
        if isinstance(r, list):
            del r[:]
    elif isinstance(r, dict):
        r.clear()


@contextlib.contextmanager
def opened_all(ctx, models, **k):
    """the data objects of several models, open at the same time"""
    with contextlib.ExitStack() as st:
        yield [Spoil(st.enter_context(opened(ctx, m, **k))) for m in models]


def interleave(rng, jobs, again=4):
    """the jobs in random order, some of them asked again later"""
    out = [jobs[i] for i in rng.permutation(len(jobs))]
    for _ in range(min(again, len(jobs))):
        j = int(rng.integers(0, len(out)))
        out.insert(int(rng.integers(j, len(out))) + 1, out[j])
    return out


@contextlib.contextmanager
def opened(ctx, m, letter=None, fmt=None, rng=None):
    """the FirstLevelData object of model `m`, converted by the real code"""
    rng = rng if rng is not None else m.rng
    letter = letter or ('R' if rng.random() < .5 else 'T')
    fmt = bool(rng.integers(0, 2)) if fmt is None else fmt
    _n[0] += 1
    hd = [Rec('IDENT', (1, 1, 3, 0))]
    if letter == 'R':
        hd.append(Rec('HIERARCH', (8, 1, 1, 1), (1, 0, 0, 0), (), 't2'))
    p = ctx.path('m%d_%s1.%s' % (_n[0], letter, 'SIF' if fmt else 'SIU'))
    siffile.write(strucmodel.records(m, header=hd), p, fmt, rng)
    d = None
    _live[0] += 1
    try:
        d = fs.open_sif(p)
        yield d
    finally:
        if d is not None:
            d.close()
        _live[0] -= 1
        if not _live[0]:
            tb.file._open_files.close_all()
            from freesif.data import file as F
            F._open_files.clear()
        os.unlink(p)


def describe(m):
    return {'nodes (external numbers)': m.nodex.tolist(),
            'coordinates': m.xyz.tolist(),
            'elements (type, nodes)': [(int(t), n.tolist()) for t, n in
                                       zip(m.eltyp, m.nodin)],
            'element numbers': m.elnox.tolist(),
            'sets (id, element members, node members)': {
                k: (v[0], np.asarray(v[1]).tolist(),
                    np.asarray(v[2]).tolist())
                for k, v in m.sets.items()},
            'geometry numbers': m.geono.tolist(),
            'result cases (ires, run, case, complex)': getattr(
                m, 'cases', None)}


def guarded(ctx, what, inp, fn):
    """run fn() -> message or None; exceptions are violations too"""
    try:
        bad = fn()
    except Exception as e:
        bad = 'raises %s: %s' % (type(e).__name__, e)
    if bad:
        ctx.fail('%s: %s' % (what, bad), inp)
    return not bad


def raises(fn, *a, **k):
    try:
        r = fn(*a, **k)
    except Exception as e:
        return e
    return None
