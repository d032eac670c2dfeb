"""C02 - skipping a record always lands exactly on the next record"""
import numpy as np
from vlib import recgen, siffile, oracle
from vlib.conv import check_file, convert, fs
from vlib.recgen import Gen, DEPENDS, GENERAL_NAMES, random_file
from vlib.records import SPECS, UNKNOWN_T1, UNKNOWN_T2
from vlib.siffile import Rec

KINDS = ('rows', 'links', 'names')
# long texts are skipped in runs as well
TEXTS = ('DATE', 'TEXT')


def deductive(ctx):
    from pyvc import seqfile, dispatch
    from pyvc.report import Task
    cl = ('FormattedFile', 'UnformattedFile')
    ts = [Task('%s: skip_restofrecord, skip_contrecs (%s)' % (c, k),
               seqfile.skip, (c, k), replay=concrete)
          for c in cl for k in seqfile.KINDS]
    ts += [Task('general_parser (negative first value, %s)' % c,
                dispatch.negative, (c,), replay=concrete) for c in cl]
    ts += [Task('general_parser', dispatch.general, replay=concrete),
           Task('parse_file', dispatch.parse, (False,), replay=concrete),
           Task('parse_file with a filter', dispatch.parse, (True,),
                replay=concrete),
           Task('record names', seqfile.names)]
    return ts, seqfile.TRUSTED + dispatch.TRUSTED


def concrete(ctx, ob):
    """files around the record kind of the failed obligation"""
    rng = np.random.default_rng(ctx.seed + 99)
    cls = ob.task.args[0] if ob.task.args else None
    if isinstance(cls, str):
        count_records(ctx, rng, 60)
        if ctx.violations:
            return True
    for k in range(60):
        names = list(rng.permutation(GENERAL_NAMES)[:12])
        recs = random_file(rng, nruns=14, cover=names, unknown=True,
                           neg=True)
        only = None
        if k % 2:
            present = sorted({r.name for r in recs if r.name in SPECS})
            only = closure([str(x) for x in rng.permutation(present)[
                :int(rng.integers(1, len(present) + 1))]]) | {'IDENT'}
            only = sorted(only)
        check_file(ctx, recs, k % 4 < 2, k, KINDS,
                   'replay of a counterexample', only)
        if ctx.violations:
            return True
    return None


def closure(names):
    out = set(names)
    todo = list(names)
    while todo:
        for d in DEPENDS.get(todo.pop(), ()):
            if d not in out:
                out.add(d)
                todo.append(d)
    return out


def skipped_kinds(g, rng):
    """one record (run) of every kind that may be skipped without a filter"""
    out = []
    for nm in UNKNOWN_T1:
        for n in (0, 4, 12):
            out.append(Rec(nm, [g.i()] + g.fs(3), g.fs(n), (), 't1'))
    for nm in UNKNOWN_T2:
        for n in (0, 1, 5, 32, 33, 70):
            out.append(Rec(nm, [4. + n] + g.fs(3), g.fs(n), (), 't2'))
    return out


def filler(g, names, rng):
    """records the given ones depend on"""
    recs = []
    for n in ('GELMNT1', 'RDPOINTS', 'RDFORCES', 'RDSTRAIN', 'RDSTRESS',
              'RDRESREF'):
        recs.append(g.make(n))
    return recs


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 2)
    # 1. every supported record after skipped records of every kind
    g0 = Gen(rng)
    reps = ctx.budget(1, 6)
    for rep in range(reps):
        names = [str(n) for n in rng.permutation(GENERAL_NAMES)]
        kinds = skipped_kinds(g0, rng)
        for fmt in (True, False):
            for chunk in range(0, len(names), 12):
                g = Gen(rng)
                pre = filler(g, None, rng)
                recs = [Rec('IDENT', (1, 1, 3, 0))] + list(pre)
                for n in names[chunk:chunk+12]:
                    if recs[-1].name == n or not g.can(n):
                        continue
                    u = kinds[int(rng.integers(0, len(kinds)))]
                    for _ in range(int(rng.integers(1, 3))):
                        recs.append(u)
                    if SPECS[n].kind in ('t1', 't2') and rng.random() < .3:
                        recs.append(g.negative(n))
                    recs.append(g.make(n))
                recs += [kinds[int(rng.integers(0, len(kinds)))],
                         Rec('IEND', (0, 0, 0, 0))]
                check_file(ctx, recs, fmt, rep, KINDS,
                           'records after skipped records')
    # 2. random files with unimplemented and prologue records
    for k in range(ctx.budget(30, 600)):
        names = list(rng.permutation(GENERAL_NAMES)[:10])
        recs = random_file(rng, nruns=12, cover=names, unknown=True,
                           neg=True)
        check_file(ctx, recs, k % 2 == 0, k, KINDS,
                   'files with unimplemented and prologue records')
    # 3. record filters: same result as the filtered expectation
    for k in range(ctx.budget(40, 900)):
        names = list(rng.permutation(GENERAL_NAMES)[:10])
        recs = random_file(rng, nruns=12, cover=names, unknown=True,
                           neg=True)
        present = []
        for r in recs:
            if r.name not in present and r.name in SPECS:
                present.append(r.name)
        m = int(rng.integers(1, len(present) + 1))
        only = closure([str(x) for x in rng.permutation(present)[:m]])
        only |= {'IDENT'}
        if rng.random() < .5:
            only |= {'IEND'}
        only = [str(x) for x in rng.permutation(sorted(only))]
        check_file(ctx, recs, k % 2 == 0, k, KINDS, 'filtered conversions',
                   only)
    # 4. every record type excluded by a filter, followed by every type
    for rep in range(ctx.budget(1, 4)):
        names = [str(n) for n in rng.permutation(GENERAL_NAMES)]
        for fmt in (True, False):
            for off in (1, 2):
                for chunk in range(0, len(names), 16):
                    g = Gen(rng)
                    pre = filler(g, None, rng)
                    deps = [r.name for r in pre]
                    recs = [Rec('IDENT', (1, 1, 3, 0))] + list(pre)
                    for n in names[chunk:chunk+16]:
                        if not g.can(n) or recs[-1].name == n:
                            continue
                        for _ in range(int(rng.integers(1, 4))):
                            recs.append(g.make(n))
                    recs.append(Rec('IEND', (0, 0, 0, 0)))
                    only = ['IDENT'] + deps + names[chunk+off-1:chunk+16:2]
                    check_file(ctx, recs, fmt, rep, KINDS,
                               'alternating filter', only)
    # 5. the header that a skip returns
    count_records(ctx, rng)


def count_records(ctx, rng, reps=None):
    from freesif.sequentialparser.sequentialfiles import (FormattedFile,
                                                          UnformattedFile)
    for k in range(reps or ctx.budget(40, 500)):
        names = list(rng.permutation(GENERAL_NAMES)[:12])
        recs = random_file(rng, nruns=10, cover=names, unknown=True,
                           neg=True)
        for fmt, cls in ((True, FormattedFile), (False, UnformattedFile)):
            p = siffile.write(recs, ctx.path('sk'), fmt, rng)
            f = cls(p)
            seen = []
            try:
                n, r = f.read_headerrec()
                while n:
                    seen.append((n, tuple(np.float32(x) for x in r)))
                    if len(seen) > len(recs) + 5:
                        break
                    n, r = f.skip_restofrecord(n, r)
            except Exception as e:
                seen.append(repr(e))
            f.close()
            want = [(r.name, tuple(np.float32(x) for x in r.head))
                    for r in recs]
            ctx.count('headers reached by skipping', len(want))
            if seen != want:
                i = next((i for i, (a, b) in enumerate(zip(seen, want))
                          if a != b), min(len(seen), len(want)))
                ctx.fail('skipping (%s): after record %d (%r) the reader is '
                         'at %r, the file continues with %r' % (
                             cls.__name__, i - 1, recs[i-1] if i else None,
                             seen[i] if i < len(seen) else None,
                             want[i] if i < len(want) else None),
                         {'records': [repr(r) for r in recs[max(0, i-2):
                                                            i+2]]})
