"""C12 - selections by set and kind return exactly the selected elements"""
import numpy as np
from vlib import strucmodel as S
from vlib.strucapi import (opened_all, describe, guarded, raises,
                           interleave)



def deductive(ctx):
    from pyvc import struc
    return struc.tasks12(), struc.TRUSTED


def check(m, d, sets, kind):
    sel = S.elems(m, sets, kind)
    ext = np.array(d.get_elementnumbers(sets, kind))
    inn = np.array(d.get_elementnumbers(sets, kind, 'internal'))
    typ = np.array(d.get_elements(sets, kind)[2])
    if not np.array_equal(ext, m.elnox[sel]):
        return 'element numbers %s, expected %s' % (ext, m.elnox[sel])
    if not np.array_equal(inn, sel + 1):
        return 'internal element numbers %s, expected %s' % (inn, sel + 1)
    if not np.array_equal(typ, m.eltyp[sel]):
        return 'element types %s, expected %s' % (typ, m.eltyp[sel])
    if kind is None:
        b, s = S.elems(m, sets, 'beam'), S.elems(m, sets, 'shell')
        if len(b):
            p = d.get_section_properties(sets)
            if list(p['geono']) != list(m.geono[b]):
                return 'sections %s, expected %s' % (list(p['geono']),
                                                     m.geono[b])
        if len(s):
            t = d.get_shell_thicknesses(sets)
            w = [m.gelth[list(m.tgeo).index(m.geono[e])] for e in s]
            if not np.array_equal(t, np.array(w, 'f4')):
                return 'thicknesses %s, expected %s' % (t, w)


def errors(m, d):
    names = list(m.sets)
    bad_sets = ['nosuchset', ['nosuchset'], [names[0], 'nosuchset'],
                ('nosuchset', names[0]), names[0] + 'x', names[0][:-1] + '_',
                names[0].swapcase()]
    for f in (d.get_nodes, d.get_nodenumbers, d.get_elements,
              d.get_elementnumbers, d.get_section_properties,
              d.get_shell_thicknesses):
        for b in bad_sets:
            if isinstance(b, str) and b in m.sets:
                continue
            if raises(f, b) is None:
                return '%s(sets=%r) raises no error' % (f.__name__, b)
    for f in (d.get_nodes, d.get_nodenumbers, d.get_elements,
              d.get_elementnumbers):
        for kind in ('beams', 'plate', 'Beam', 'x', 15):
            for sets in (None, names[0]):
                if raises(f, sets, kind) is None:
                    return '%s(kind=%r) raises no error' % (f.__name__, kind)
    for f in (d.get_nodenumbers, d.get_elementnumbers):
        for t in ('ext', 'Internal', '', None, 1):
            for sets in (None, names[0]):
                if raises(f, sets, numbertype=t) is None:
                    return '%s(numbertype=%r) raises no error' % (
                        f.__name__, t)


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 12)
    for k in range(ctx.budget(7, 100)):
        ms = [S.make(rng, results=False, mixed=k % 2 and i)
              for i in range(2)]
        with opened_all(ctx, ms) as ds:
            jobs = [(m, d, sets, kind) for m, d in zip(ms, ds)
                    for sets, kind in S.selections(m, 12, rng) +
                    [(None, None), (None, 'beam'), (None, 'shell')]
                    if len(S.elems(m, sets, kind))]
            for m, d, sets, kind in interleave(rng, jobs):
                ctx.count('selections')
                guarded(ctx, 'sets=%r kind=%r' % (sets, kind), describe(m),
                        lambda: check(m, d, sets, kind))
            for m, d in list(zip(ms, ds))*2:
                nm = d.get_setnames()
                if sorted(x.decode() if isinstance(x, bytes) else str(x)
                          for x in nm) != sorted(m.sets):
                    ctx.fail('set names %s, expected %s' % (nm,
                                                            list(m.sets)))
                ctx.count('errors')
                guarded(ctx, 'unknown selections', describe(m),
                        lambda: errors(m, d))
