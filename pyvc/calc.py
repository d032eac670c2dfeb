"""Contracts of freesif/calc (C18)"""
import z3
import numpy as np
from . import core, arrays
from .core import Engine, truth
from .arrays import LArr, Lead, Fib

P, V, G = ('freesif/calc/principal.py', 'freesif/calc/vonmises.py',
           'freesif/calc/general.py')
TRUSTED = [
    'floating-point arithmetic is treated as arithmetic of real numbers '
    '(rounding, overflow and NaN are not modelled)',
    'numpy: indexing with an ellipsis, stack, where, reductions, delete, '
    'ndindex act position by position over the leading axes; max/min return '
    'an entry that bounds the others; numpy.linalg.eig of a symmetric matrix '
    'returns its eigenvalues in some order',
    'sqrt(x) is the non-negative root for x >= 0']


def arr(E, lead, n):
    a = np.empty(n, object)
    for i in range(n):
        a[i] = E.real('s%d' % i)

    def info(E, model):
        return {'stress': [number(model.eval(x.e, True)) for x in o]}
    o = list(a)
    E.on_refute = info
    return LArr(lead, a), list(a)


def unchanged(E, a, orig):
    for x, y in zip(a.inner, orig):
        E.prove_eq('the argument is not modified', x, y)


def shape(E, r, lead, inner):
    ok = isinstance(r, LArr) and r.lead is lead and r.inner.shape == inner
    E.prove('documented shape', z3.BoolVal(bool(ok)))
    return ok


def guarded(E, f, *a):
    try:
        return True, f(*a)
    except Exception as e:
        if not getattr(e, 'semantic', False) and not isinstance(
                e, (ValueError, IndexError, TypeError, ZeroDivisionError)):
            raise
        E.fail('returns', '%s: %s' % (type(e).__name__, e))
        return False, None


def val(x):
    e = core.arith(x)
    return z3.ToReal(e) if z3.is_int(e) else e


def principal2d(n):
    E = Engine('principal2d[%d components]' % n, timeout=20000)

    def body():
        m, _ = arrays.load(P)
        lead = Lead('any')
        a, o = arr(E, lead, n)
        ok, r = guarded(E, m.principal2d, a)
        if not ok:
            return
        E.cover('returns')
        unchanged(E, a, o)
        if not shape(E, r, lead, (2,)):
            return
        p1, p2 = val(r.inner[0]), val(r.inner[1])
        sxx, syy, txy = o[0].e, o[1].e, o[2].e
        E.prove('larger first', p1 >= p2)
        E.prove('sum of the principal stresses is the trace',
                p1 + p2 == sxx + syy)
        E.prove('product of the principal stresses is the determinant',
                p1*p2 == sxx*syy - txy*txy)
    return E.explore(body)


def vonmises2d(n):
    E = Engine('vonmises2d[%d components]' % n, timeout=20000)

    def body():
        m, _ = arrays.load(V)
        lead = Lead('any')
        a, o = arr(E, lead, n)
        ok, r = guarded(E, m.vonmises2d, a)
        if not ok:
            return
        E.cover('returns')
        unchanged(E, a, o)
        if not shape(E, r, lead, ()):
            return
        v = val(r.inner[()])
        sxx, syy, txy = o[0].e, o[1].e, o[2].e
        E.prove('not negative', v >= 0)
        E.prove('square is the plane-stress expression',
                v*v == sxx*sxx + syy*syy - sxx*syy + 3*txy*txy)
    return E.explore(body)


def thickshell(n):
    E = Engine('principal_thickshell[%d components]' % n, timeout=20000,
               maxpaths=3000)

    def body():
        m, np_ = arrays.load(P)
        lead = Lead('any')
        a, o = arr(E, lead, n)
        ok, r = guarded(E, m.principal_thickshell, a)
        if not ok:
            return
        E.cover('returns')
        unchanged(E, a, o)
        if not shape(E, r, lead, (2,)):
            return
        if not np_.eigcalls:
            raise core.Unsupported('no eigenvalue solver is called')
        sxx, syy, txy, txz, tyz = o[:5]
        T = [[sxx, txy, txz], [txy, syy, tyz], [txz, tyz, 0]]
        M, w = np_.eigcalls[-1]
        for i in range(3):
            for j in range(3):
                E.prove_eq('eigenvalues are those of the stress tensor',
                           M[i, j], T[i][j])
        e = [x.e for x in w]
        ab = [z3.If(x >= 0, x, -x) for x in e]
        p1, p2 = val(r.inner[0]), val(r.inner[1])
        cases = []
        for i in range(3):
            j, k = [x for x in range(3) if x != i]
            cases.append(z3.And(
                ab[i] <= ab[j], ab[i] <= ab[k],
                p1 == z3.If(e[j] >= e[k], e[j], e[k]),
                p2 == z3.If(e[j] >= e[k], e[k], e[j])))
        E.prove('largest and smallest of the two that remain when the one '
                'closest to zero is removed', z3.Or(*cases))
    return E.explore(body)


class AxisTok(object):
    def __repr__(self):
        return '<axis>'


def absmax(given):
    E = Engine('absmax[axis %s]' % ('given' if given else 'None'))

    def body():
        m, _ = arrays.load(G)
        ax = AxisTok() if given else None
        E.on_refute = None
        f = z3.Function('a', z3.IntSort(), z3.RealSort())
        n = E.fresh(z3.IntSort(), 'n')
        E.assume(n >= 1)
        red = Lead('reduced')
        a = Fib(n, lambda k: f(k), ax, Lead('any'), red)
        ok, r = guarded(E, m.absmax, *([a, ax] if given else [a]))
        if not ok:
            return
        E.cover('returns')
        if not shape(E, r, red, ()):
            return
        v = val(r.inner[()])
        k = E.fresh(z3.IntSort(), 'k')
        h = [k >= 0, k < n]
        E.prove('at least the magnitude of every entry', z3.And(
            z3.Or(v >= f(k), -v >= f(k)), z3.Or(v >= -f(k), -v >= -f(k))), h)
        j = z3.Int('j!entry')
        E.prove('is one of the entries, with its sign', z3.Exists(
            [j], z3.And(j >= 0, j < n, f(j) == v)))
    return E.explore(body)


def tasks():
    from .report import Task
    return [Task('principal2d', principal2d, (3,), replay=again),
            Task('principal2d, more components', principal2d, (5,),
                 replay=again),
            Task('vonmises2d', vonmises2d, (3,), replay=again),
            Task('vonmises2d, more components', vonmises2d, (5,),
                 replay=again),
            Task('principal_thickshell', thickshell, (5,), replay=again),
            Task('absmax, axis', absmax, (True,), replay=again),
            Task('absmax, all axes', absmax, (False,), replay=again)]


def again(ctx, ob):
    """the solver's counterexample on the real function"""
    from checks import c18
    v = (ob.d['info'] or {}).get('stress')
    if v is None:
        return None
    a = np.array(v, float)
    f = c18.check3d if 'thickshell' in ob.name else c18.check2d
    for x in (a, np.stack([a, a[::-1]]), np.stack([a]*4).reshape(
            2, 2, len(a))):
        c18.guarded(ctx, 'counterexample of the verifier', x.tolist(),
                    lambda: f(x))
    return None


def number(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return float(v.as_fraction())
