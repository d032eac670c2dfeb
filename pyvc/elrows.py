"""Contract of get_elementresults (C14): which values, in which rows."""
import numpy as np
import z3
from . import core, vec, stubs, struc, noderes, elres
from .core import Engine, wrap, Cplx, SReal
from .seq import iexpr
from .stubs import run
from .report import Task
from .struc import Z, forall, label
from .vec import NArr
from .noderes import ROW, CASE, NODE, T_

TRUSTED = [
    'get_elementresults uses get_elementnumbers by its contract (C12) and '
    'the function of the element type by its contract (the tasks "element '
    'results, ..."): its values are a function of the stored values of the '
    'element and case',
    'result files: RDRESREF has one row per result case with increasing '
    'internal numbers; the element result records are by case and then by '
    'element (the stored order), at most one per case and element, one for '
    'every beam (RVFORCES) or shell (RVSTRESS) element and case, with the '
    'element type of the element and as many values as the type has',
    'the selected shell elements are all thin or all thick (mixed ones have '
    'no common number of components; documented)']

HAS = z3.Function('element has results', z3.IntSort(), z3.BoolSort())
W_ = z3.Function('length of row', z3.IntSort(), z3.IntSort())
I, R = z3.IntSort(), z3.RealSort()
NP = {15: 2, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
VALS = [z3.Function('result of element type' + q, *([I]*6 + [R]))
        for q in ('', ', imaginary part')]
KIND = {'beamforce': 'beam', 'generalstress': 'shell',
        'decomposedstress': 'shell'}


def pick(t, table, other):
    r = other
    for q, v in table.items():
        r = z3.If(t == q, Z(v), r)
    return r


def tail(restype, thick):
    if restype == 'generalstress':
        return (2, 5 if thick else 3)
    return (8 if thick else 6,) if KIND[restype] == 'shell' else (6,)


def value(restype, cx, start, t, p, ix):
    s, c = (Z(0), ix[0]) if len(ix) == 1 else ix
    t = [z3.simplify(start), t, Z(sorted(KIND).index(restype)), p, s, c]
    return Cplx(*(SReal(v(*t)) for v in VALS)) if cx else SReal(VALS[0](*t))


def setup(E, restype):
    kind = KIND[restype]
    rec, arr = ('rvforces', 'force') if kind == 'beam' else (
        'rvstress', 'stress')
    box = {}
    t = lambda q: wrap(z3.simplify(q))                 # noqa
    ty = lambda r: struc.eltyp(box['s'], NODE(r))      # noqa

    def width(r):
        w = pick(ty(r), {k: n*c for k, (n, c) in elres.NPTS.items()}, W_(r))
        return w*(1 + iexpr(box['ref'].value('icompl', CASE(r))))
    given = {rec: {
        'ires': lambda r: box['ref'].value('ires', CASE(r)),
        'iielno': lambda r: t(NODE(r) + 1),
        'ir': lambda r: wrap(ty(r)),
        arr + '_start': lambda r: wrap(T_(r)),
        arr + '_stop': lambda r: t(T_(r) + width(r))}}
    s = struc.setup(E, given=given, nombqi=True)
    if s is None:
        return None
    box['s'] = s
    ref = s.ref = box['ref'] = s.w.child('rdresref')
    s.rec, s.res = s.w.child(rec), s.w.child('%s_%s' % (rec, arr))
    c, b, r, y, z = z3.Ints('c!r b!r r!r y!r z!r')
    s.ires = lambda c: iexpr(ref.value('ires', c))
    s.cx = lambda c: iexpr(ref.value('icompl', c))
    isc = lambda c: z3.And(c >= 0, c < ref.n)          # noqa
    n0 = len(E.pc)
    isn = lambda y: z3.And(y >= 0, y < s.ne, HAS(y))   # noqa
    E.assume(forall([c, b], z3.Implies(z3.And(isc(c), isc(b)), z3.And(
        (c < b) == (s.ires(c) < s.ires(b)), (c == b) == (
            s.ires(c) == s.ires(b)))), z3.MultiPattern(s.ires(c),
                                                       s.ires(b))))
    E.assume(forall([c], z3.Implies(isc(c), z3.Or(
        s.cx(c) == 0, s.cx(c) == 1)), s.cx(c)))
    s.isrow = lambda r: z3.And(r >= 0, r < s.rec.n)
    E.assume(forall([c, y], z3.Implies(z3.And(isc(c), isn(y)), z3.And(
        s.isrow(ROW(c, y)), CASE(ROW(c, y)) == c, NODE(ROW(c, y)) == y)),
        ROW(c, y)))
    for f in (CASE, NODE):
        E.assume(forall([r], z3.Implies(s.isrow(r), z3.And(
            isc(CASE(r)), isn(NODE(r)), ROW(CASE(r), NODE(r)) == r,
            T_(r) >= 0, W_(r) >= 0, T_(r) + width(r) <= s.res.n)), f(r)))
    E.assume(forall([c, y, b, z], z3.Implies(
        z3.And(isc(c), isc(b), isn(y), isn(z), z3.Or(c < b, z3.And(
            c == b, y < z))), ROW(c, y) < ROW(b, z)), z3.MultiPattern(
                ROW(c, y), ROW(b, z))))
    s.isc, s.isn = isc, isn
    s.facts = E.pc[n0:]
    E.assume(forall([y], z3.Implies(z3.And(
        y >= 0, y < s.ne, struc.kind_pred(s, kind)(y)), HAS(y)), HAS(y)))
    return s


def contracts(E, s, sel, restype, cx, thick):
    kind = KIND[restype]
    types = struc.BEAM if kind == 'beam' else (26, 28) if thick else (24, 25)

    def get_elementnumbers(sets=None, kind=None, numbertype='external'):
        if sets is not sel.kw.get('sets') or kind != KIND[restype]:
            raise core.Unsupported('elements of another selection')
        if numbertype not in ('external', 'internal'):
            raise core.Unsupported('kind of element numbers')
        col = 'elnox' if numbertype == 'external' else 'elno'
        r = struc.over(s, sel.d, lambda e: s.el.value(col, e))
        r.kind = 'int'
        return r

    def process(t, rt, pos, d):
        if rt is not restype or pos != 'nodes':
            raise core.Unsupported('other arguments of the function of the '
                                   'element type')
        if not isinstance(d, NArr) or len(d.dims) != 1:
            raise core.Unsupported('stored values as %s' % type(d).__name__)
        nm = 'the function of the element type is applied to '
        E.prove(nm + 'complex numbers for complex cases only', z3.BoolVal(
            (d.kind == 'c8') == cx))
        q = E.int('q').e
        t = z3.simplify(iexpr(t))
        E.prove(nm + 'a known type', z3.Or([t == k for k in types]))
        E.prove(nm + 'all stored values of the element',
                d.dims[0] == pick(t, {k: elres.NPTS[k][0]*elres.NPTS[k][1]
                                      for k in types}, Z(-1)))
        v = d.f(Z(0))
        v = (v.real if isinstance(v, Cplx) else v).e
        cells = []
        st = [v]
        while st:
            x = st.pop()
            if z3.is_app(x) and x.decl().name() == s.res.name:
                cells.append(x.arg(0))
            else:
                st.extend(x.children())
        if len(cells) != 1:
            raise core.Unsupported('stored values')
        a = z3.simplify(cells[0])
        E.push_level()
        E.assume(z3.And(q >= 0, q < d.dims[0]))
        v = d.f(q)
        E.prove(nm + 'the stored values', z3.And(
            v.real.e == s.res.cell(a + 2*q).e,
            v.imag.e == s.res.cell(a + 2*q + 1).e) if cx and isinstance(
                v, Cplx) else v.e == s.res.cell(a + q).e)
        E.pop_level()
        return NArr((pick(t, {k: NP[k] for k in types}, Z(0)),) +
                    tail(restype, thick), lambda p, *ix: value(
                        restype, cx, a, t, p, ix), None,
                    'c8' if cx else 'num')

    class Types(dict):
        def __getitem__(self, t):
            return lambda rt, pos, d: process(t, rt, pos, d)
        get = __getitem__
    for n, f in (('get_elementnumbers', get_elementnumbers),
                 ('_process_element_results', process),
                 ('_process_eltyp', Types())):
        if hasattr(s.o, n):
            object.__setattr__(s.o, n, f)


def elementresults(restype, form, thick, cases, mixed=False):
    E = Engine('get_elementresults(%s), %s, %scases %s' % (
        restype, label(form, None), '' if thick is None else
        'thick shells, ' if thick else 'thin shells, ', cases),
        timeout=20000)

    def body():
        s = setup(E, restype)
        if s is None:
            return
        sel = struc.Sel(E, s, form, KIND[restype])
        del sel.kw['kind']
        irno = lambda c: iexpr(s.ref.value('irno', c))      # noqa
        ieres = lambda c: iexpr(s.ref.value('ieres', c))    # noqa
        k = dict(sel.kw)
        rno = Z(1)
        if cases != 'default':
            q = E.int('run')
            k['run'], rno = q, q.e
        arg, want = struc.cases_arg(E, cases)
        if cases != 'default':
            k['rescases'] = arg
        cd = vec.unique_dom(lambda c: z3.And(
            s.isc(c), irno(c) == rno, want(ieres(c))))
        E.assume(cd.n > 0)
        i, j, p = E.int('i').e, E.int('j').e, E.int('p').e
        if mixed:
            E.assume(z3.And(i >= 0, i < cd.n, s.cx(cd.at(i)) != s.cx(
                cd.at(Z(0)))))
            contracts(E, s, sel, restype, False, thick)
            r, ex = run(E, s.o.get_elementresults, restype, **k)
            E.cover('mixed')
            E.prove('a mix of real and complex cases is refused',
                    z3.BoolVal(type(ex).__name__ == 'ResultError'))
            return
        cx = E.decide(s.cx(cd.at(Z(0))) == 1)
        q = z3.Int('q!mixed')
        E.assume(forall([q], z3.Implies(z3.And(q >= 0, q < cd.n), s.cx(
            cd.at(q)) == (1 if cx else 0)), cd.at(q)))
        if thick is not None:
            e = z3.Int('e!thick')
            E.assume(forall([e], z3.Implies(sel.d.pred(e), z3.Or([
                struc.eltyp(s, e) == t for t in (
                    (26, 28) if thick else (24, 25))])),
                struc.eltyp(s, e)))
        d, nn, nat = noderes.product(E, s, cd, sel.d)
        contracts(E, s, sel, restype, cx, thick)
        r, ex = run(E, s.o.get_elementresults, restype, **k)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        one = E.decide(cd.n == 1)
        nm = 'the results of the case at the nodes of the element'
        tl = tail(restype, thick)
        E.assume(z3.And(i >= 0, i < cd.n, j >= 0, j < nn))
        el = nat(j)
        ty = struc.eltyp(s, el)
        np_ = pick(ty, NP, Z(0))
        ixs = [E.int('c%d' % q).e for q in range(len(tl))]
        hyp = [p >= 0, p < np_] + [z3.And(x >= 0, x < n)
                                   for x, n in zip(ixs, tl)]
        if not isinstance(r, (vec.Ragged, vec.GridRows)):
            if isinstance(r, NArr):
                E.fail('rows of every element')
            raise core.Unsupported('form of the results: %s'
                                   % type(r).__name__)
        if isinstance(r, vec.GridRows) != (not one) or len(r.tail) != len(
                tl):
            E.fail('documented axes')
            return
        E.prove('documented axes', z3.And([a == b for a, b in zip(
            r.tail, tl)]))
        E.prove('complex numbers for complex cases only', z3.BoolVal(
            (r.kind == 'c8') == cx))
        if one:
            E.prove('every element', r.n == nn)
            E.prove('rows of every element', r.m(j) == np_)
            got = r.f(j, p, *ixs)
        else:
            E.prove('every case', r.c == cd.n)
            E.prove('every element', r.n == nn)
            E.prove('rows of every element', r.m(j) == np_)
            got = r.f(i, j, p, *ixs)
        for h in hyp:
            E.assume(h)
        E.prove_eq(nm, got, value(restype, cx, T_(ROW(cd.at(
            Z(0) if one else i), el)), ty, p, ixs))
    return E.explore(body)


def refused():
    E = Engine('get_elementresults, other types', timeout=20000)

    def body():
        s = setup(E, 'beamforce')
        if s is None:
            return
        for n in ('', 'displacement', 'beamforces', 'stress'):
            r, ex = run(E, s.o.get_elementresults, n)
            E.prove('refused', z3.BoolVal(isinstance(ex, ValueError)))
        E.cover('end')
    return E.explore(body)


def tasks(quick=False):
    out = [Task('get_elementresults, other types', refused, ())]

    def add(t, f, th, c, mx=False):
        out.append(Task('get_elementresults(%s), %s, %scases %s%s' % (
            t, label(f, None), '' if th is None else 'thick, ' if th else
            'thin, ', c, ', mixed' if mx else ''), elementresults,
            (t, f, th, c, mx)))
    for t, th in (('beamforce', None), ('generalstress', False), (
            'generalstress', True), ('decomposedstress', False), (
                'decomposedstress', True)):
        add(t, 'none', th, 'default')
    for f in ('str', 'list3') if quick else ('str', 'tuple2', 'list3'):
        add('beamforce', f, None, 'default')
        if not quick:
            add('generalstress', f, True, 'default')
    for c in ('int', 'list') if quick else struc.CASES[1:]:
        add('decomposedstress', 'none', False, c)
    add('beamforce', 'none', None, 'default', True)
    add('generalstress', 'str', False, 'list', True)
    return out
