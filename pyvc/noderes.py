"""Contracts of get_noderesults (C13)."""
import numpy as np
import z3
from . import core, vec, stubs, struc
from .core import Engine, wrap, arith, Cplx
from .seq import iexpr
from .stubs import run
from .report import Task
from .struc import Z, forall, same, label, Sel
from .vec import NArr, CArr

TRUSTED = struc.TRUSTED + [
    'result files: RDRESREF has one row per result case with increasing '
    'internal numbers; the node result records are one per result case and '
    'node, by case in that order and then by node (the stored order), each '
    'with six components (real, or pairs for a complex case)',
    'the ascending enumeration of a finite set of integers is its only '
    'ascending sequence that reaches every member (used with the five '
    'proved lemmas: the rows of chosen cases and nodes, by case and node, '
    'are such a sequence)',
    'get_noderesults uses get_nodenumbers and _get_nodeindices by their '
    'contract (C11)']

ROW = z3.Function('row of case and node', z3.IntSort(), z3.IntSort(),
                  z3.IntSort())
CASE = z3.Function('case of row', z3.IntSort(), z3.IntSort())
NODE = z3.Function('node of row', z3.IntSort(), z3.IntSort())
T_ = z3.Function('start of row', z3.IntSort(), z3.IntSort())
TYPES = {'displacement': ('rvnoddis', 'dis'), 'velocity': (
    'rvnodvel', 'vel'), 'acceleration': ('rvnodacc', 'acc')}


def results(E, restype):
    """the data object with arbitrary node results of one type"""
    rec, arr = TYPES[restype]
    t = lambda q: wrap(z3.simplify(q))                 # noqa
    box = {}

    def width(r):
        return 6 + 6*iexpr(box['ref'].value('icompl', CASE(r)))
    given = {rec: {
        'ires': lambda r: box['ref'].value('ires', CASE(r)),
        'iinod': lambda r: t(NODE(r) + 1),
        arr + '_start': lambda r: wrap(T_(r)),
        arr + '_stop': lambda r: t(T_(r) + width(r))}}
    s = struc.setup(E, given=given, nombqi=True)
    if s is None:
        return None
    ref = s.ref = box['ref'] = s.w.child('rdresref')
    s.rec, s.res = s.w.child(rec), s.w.child('%s_%s' % (rec, arr))
    c, b, r, y, z = z3.Ints('c!r b!r r!r y!r z!r')
    s.ires = lambda c: iexpr(ref.value('ires', c))
    s.cx = lambda c: iexpr(ref.value('icompl', c))
    isc = lambda c: z3.And(c >= 0, c < ref.n)          # noqa
    n0 = len(E.pc)
    isn = lambda y: z3.And(y >= 0, y < s.nn)           # noqa
    E.assume(forall([c, b], z3.Implies(z3.And(isc(c), isc(b)), z3.And(
        (c < b) == (s.ires(c) < s.ires(b)), (c == b) == (
            s.ires(c) == s.ires(b)))), z3.MultiPattern(s.ires(c),
                                                       s.ires(b))))
    E.assume(forall([c], z3.Implies(isc(c), z3.Or(
        s.cx(c) == 0, s.cx(c) == 1)), s.cx(c)))
    s.isrow = lambda r: z3.And(r >= 0, r < s.rec.n)
    E.assume(forall([c, y], z3.Implies(z3.And(isc(c), isn(y)), z3.And(
        s.isrow(ROW(c, y)), CASE(ROW(c, y)) == c, NODE(ROW(c, y)) == y)),
        ROW(c, y)))
    for f in (CASE, NODE):
        E.assume(forall([r], z3.Implies(s.isrow(r), z3.And(
            isc(CASE(r)), isn(NODE(r)), ROW(CASE(r), NODE(r)) == r,
            T_(r) >= 0, T_(r) + width(r) <= s.res.n)), f(r)))
    E.assume(forall([c, y, b, z], z3.Implies(
        z3.And(isc(c), isc(b), isn(y), isn(z), z3.Or(c < b, z3.And(
            c == b, y < z))), ROW(c, y) < ROW(b, z)), z3.MultiPattern(
                ROW(c, y), ROW(b, z))))
    s.isc, s.isn = isc, isn
    s.facts = E.pc[n0:]
    return s


class Enum(object):
    """a set of integers and its ascending enumeration"""

    def __init__(self, pred, at, rank, n):
        self.pred, self.at, self.rank, self.n = pred, at, rank, n


def enum(name):
    """an arbitrary one, and the definition of the enumeration"""
    I, B = z3.IntSort(), z3.BoolSort()
    p, at, rank = z3.Function(name, I, B), z3.Function(
        name + '.at', I, I), z3.Function(name + '.rank', I, I)
    n = z3.Int(name + '.n')
    k, j = z3.Ints('k!en j!en')
    ok = lambda k: z3.And(k >= 0, k < n)               # noqa
    return Enum(p, at, rank, n), [
        forall([k], z3.Implies(ok(k), z3.And(p(at(k)), rank(at(k)) == k)),
               at(k)),
        forall([k], z3.Implies(p(k), z3.And(ok(rank(k)), at(rank(k)) == k)),
               rank(k)),
        forall([k, j], z3.Implies(z3.And(ok(k), ok(j), k < j), at(k) < at(j)),
               z3.MultiPattern(at(k), at(j)))]


def chosen(s, C, N):
    c = z3.Int('c!p')
    return lambda r: z3.And(s.isrow(r), N.pred(NODE(r)), z3.Exists(
        [c], z3.And(C.pred(c), s.ires(c) == s.ires(CASE(r)))))


def product_lemma(E, s):
    """The ascending enumeration of a finite set of integers is unique: an
    ascending sequence of members that reaches every member is it. That
    ROW(case i, node j), by i and then by j, is one for the rows of any
    chosen cases and nodes is proved."""
    C, fc = enum('cases')
    N, fn = enum('nodes')
    i, j, k, m, r, a, x, y = z3.Ints('i j k m r a x y')
    h = s.facts + fc + fn + [
        forall([x], z3.Implies(C.pred(x), s.isc(x)), C.pred(x)),
        forall([x], z3.Implies(N.pred(x), s.isn(x)), N.pred(x))]
    P = chosen(s, C, N)
    g = lambda i, j: ROW(C.at(i), N.at(j))             # noqa
    ok = lambda i, j: z3.And(i >= 0, i < C.n, j >= 0, j < N.n)   # noqa
    w = z3.And(C.pred(C.at(i)), s.ires(C.at(i)) == s.ires(CASE(g(i, j))))
    E.prove_from('rows of the chosen cases and nodes are chosen',
                 h + [ok(i, j)], z3.And(s.isrow(g(i, j)), N.pred(
                     NODE(g(i, j))), w))
    E.prove_from('rows ascend by case, then by node', h + [
        ok(i, j), ok(k, m), z3.Or(i < k, z3.And(i == k, j < m))],
        g(i, j) < g(k, m))
    one = [s.isrow(r), N.pred(NODE(r)), C.pred(a),
           s.ires(a) == s.ires(CASE(r))]
    E.prove_from('the case of a chosen row is chosen', h + one,
                 a == CASE(r))
    x, y = C.rank(CASE(r)), N.rank(NODE(r))
    E.prove_from('every chosen row is one of them', h + one + [
        a == CASE(r)], z3.And(ok(x, y), g(x, y) == r))
    E.prove_from('different cases have different numbers', h + [
        C.pred(k), C.pred(m), s.ires(k) == s.ires(m)], k == m)


def product(E, s, cd, nd):
    """(rows of the chosen cases and nodes, number of nodes, j-th node)"""
    N = Enum(s.isn, lambda j: j, lambda y: y, s.nn) if nd is None else \
        Enum(nd.pred, nd.at, nd.RANK, nd.n)
    C = Enum(cd.pred, cd.at, cd.RANK, cd.n)
    P = chosen(s, C, N)
    d = vec.unique_dom(P)

    def g(i, j, raw=False):
        return ROW(C.at(i), j if raw else N.at(j))
    E.assume(d.n == C.n*N.n)
    E.assume(z3.Implies(C.n == 1, d.n == N.n))
    E.assume(z3.And(N.n > 0, d.n > 0))       # elements have nodes
    E.products = [(d.n, C.n, N.n)]
    j, r, c = z3.Ints('j!pr r!pr c!p')
    at0 = d.at(j)
    E.assume(forall([j], z3.Implies(z3.And(
        C.n == 1, j >= 0, j < N.n), at0 == g(Z(0), j)), at0))
    if nd is not None:
        y = z3.Int('y!pr')
        at1 = d.at(N.rank(y))
        E.assume(forall([y], z3.Implies(z3.And(C.n == 1, N.pred(y)), z3.And(
            at1 == g(Z(0), y, raw=True), N.rank(y) >= 0, N.rank(y) < N.n)), at1))
    d.grid = (C.n, N.n, g)
    E.assume(forall([r], z3.Implies(P(r), z3.And(
        C.pred(CASE(r)), C.at(C.rank(CASE(r))) == CASE(r),
        C.rank(CASE(r)) >= 0, C.rank(CASE(r)) < C.n)), CASE(r)))
    e = vec.unique_dom(lambda v: z3.Exists([c], z3.And(
        C.pred(c), s.ires(c) == v)))
    E.assume(e.n == C.n)        # as many different numbers as cases
    return d, N.n, N.at


def contracts(s, sel):
    """the node numbers of the selection, as C11 proves of them"""
    def common(sets, kind):
        if sets is not sel.kw.get('sets') or kind != sel.kw.get('kind'):
            raise core.Unsupported('nodes of another selection')

    def get_nodenumbers(sets=None, kind=None, disconnected=False,
                        numbertype='external'):
        common(sets, kind)
        if numbertype not in ('external', 'internal') or disconnected:
            raise core.Unsupported('kind of node numbers')
        col = 'nodex' if numbertype == 'external' else 'nodeno'
        r = sel.nodes(lambda y: s.gnode.value(col, y))
        r.kind = 'int'
        return r

    def _get_nodeindices(sets=None, kind=None, disconnected=False):
        common(sets, kind)
        if disconnected:
            return sel.flat.copy()
        r = sel.nodes(lambda y: wrap(y))
        r.kind = 'int'
        return r
    for f in (get_nodenumbers, _get_nodeindices):
        if hasattr(s.o, f.__name__):
            object.__setattr__(s.o, f.__name__, f)


def lemmas():
    E = Engine('node results of cases and nodes', timeout=20000)

    def body():
        s = results(E, 'displacement')
        if s is not None:
            E.cover('lemmas')
            product_lemma(E, s)
    return E.explore(body)


def noderesults(restype, form, kind, cases, dis):
    E = Engine('get_noderesults(%s), %s, cases %s%s' % (
        restype, label(form, kind), cases, ', disconnected' if dis else ''),
        timeout=20000)

    def body():
        s = results(E, restype)
        if s is None:
            return
        sel = Sel(E, s, form, kind)
        irno = lambda c: iexpr(s.ref.value('irno', c))      # noqa
        ieres = lambda c: iexpr(s.ref.value('ieres', c))    # noqa
        k = dict(sel.kw)
        rno = Z(1)
        if cases != 'default':
            q = E.int('run')
            k['run'], rno = q, q.e
        arg, want = struc.cases_arg(E, cases)
        if cases != 'default':
            k['rescases'] = arg
        if dis:
            k['disconnected'] = True
        cd = vec.unique_dom(lambda c: z3.And(
            s.isc(c), irno(c) == rno, want(ieres(c))))
        E.assume(cd.n > 0)
        E.assume(s.nn > 0)
        d, nn, nat = product(E, s, cd, sel.nd)
        contracts(s, sel)
        r, ex = run(E, s.o.get_noderesults, restype, **k)
        i, j = E.int('i').e, E.int('j').e
        if ex is not None:
            q = z3.Int('q!mixed')
            E.prove('refused with an error of the result data',
                    z3.BoolVal(type(ex).__name__ == 'ResultError'))
            E.assume(forall([q], z3.Implies(z3.And(
                q >= 0, q < cd.n), s.cx(cd.at(q)) == s.cx(cd.at(Z(0)))),
                cd.at(q)))
            E.fail('refused only for a mix of real and complex cases')
            return
        E.cover('returns')
        E.assume(z3.And(i >= 0, i < cd.n))
        E.prove('not returned for a mix of real and complex cases',
                s.cx(cd.at(i)) == s.cx(cd.at(Z(0))))
        cx = E.decide(s.cx(cd.at(Z(0))) == 1)
        if not isinstance(r, (NArr, CArr, vec.CRows, vec.CArr1)):
            raise core.Unsupported('form of the results: %s' % type(r).__name__)
        E.prove('complex numbers for complex cases only',
                z3.BoolVal((r.kind == 'c8') == cx))
        one = E.decide(cd.n == 1)

        def value(i, y, c):
            t = T_(ROW(cd.at(i), y))
            v = lambda p: s.res.cell(z3.simplify(p))        # noqa
            return Cplx(v(t + 2*c), v(t + 2*c + 1)) if cx else v(t + c)
        check(E, s, sel, r, value, cd, nn, nat, one, dis)
    return E.explore(body)


def check(E, s, sel, r, value, cd, nn, nat, one, dis):
    nm = 'the stored result of the case at the node'
    c = z3.Int('c!comp')
    if not dis:
        dims = (nn, Z(6)) if one else (cd.n, nn, Z(6))
        if len(r.dims) != len(dims):
            E.fail(nm, '%d axes' % len(r.dims))
            return
        if one:
            same(E, nm, r, NArr(dims, lambda j, c: value(Z(0), nat(j), c)))
        else:
            same(E, nm, r, NArr(dims, lambda i, j, c: value(i, nat(j), c)))
        return
    if one:
        for q in range(6):
            col = columns(E, r, q, None)
            same(E, nm, col, sel.nodes(lambda y: value(Z(0), y, Z(q)), (),
                                       True))
        return
    i = E.int('case').e
    E.assume(z3.And(i >= 0, i < cd.n))
    for q in range(6):
        col = columns(E, r, q, i)
        same(E, nm, col, sel.nodes(lambda y: value(i, y, Z(q)), (), True))


def columns(E, r, q, i):
    """component q (of case i) of results at disconnected nodes"""
    nm = 'six components per node'
    if isinstance(r, vec.CRows) and i is None:
        if r.c != 6:
            E.fail(nm, '%d' % r.c)
        row = r.row
        return CArr(r.n, r.m, lambda k, j: row(k, j)[q], r.dom)
    if isinstance(r, CArr) and i is None:
        k, j = E.int('k').e, E.int('j').e
        E.push_level()
        E.assume(z3.And(k >= 0, k < r.n, j >= 0, j < r.m(k)))
        row = r.v(k, j)
        E.pop_level()
        if isinstance(row, (np.ndarray, list)):
            if np.shape(row) != (6,):
                E.fail(nm, '%s' % (np.shape(row),))
            return r.map(lambda v: v[q])
        if not isinstance(row, NArr) or len(row.dims) != 1:
            raise core.Unsupported('form of the results: %s' % type(r).__name__)
        E.prove(nm, row.dims[0] == 6)
        return r.map(lambda v: v.f(Z(q)))
    if isinstance(r, vec.CArr1) and i is not None:
        E.prove(nm, r.a.dims[2] == 6)
        ix, f = r.idx, r.a.f
        return CArr(ix.n, ix.m, lambda k, j: f(i, iexpr(ix.v(k, j)), Z(q)),
                    ix.dom)
    if not isinstance(r, NArr):
        raise core.Unsupported('form of the results: %s' % type(r).__name__)
    if len(r.dims) != (2 if i is None else 3):
        E.fail(nm, '%d axes' % len(r.dims))
        return NArr((Z(0),), lambda k: 0)
    E.prove(nm, r.dims[-1] == 6)
    f = r.f
    if i is None:
        return NArr((r.dims[0],), lambda k: f(k, Z(q)), r.dom)
    return NArr((r.dims[1],), lambda k: f(i, k, Z(q)))


def tasks():
    out = [Task('lemmas', lemmas, ())]
    for t in TYPES:
        out.append(Task('get_noderesults(%s)' % t, noderesults,
                        (t, 'none', None, 'default', False)))
    for f, k in (('none', 'beam'), ('str', None), ('str', 'shell'), (
            'tuple2', None)):
        out.append(Task('get_noderesults, %s' % label(f, k), noderesults,
                        ('displacement', f, k, 'default', False)))
    for c in struc.CASES[1:]:
        out.append(Task('get_noderesults, cases %s' % c, noderesults,
                        ('velocity', 'none', None, c, False)))
    for f, k in (('none', None), ('none', 'shell'), ('str', 'beam'), (
            'tuple2', None)):
        out.append(Task('get_noderesults, %s, disconnected' % label(f, k),
                        noderesults, ('acceleration', f, k, 'default',
                                      True)))
    return out
