"""Contracts of the structural data functions (C11, C12, C13, C14, C21).

Assumed of the stored data (what C03/C04 prove of a conversion, for a model
file as Sesam writes it): internal element and node numbers are the row
numbers from 1, GELREF1 has one row per element, the node lists follow each
other in the companion array, set members and nodes are existing elements and
nodes."""
import z3
import numpy as np
from . import core, vec, stubs, seq
from .core import Engine, wrap, arith, truth
from .vec import NArr, CArr, RArr, Row, Dom1, VSet
from .seq import iexpr
from .report import Task
from .stubs import World, Other, run

FILE = 'freesif/data/strucdata.py'
TRUSTED = stubs.TRUSTED + [
    'structural model files: internal element and node numbers are the row '
    'numbers from 1, GELREF1 has one row per element in the same order, the '
    'node lists of the elements follow each other in the companion array '
    '(C04), set members and element nodes are existing elements and nodes']
BEAM, SHELL = (15, 23), (24, 25, 26, 28)
Z = z3.IntVal
S_ = z3.Function('gelmnt1.S', z3.IntSort(), z3.IntSort())


class S(object):
    pass


def forall(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else \
        z3.ForAll(vs, body)


def setup(E, absent=(), given=None, nombqi=False, top=None, **attrs):
    """instance of FirstLevelData on arbitrary records"""
    E.fast, E.nombqi = 1000, nombqi
    m = stubs.load(FILE)
    one = lambda i: wrap(z3.simplify(i + 1))           # noqa
    w = World(absent, given=dict(given or {}, **{
        'gelmnt1': {'elno': one, 'nodin_start': lambda i: wrap(S_(i)),
                    'nodin_stop': lambda i: wrap(S_(z3.simplify(i + 1)))},
        'gnode': {'nodeno': one}, 'gelref1': {'elno': one}}))
    g = w.group(**attrs)
    s = S()
    s.m, s.w, s.g = m, w, g
    s.el = w.child('gelmnt1')
    s.ne = s.el.n
    k, j = z3.Ints('k!m j!m')
    if s.el is not None:
        s.nodin = w.child('gelmnt1_nodin')
        E.assume(S_(Z(0)) == 0)
        E.assume(forall([k], z3.Implies(z3.And(k >= 0, k <= s.ne), z3.And(
            S_(k) >= 0, S_(k) <= s.nodin.n)), S_(k)))
        E.assume(forall([k, j], z3.Implies(z3.And(
            k >= 0, k <= j, j <= s.ne), S_(k) <= S_(j)), z3.MultiPattern(
                S_(k), S_(j))))
        E.assume(S_(s.ne) == s.nodin.n)
        s.gnode, s.gcoord = w.child('gnode'), w.child('gcoord')
        s.nn = s.gnode.n
        E.assume(s.gcoord.n == s.nn)
        v = arith(s.nodin.cell(k))
        E.assume(forall([k], z3.Implies(z3.And(k >= 0, k < s.nodin.n),
                                        z3.And(v >= 1, v <= s.nn)), v))
        s.gelref = w.child('gelref1')
        if s.gelref is not None:
            E.assume(s.gelref.n == s.ne)
    t = s.sets = w.child('gsetmemb')
    if t is not None:
        a = s.memb = w.child('gsetmemb_irmemb')
        b, e = [arith(t.value('irmemb_' + q, k)) for q in ('start', 'stop')]
        E.assume(forall([k], z3.Implies(z3.And(k >= 0, k < t.n), z3.And(
            b >= 0, b <= e, e <= a.n)), b))
        u = arith(a.cell(j))
        E.assume(forall([k, j], z3.Implies(z3.And(
            k >= 0, k < t.n, arith(t.value('istype', k)) == 2, b <= j,
            j < e), z3.And(u >= 1, u <= s.ne)), z3.MultiPattern(b, u)))
    o, ex = run(E, m.FirstLevelData, g, None, *(() if top is None else
                                                (top,)))
    if ex is not None:
        E.fail('opening returns', repr(ex))
        return None
    s.o = o
    return s


def first_row(E, t, p):
    """first row of t with p (it exists)"""
    k0 = E.int('k0').e
    j = z3.Int('j!first')
    E.assume(z3.And(k0 >= 0, k0 < t.n, p(k0)))
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k0),
                                       z3.Not(p(j)))))
    return k0


def name_arg(E):
    c = E.int('name')
    return vec.SName(c.e), c.e


def set_pred(E, s, code, istype=2):
    """(elements of the set with this name, e + 1 for element e)"""
    t = s.w.child('tdsetnam')
    k0 = first_row(E, t, lambda k: t.cell('name', k, (), 'S').e == code)
    idno = iexpr(t.value('idno', k0))
    r, q = z3.Ints('r!set q!set')
    a, g = s.memb, s.sets

    def p(e):
        return z3.Exists([r, q], z3.And(
            r >= 0, r < g.n, iexpr(g.value('isref', r)) == idno,
            iexpr(g.value('istype', r)) == istype,
            q >= 0, q < iexpr(g.value('irmemb_stop', r)) - iexpr(
                g.value('irmemb_start', r)),
            iexpr(a.cell(z3.simplify(iexpr(g.value(
                'irmemb_start', r)) + q))) == e + 1))
    return p


def eltyp(s, e):
    return iexpr(s.el.value('eltyp', e))


def kind_pred(s, kind):
    if kind is None:
        return lambda e: z3.BoolVal(True)
    return lambda e: z3.Or([eltyp(s, e) == v for v in (
        BEAM if kind == 'beam' else SHELL)])


FORMS = ('none', 'str', 'list1', 'tuple2', 'list3')
KINDS = (None, 'beam', 'shell')


def sets_arg(E, s, form):
    """(argument, predicate of the elements in the sets)"""
    if form == 'none':
        return None, None
    n = {'str': 1, 'list1': 1, 'tuple2': 2, 'list3': 3}[form]
    av, ps = [], []
    for j in range(n):
        a, c = name_arg(E)
        av.append(a)
        ps.append(set_pred(E, s, c))
    arg = av[0] if form == 'str' else tuple(av) if form.startswith('t') \
        else av
    return arg, lambda e: z3.Or([p(e) for p in ps])


def selection(E, s, form, kind):
    """(argument for sets, Dom of the selected elements)"""
    arg, p = sets_arg(E, s, form)
    kp = kind_pred(s, kind)
    if arg is None and kind is None:
        d = None
    else:
        d = vec.unique_dom(lambda e: z3.And(kp(e), p(e)) if p else z3.And(
            e >= 0, e < s.ne, kp(e)))
        E.assume(d.n > 0)
    if p:
        x = E.int('e').e
        E.assume(z3.And(x >= 0, x < s.ne, p(x)))
    return arg, d


def over(s, d, f, tail=()):
    """the f(element) of the selected elements, in order"""
    n = s.ne if d is None else d.n
    at = (lambda k: k) if d is None else d.at
    return NArr((n,) + tail, lambda k, *ix: f(at(k), *ix), d)


def same(E, name, got, want):
    if isinstance(got, (vec.Blocks,)) and len(got.dims) != len(want.dims):
        E.fail(name, '%d axes' % len(got.dims))
        return
    if not isinstance(got, (NArr, CArr, np.ndarray, Dom1, RArr)):
        E.fail(name, 'result is %s' % type(got).__name__)
        return
    if isinstance(got, Dom1):
        got = got.arr()
    if isinstance(got, NArr) and len(got.dims) != len(want.dims):
        E.fail(name, '%d axes' % len(got.dims))
        return
    E.prove_eq(name, got, want)


def label(form, kind):
    return 'sets %s, kind %s' % (form, kind)


# ---- C12 -------------------------------------------------------------------


def numbers(form, kind):
    E = Engine('FirstLevelData.get_elementnumbers, ' + label(form, kind),
               timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        arg, d = selection(E, s, form, kind)
        kw = {}
        if form != 'none':
            kw['sets'] = arg
        if kind:
            kw['kind'] = kind
        for nt, col in ((None, 'elnox'), ('external', 'elnox'),
                        ('internal', 'elno')):
            k = dict(kw)
            if nt:
                k['numbertype'] = nt
            r, ex = run(E, s.o.get_elementnumbers, **k)
            if ex is not None:
                E.fail('returns', repr(ex))
                return
            E.cover('returns')
            same(E, 'the %s numbers of the selected elements in model order'
                 % (nt or 'external'), r, over(
                     s, d, lambda e: s.el.value(col, e)))
    return E.explore(body)


def types(form, kind):
    E = Engine('FirstLevelData.get_elements: types, ' + label(form, kind),
               timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        arg, d = selection(E, s, form, kind)
        for dis in (False, True):
            r, ex = run(E, s.o.get_elements, sets=arg, kind=kind,
                        disconnected=dis)
            if ex is not None:
                E.fail('returns', repr(ex))
                return
            E.cover('returns')
            same(E, 'the types of the selected elements in model order',
                 r[2], over(s, d, lambda e: s.el.value('eltyp', e)))
    return E.explore(body)


def unknown_name(E, s):
    a, c = name_arg(E)
    t = s.w.child('tdsetnam')
    j = z3.Int('j!unknown')
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < t.n), t.cell(
        'name', j, (), 'S').e != c)))
    return a


def refused(E, name, f, *a, **k):
    r, ex = run(E, f, *a, **k)
    if ex is None:
        E.fail(name)
    else:
        E.prove(name, z3.BoolVal(True))


SELECT = ('get_nodes', 'get_nodenumbers', 'get_elements',
          'get_elementnumbers', 'get_section_properties',
          'get_shell_thicknesses')


def unknown(fn):
    E = Engine('FirstLevelData.%s, arguments that are refused' % fn,
               timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        E.cover('opens')
        f = getattr(s.o, fn)
        u = unknown_name(E, s)
        a, c = name_arg(E)
        p = set_pred(E, s, c)
        x = E.int('e').e
        E.assume(z3.And(x >= 0, x < s.ne, p(x)))
        case = E.concretize(E.int('case').e % 4)
        if case == 0:
            refused(E, 'unknown set', f, sets=u)
            refused(E, 'unknown set in a list', f, sets=[u])
        elif case == 1:
            refused(E, 'unknown set after a known one', f, sets=(a, u))
        elif case == 2:
            refused(E, 'unknown set before a known one', f, sets=[u, a])
        elif fn in SELECT[:4]:
            for k in (Other(), 'beams', 'Shell', 'x'):
                refused(E, 'unknown kind', f, kind=k)
                refused(E, 'unknown kind with a set', f, sets=a, kind=k)
            if fn in ('get_nodenumbers', 'get_elementnumbers'):
                for k in (Other(), 'Internal', '', None, 'x'):
                    refused(E, 'unknown number type', f, numbertype=k)
                    refused(E, 'unknown number type with a set', f, sets=a,
                            numbertype=k)
        else:
            E.prove('no more arguments', z3.BoolVal(True))
    return E.explore(body)


# ---- C21 -------------------------------------------------------------------


PROPS = {'get_section_properties': ('gbeamg', 'beam'),
         'get_shell_thicknesses': ('gelth', 'shell')}


def properties(fn, form):
    rec, kind = PROPS[fn]
    E = Engine('FirstLevelData.%s, sets %s' % (fn, form), timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        t = s.w.child(rec)
        arg, d = selection(E, s, form, kind)
        # each geometry number is stored once; those of the elements exist
        P = z3.Function('row of ' + rec, z3.IntSort(), z3.IntSort())
        k = z3.Int('k!geo')
        num = lambda i: iexpr(t.value('geono', i))        # noqa
        geo = lambda e: iexpr(s.gelref.value('geono', e))  # noqa
        E.assume(forall([k], z3.Implies(z3.And(k >= 0, k < t.n), P(
            num(k)) == k), num(k)))
        E.assume(forall([k], z3.Implies(z3.And(
            k >= 0, k < s.ne, kind_pred(s, kind)(k)), z3.And(
                P(geo(k)) >= 0, P(geo(k)) < t.n,
                num(P(geo(k))) == geo(k))), geo(k)))
        a = {} if form == 'none' else {'sets': arg}
        for again in ('', ' again'):
            r, ex = run(E, getattr(s.o, fn), **a)
            if ex is not None:
                E.fail('returns', repr(ex))
                return
            E.cover('returns')
            if rec == 'gelth':
                same(E, 'the thickness of the i-th selected shell' + again,
                     r, over(s, d, lambda e: t.value('th', P(geo(e)))))
            else:
                if not isinstance(r, RArr):
                    raise core.Unsupported('form of the sections')
                same(E, 'the section of the i-th selected beam' + again, r,
                     RArr(d.n, lambda i: Row(t, P(geo(d.at(i)))), d, t))
    return E.explore(body)


def rescase_names(form):
    E = Engine('FirstLevelData.get_resultcase_names(%s)' % form,
               timeout=20000)
    E.fast = 1000

    def body():
        s = setup(E)
        if s is None:
            return
        t = s.w.child('tdload')
        k = z3.Int('k!load')
        P = z3.Function('row of load', z3.IntSort(), z3.IntSort())
        num = lambda i: iexpr(t.value('idno', i))        # noqa
        E.assume(forall([k], z3.Implies(z3.And(k >= 0, k < t.n), P(
            num(k)) == k), num(k)))
        arg, want = cases_arg(E, form)
        a = [] if form == 'default' else [arg]
        r, ex = run(E, s.o.get_resultcase_names, *a)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        if not isinstance(r, vec.VDict):
            raise core.Unsupported('form of the names')
        x = E.int('id').e
        asked = want(x)
        stored = z3.Exists([k], z3.And(k >= 0, k < t.n, num(k) == x))
        E.prove('a name for the requested stored case numbers only',
                r.set.pred(x) == z3.And(asked, stored))
        i = E.int('i').e
        E.assume(z3.And(i >= 0, i < t.n, want(num(i))))
        v, ex = run(E, lambda: r[wrap(num(i))])
        if ex is not None:
            E.fail('each requested case has a name', repr(ex))
            return
        E.prove_eq('each case number has its own name', v,
                   t.value('name', i))
    return E.explore(body)


CASES = ('default', 'None', 'int', 'list1', 'tuple2', 'array', 'list')


def cases_arg(E, form):
    """(argument for result cases, predicate of the case numbers)"""
    if form in ('default', 'None'):
        return None, lambda x: z3.BoolVal(True)
    if form in ('int', 'list1', 'tuple2'):
        n = 2 if form == 'tuple2' else 1
        v = [E.int('case') for _ in range(n)]
        arg = v[0] if form == 'int' else v if form == 'list1' else tuple(v)
        return arg, lambda x: z3.Or([x == c.e for c in v])
    n = E.int('ncases').e
    E.assume(n >= 0)
    f = z3.Function('cases', z3.IntSort(), z3.IntSort())
    a = NArr((n,), lambda i: wrap(f(i)), None, 'int')
    q = z3.Int('q!case')
    if form == 'list':
        a = seq.SList(seq.Seq('list', (seq.Map(n, lambda i: wrap(f(i))),)))
    return a, lambda x: z3.Exists([q], z3.And(q >= 0, q < n, f(q) == x))


# ---- C11 -------------------------------------------------------------------


class Sel(object):
    """a selection: argument, elements, element nodes, nodes"""

    def __init__(self, E, s, form, kind):
        self.arg, self.d = selection(E, s, form, kind)
        self.kw = {}
        if form != 'none':
            self.kw['sets'] = self.arg
        if kind:
            self.kw['kind'] = kind
        self.s, d = s, self.d
        node = lambda e, j: z3.simplify(arith(s.nodin.cell(    # noqa
            z3.simplify(S_(e) + j))) - 1)
        if d is None:
            self.nd = None
            self.m = lambda k: S_(k + 1) - S_(k)
            self.flat = NArr((s.nodin.n,), lambda q: wrap(z3.simplify(
                arith(s.nodin.cell(q)) - 1)), None, 'int')
            self.n, self.node = s.ne, node
            return
        e, j = z3.Ints('e!nd j!nd')
        self.n = d.n
        self.m = lambda k: z3.simplify(S_(z3.simplify(d.at(k) + 1)) -
                                       S_(d.at(k)))
        self.flat = CArr(d.n, self.m, lambda k, q: wrap(node(d.at(k), q)),
                         d, 'int')
        self.nd = vec.unique_dom(lambda y: z3.Exists([e, j], z3.And(
            d.pred(e), j >= 0, j < S_(e + 1) - S_(e), node(e, j) == y)))

    def nodes(self, f, tail=(), dis=False):
        """f(node) of the nodes of the selection"""
        if dis:
            a = self.flat
            if tail:
                raise core.Unsupported('nodes')
            return a.map(lambda v: f(iexpr(v)), 'num') if isinstance(
                a, CArr) else NArr(a.dims, lambda q: f(iexpr(a.f(q))))
        return over_nodes(self, f, tail)


def over_nodes(sel, f, tail):
    s, d = sel.s, sel.nd
    n = s.nn if d is None else d.n
    at = (lambda k: k) if d is None else d.at
    return NArr((n,) + tail, lambda k, *ix: f(at(k), *ix), d)


def nodenumbers(form, kind, dis):
    E = Engine('FirstLevelData.get_nodenumbers, %s%s' % (
        label(form, kind), ', disconnected' if dis else ''), timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        sel = Sel(E, s, form, kind)
        for nt, col in ((None, 'nodex'), ('internal', 'nodeno')):
            k = dict(sel.kw)
            if nt:
                k['numbertype'] = nt
            if dis:
                k['disconnected'] = True
            r, ex = run(E, s.o.get_nodenumbers, **k)
            if ex is not None:
                E.fail('returns', repr(ex))
                return
            E.cover('returns')
            same(E, 'the %s numbers of the nodes of the selection' % (
                nt or 'external'), r, sel.nodes(
                    lambda y: s.gnode.value(col, y), (), dis))
    return E.explore(body)


COORD = ('xcoord', 'ycoord', 'zcoord')


def coordinates(form, kind, dis):
    E = Engine('FirstLevelData.get_nodes, %s%s' % (
        label(form, kind), ', disconnected' if dis else ''), timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        sel = Sel(E, s, form, kind)
        k = dict(sel.kw)
        if dis:
            k['disconnected'] = True
        r, ex = run(E, s.o.get_nodes, **k)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        check_coords(E, s, sel, dis, r, lambda v: v)
    return E.explore(body)


def columns(E, r, n=3):
    """the columns of an (.., n) array, or None"""
    if isinstance(r, vec.CRows):
        if r.c != n:
            E.fail('three coordinates per node', '%d' % r.c)
            return None
        row = r.row
        return [CArr(r.n, r.m, lambda k, j, c=c: row(k, j)[c], r.dom)
                for c in range(n)]
    if not isinstance(r, NArr) or len(r.dims) != 2:
        raise core.Unsupported('form of the coordinates')
    E.prove('three coordinates per node', r.dims[1] == n)
    f = r.f
    return [NArr((r.dims[0],), lambda i, c=c: f(i, Z(c)), r.dom)
            for c in range(n)]


def check_coords(E, s, sel, dis, r, trans):
    cols = columns(E, r)
    if cols is None:
        return

    def co(y, c):
        return trans([s.gcoord.value(q, y) for q in COORD])[c]
    for c in range(3):
        same(E, '%s of the nodes of the selection' % COORD[c], cols[c],
             sel.nodes(lambda y: co(y, c), (), dis))


def connectivity(form, kind):
    E = Engine('FirstLevelData.get_elements, ' + label(form, kind),
               timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        sel = Sel(E, s, form, kind)
        r, ex = run(E, s.o.get_elements, **sel.kw)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        con, off, typ = r
        same(E, 'the types of the selected elements', typ, over(
            s, sel.d, lambda e: s.el.value('eltyp', e)))
        check_offsets(E, sel, off)
        nd = sel.nd
        if nd is None:
            same(E, 'the nodes of all elements', con, sel.flat)
            return
        if not isinstance(con, CArr):
            raise core.Unsupported('form of the connectivity')
        k, j = E.int('k').e, E.int('j').e
        E.prove('one piece per selected element', con.n == sel.n)
        E.assume(z3.And(k >= 0, k < sel.n))
        E.prove('as many nodes as the element has', con.m(k) == sel.m(k))
        E.assume(z3.And(j >= 0, j < sel.m(k)))
        c = iexpr(con.v(k, j))
        E.prove('each index is one of the returned nodes',
                z3.And(c >= 0, c < nd.n))
        E.prove('the returned node is the node of the element',
                nd.at(c) == iexpr(sel.flat.v(k, j)))
    return E.explore(body)


def check_offsets(E, sel, off):
    if isinstance(off, Dom1):
        off = off.arr()
    if not isinstance(off, NArr) or len(off.dims) != 1:
        raise core.Unsupported('form of the offsets')
    E.prove('one offset per element', off.dims[0] == sel.n)
    k = E.int('k').e
    E.assume(z3.And(k >= 0, k < sel.n))
    if E.decide(k == 0):
        E.prove('the first offset is the number of nodes of the first '
                'element', iexpr(off.f(Z(0))) == sel.m(Z(0)))
    else:
        E.prove('offsets grow by the number of nodes of the element',
                iexpr(off.f(k)) - iexpr(off.f(z3.simplify(k - 1))) ==
                sel.m(k))


def disconnected(form, kind):
    E = Engine('FirstLevelData.get_elements, %s, disconnected' % label(
        form, kind), timeout=20000)

    def body():
        s = setup(E)
        if s is None:
            return
        sel = Sel(E, s, form, kind)
        r, ex = run(E, s.o.get_elements, disconnected=True, **sel.kw)
        if ex is not None:
            E.fail('returns', repr(ex))
            return
        E.cover('returns')
        con, off, typ = r
        same(E, 'the types of the selected elements', typ, over(
            s, sel.d, lambda e: s.el.value('eltyp', e)))
        check_offsets(E, sel, off)
        n = arith(sel.flat.sym_len())
        same(E, 'consecutive nodes', con, vec.arange(n))
    return E.explore(body)


SEL11 = [(f, k) for f in ('none', 'str', 'tuple2') for k in KINDS]


def tasks11():
    return [Task('%s, %s%s' % (n, label(f, k), ', disconnected' if d else
                               ''), fn, (f, k, d))
            for n, fn in (('get_nodenumbers', nodenumbers),
                          ('get_nodes', coordinates))
            for f, k in SEL11 for d in (0, 1)] + \
        [Task('%s, %s%s' % ('get_elements', label(f, k), n), fn, (f, k))
         for n, fn in (('', connectivity), (', disconnected', disconnected))
         for f, k in SEL11]


def tasks12():
    return [Task('get_elementnumbers, ' + label(f, k), numbers, (f, k))
            for f in FORMS for k in KINDS] + \
        [Task('get_elements: types, ' + label(f, k), types, (f, k))
         for f, k in SEL11] + \
        [Task(f + ', refused arguments', unknown, (f,)) for f in SELECT] + \
        tasks21()[:6]


def tasks21():
    return [Task('%s, sets %s' % (f, a), properties, (f, a)) for f in PROPS
            for a in ('none', 'str', 'tuple2')] + \
        [Task('get_resultcase_names(%s)' % f, rescase_names, (f,))
         for f in CASES]


def tasks():
    return tasks12() + tasks21()[6:] + tasks11()
