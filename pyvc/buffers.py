"""Contracts of recdata and vldata (C05): class invariants, for every buffer
size S >= 1.

recdata:  rows stored in the table ++ rows pending in the buffer
              == all rows added, each with the ranges its companions had,
          0 <= number pending < S;
vldata:   values stored in the array ++ values pending == all values added,
          startindex == number of values added, and start:stop is the range
          of the latest addition (0:0 when it was empty).
__init__ establishes them, add() extends "all added" by exactly one row (or
the given values), write() leaves nothing pending.  By induction over the
calls nothing is lost, duplicated or reordered, for any number of additions.
"""
import z3
from . import core, inst, seq, shims
from .core import SAny, SInt, Unsupported, wrap, sem
from .seq import Seq, SList, Map, iexpr
from .readers import PARSERS

Z = z3.IntSort()
ROW = z3.DeclareSort('Row')
VAL = z3.DeclareSort('Val')


def encode(row):
    """one z3 value for a row tuple"""
    row = Seq.of(row)
    if not row.concrete():
        raise Unsupported('row of unknown length')
    items = row.items()
    es = []
    for v in items:
        e = core.expr(v) if not isinstance(v, SAny) else v.e
        if e is None:
            raise Unsupported('row of %s' % type(v).__name__)
        es.append(e)
    f = z3.Function('row%d' % len(es), *([e.sort() for e in es] + [ROW]))
    return SAny(f(*es))


class Buf(object):
    """numpy record array of length n"""

    def __init__(self, n, get):
        self.n, self.get = iexpr(n), get

    def norm(self, i):
        e = iexpr(i)
        if core.ENG.decide(e < 0):
            e = e + self.n
        if not core.ENG.decide(z3.And(e >= 0, e < self.n)):
            raise sem(IndexError('index out of bounds'))
        return z3.simplify(e)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        e, old, v = self.norm(i), self.get, encode(v)
        self.get = lambda k: core.ite(k == e, v, old(k))

    def as_seq(self):
        return Seq('list', (Map(self.n, self.get),))

    def __getitem__(self, i):
        if isinstance(i, slice):
            s = self.as_seq()
            a, b = s.bounds(i)
            n = z3.If(b > a, b - a, 0)
            get = self.get
            return Buf(n, lambda k: get(z3.simplify(a + k)))
        return self.get(self.norm(i))

    def __len__(self):
        return core.ENG.concretize(self.n)

    def copy(self):
        return Buf(self.n, self.get)

    @property
    def shape(self):
        return (wrap(self.n),)

    @property
    def size(self):
        return wrap(self.n)


class Store(object):
    """table or extendable array: what has been appended so far"""
    dtype = 'dtype'

    def __init__(self, kind, e, tag):
        self.kind = kind
        n = z3.Const('stored' + tag, Z)
        e.assume(n >= 0)
        f = z3.Function('content' + tag, Z, ROW if kind == 'table' else VAL)
        self.before = Seq('list', (Map(n, lambda i: SAny(f(i))),))
        self.seq = self.before

    def append(self, x):
        s = x.as_seq() if isinstance(x, (Buf, Arr)) else None
        if s is None and isinstance(x, (list, tuple, SList, Seq)):
            s = Seq.of(x)
            if self.kind == 'table':
                s = Seq('list', tuple(
                    tuple(v if isinstance(v, SAny) else encode(v)
                          for v in p) if isinstance(p, tuple) else p
                    for p in s.parts))
        if s is None:
            raise Unsupported('append of %s' % type(x).__name__)
        self.seq = Seq('list', self.seq.parts + s.parts)

    def flush(self):
        pass

    @property
    def nrows(self):
        return wrap(self.seq.length())

    @property
    def shape(self):
        return (wrap(self.seq.length()),)

    def sym_len(self):
        return wrap(self.seq.length())

    def length(self):
        return self.seq.length()


class Arr(object):
    """numpy array made of a list"""

    def __init__(self, s):
        self.s = Seq.of(s)

    def as_seq(self):
        return Seq('list', self.s.parts)

    def sym_len(self):
        return wrap(self.s.length())


class NP(object):
    def __init__(self, real):
        self._real = real

    def empty(self, n, dtype=None):
        if isinstance(n, tuple) and len(n) == 1:
            n = n[0]
        e = core.ENG.fresh(Z, 'junk')
        f = z3.Function('junk%s' % e, Z, ROW)
        return Buf(iexpr(n), lambda i: SAny(f(i)))
    zeros = empty

    def array(self, x, *a, **k):
        if isinstance(x, (Buf, Arr)):
            return x
        return Arr(x)
    asarray = array

    def __getattr__(self, n):
        return getattr(self._real, n)


def fresh_state(e, o, tag, what):
    """arbitrary state of an object, by the kind of its attributes"""
    pend, count, extra = None, None, []
    for k, v in list(vars(o).items()):
        if isinstance(v, Buf):
            if pend is not None:
                raise Unsupported('two buffers')
            f = z3.Function('buf' + tag, Z, ROW)
            setattr(o, k, Buf(v.n, lambda i: SAny(f(i))))
            pend = k
        elif isinstance(v, SList):
            if pend is not None:
                raise Unsupported('two buffers')
            f = z3.Function('pend' + tag, Z, ROW if what == 'rec' else VAL)
            n = z3.Const('npend' + tag, Z)
            e.assume(n >= 0)
            setattr(o, k, SList(Seq('list', (Map(n, lambda i, f=f: SAny(
                f(i))),))))
            pend = k
        elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
            if what == 'vl' and k in ('start', 'stop'):
                setattr(o, k, wrap(z3.Const(k + tag, Z)))
                continue
            if what == 'rec' and isinstance(v, SInt) and v.e.eq(
                    z3.Const('S', Z)):
                continue        # the size, kept
            if count is not None:
                raise Unsupported('two counters')
            setattr(o, k, wrap(z3.Const(k + tag, Z)))
            count = k
    if pend is None:
        raise Unsupported('no buffer')
    o._vc_pend, o._vc_count = pend, count


def pending(o):
    v = getattr(o, o._vc_pend)
    if isinstance(v, Buf):
        return v[:getattr(o, o._vc_count)].as_seq()
    if not isinstance(v, SList) and not isinstance(v, (list, tuple)):
        raise Unsupported('buffer is %s' % type(v).__name__)
    return Seq.of(v)


def inv_rec(o, S):
    v = getattr(o, o._vc_pend)
    if isinstance(v, Buf):
        c = iexpr(getattr(o, o._vc_count))
        return z3.And(v.n == S, c >= 0, c < S)
    n = pending(o).length()
    c = n == n if o._vc_count is None else \
        n == iexpr(getattr(o, o._vc_count))
    return z3.And(c, n >= 0, n < S)


def history(o, store):
    return Seq('list', store.seq.parts + pending(o).parts)


def verify():
    mod = inst.load(PARSERS)
    glob = dict(mod.__dict__)
    e = core.Engine('buffers', timeout=8000)
    S = z3.Const('S', Z)

    def setup():
        mod.__dict__.clear()
        mod.__dict__.update(glob)
        mod.np = NP(glob['np'])
        mod.tmp_arr_size = wrap(S)
        e.assume(S >= 1)

    def frame():
        for k, v in glob.items():
            if k not in ('np', 'tmp_arr_size') and \
                    mod.__dict__.get(k) is not v:
                e.fail('no global state is changed', k)

    def run(name, f):
        def path():
            setup()
            try:
                f(name)
            except Exception as ex:
                if getattr(ex, 'semantic', False):
                    e.fail(name + ': no exception', repr(ex))
                    return
                raise
            frame()
            e.cover(name)
        e.explore(path)

    # vldata
    def new_vl(tag):
        st = Store('arr', e, tag)
        o = mod.vldata(st)
        return o, st

    def vl_init(name):
        o, st = new_vl('@a')
        s0 = st.seq
        fresh = dict(vars(o))
        e.prove_eq(name + ': nothing is stored', st.seq, s0)
        fresh_state(e, o, '@x', 'vl')
        for k in (o._vc_pend, o._vc_count):
            if k:
                setattr(o, k, fresh[k])
        e.prove(name + ': nothing pending', pending(o).length() == 0)
        if o._vc_count:
            e.prove(name + ': first index', iexpr(getattr(
                o, o._vc_count)) == st.length())

    def some_vl(tag):
        o, st = new_vl(tag)
        fresh_state(e, o, tag, 'vl')
        if o._vc_count:
            e.assume(iexpr(getattr(o, o._vc_count)) ==
                     st.length() + pending(o).length())
        return o, st

    def vl_inv(name, o, st):
        if o._vc_count:
            e.prove(name + ': next index', iexpr(getattr(
                o, o._vc_count)) == st.length() + pending(o).length())

    def vl_add(name, kind):
        o, st = some_vl('@b')
        h = history(o, st)
        n = z3.Const('nadd', Z)
        e.assume(n >= 0)
        f = z3.Function('added', Z, VAL)
        new = Seq(kind, (Map(n, lambda i: SAny(f(i))),))
        arg = SList(new) if kind == 'list' else new
        o.add(arg)
        vl_inv(name, o, st)
        e.prove_eq(name + ': the values are appended', history(o, st),
                   Seq('list', h.parts + new.parts))
        a, b = iexpr(o.start), iexpr(o.stop)
        e.prove(name + ': range of the values', z3.If(
            n == 0, a == b, z3.And(a == h.length(), b == a + n)))
        e.prove(name + ': empty range', z3.Implies(n == 0, z3.And(
            a >= 0, a <= h.length())))
        if kind == 'list':
            e.prove_eq(name + ': the argument is not changed', arg.seq, new)

    def vl_write(name):
        o, st = some_vl('@c')
        h = history(o, st)
        a, b = o.start, o.stop
        o.write()
        vl_inv(name, o, st)
        e.prove_eq(name + ': all values are stored', st.seq, h)
        e.prove(name + ': nothing pending', pending(o).length() == 0)
        e.prove_eq(name + ': range kept', (o.start, o.stop), (a, b))

    run('vldata.__init__', vl_init)
    run('vldata.add(list)', lambda n: vl_add(n, 'list'))
    run('vldata.add(tuple)', lambda n: vl_add(n, 'tuple'))
    run('vldata.write', vl_write)

    # recdata, with m companions
    def new_rec(m, tag):
        vls = [some_vl('%s%d' % (tag, j)) for j in range(m)]
        st = Store('table', e, tag)
        o = mod.recdata(st, *[v for v, _ in vls])
        return o, st, vls

    def some_rec(m, tag):
        o, st, vls = new_rec(m, tag)
        fresh_state(e, o, tag, 'rec')
        e.assume(inv_rec(o, S))
        return o, st, vls

    def rec_init(name, m):
        o, st, vls = new_rec(m, '@d')
        s0 = st.seq
        init = dict(vars(o))
        fresh_state(e, o, '@y', 'rec')
        for k in (o._vc_pend, o._vc_count):
            if k:
                setattr(o, k, init[k])
        e.prove(name + ': invariant', inv_rec(o, S))
        e.prove(name + ': nothing pending', pending(o).length() == 0)
        e.prove_eq(name + ': nothing is stored', st.seq, s0)

    def rec_add(name, m):
        o, st, vls = some_rec(m, '@e')
        h = history(o, st)
        hv = [history(v, s) for v, s in vls]
        links = ()
        for v, _ in vls:
            links += (v.start, v.stop)
        x = SAny(z3.Const('rec', VAL))
        o.add((x,))
        e.prove(name + ': invariant', inv_rec(o, S))
        e.prove_eq(name + ': the row is appended', history(o, st),
                   Seq('list', h.parts + ((encode((x,) + links),),)))
        for (v, s), h0 in zip(vls, hv):
            vl_inv(name + ', companion', v, s)
            e.prove_eq(name + ': companion values kept', history(v, s), h0)
            e.prove_eq(name + ': companion range kept',
                       (v.start, v.stop), links[2*vls.index((v, s)):][:2])

    def rec_write(name, m):
        o, st, vls = some_rec(m, '@f')
        h = history(o, st)
        hv = [history(v, s) for v, s in vls]
        o.write()
        e.prove_eq(name + ': all rows are stored', st.seq, h)
        for (v, s), h0 in zip(vls, hv):
            e.prove_eq(name + ': all companion values are stored', s.seq, h0)

    from vlib.records import SPECS
    top = max(len(s.comps) for s in SPECS.values())
    for m in range(top + 1):
        run('recdata.__init__(%d)' % m, lambda n: rec_init(n, m))
        run('recdata.add(%d)' % m, lambda n: rec_add(n, m))
        run('recdata.write(%d)' % m, lambda n: rec_write(n, m))
    return e


TRUSTED = [
    'Table.append/EArray.append add the given rows at the end and nothing '
    'else (PyTables); flush changes no contents',
    'len(EArray) is the number of rows appended so far',
    'assigning a tuple to an element of a numpy record array stores its '
    'items; slicing and np.array of a list keep the order',
    'tmp_arr_size is not changed while records are being read',
    'companion count per record type at most that of the record '
    'definitions (obligations get_table/.. of C03)',
    'instrumentation of pyvc/inst.py; z3; CPython',
]
