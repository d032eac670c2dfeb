"""Contracts of the record readers (C03, C04).

For every supported record type: whatever values the header and the body of a
record hold, one round of the reader's record loop adds exactly the row and
the companion values of the record definition (vlib/records.py, executed
symbolically), consumes exactly the values of the record, leaves the memory
for later records as the definition says, and hands the next header on.  The
record loop is cut by the invariant "the latest header is in rec_name/rec;
nothing else is carried between rounds", so it holds for runs of any length.

Callees by contract: the file (read_floats, read_floatrec, read_stringrec,
read_headerrec, at_headerrec; bodies verified in C01/C02), get_table
(evaluated for every record type), recdata/vldata (bodies verified in C05).
"""
import os
import z3
from . import core, inst, seq, shims, strs
from .core import (SReal, SInt, SNum, Cplx, Unsupported, PathEnd, Infeasible,
                   wrap, arith, truth, trunc, veq, sem)
from .seq import Seq, SList, SDict, Map, iexpr
from .strs import SStr
from .loops import same, UNBOUND

PARSERS = 'freesif/sequentialparser/parsers.py'
SPECFILE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'vlib', 'records.py')
R, Z = z3.RealSort(), z3.IntSort()


def load_spec():
    with open(SPECFILE) as f:
        src = f.read()
    m = inst.types.ModuleType('vc_records')
    b = dict(inst.builtins.__dict__)
    b.update(shims.BUILTINS)
    m.__dict__['__builtins__'] = b
    m.__dict__['__vc__'] = inst.VC
    m.__dict__['builtins'] = _B
    src = src.replace('import builtins\n', '')
    exec(inst.transform(src, SPECFILE), m.__dict__)
    m.int_ = shims.int_
    m.cplx = lambda a, b: Cplx(a, b)
    return m


class _B(object):
    range = staticmethod(shims.range_)
    int = staticmethod(shims.int_)


class SymStream(object):
    """the values V(0), V(1), .. of one record"""

    def __init__(self, V, L):
        self.V, self.L = V, L

    def __getitem__(self, i):
        if isinstance(i, slice):
            a = iexpr(0 if i.start is None else i.start)
            b = iexpr(i.stop)
            n = z3.simplify(b - a)
            core.ENG.assume(n >= 0)     # counts are not negative
            if z3.is_int_value(n):
                return tuple(self[wrap(a + j)] for j in range(n.as_long()))
            return Seq('tuple', (Map(n, lambda k: self[wrap(a + k)]),))
        return SReal(self.V(z3.simplify(iexpr(i))))

    def at0(self, i):
        e = iexpr(i)
        return core.ite(e < self.L, self[i], 0.)

    def map(self, n, f):
        core.ENG.assume(iexpr(n) >= 0)
        return Seq('tuple', (Map(n, lambda k: f(wrap(k))),))

    def rows(self, p, n, w):
        return self.map(n, lambda i: tuple(self[p + i*w + j]
                                           for j in range(w)))

    def refs(self, p, numtyp, n):
        E = core.ENG
        E.assume(z3.And(iexpr(numtyp) >= 0, iexpr(numtyp) <= 3))
        m = E.concretize(iexpr(numtyp))
        d, typs = {}, []
        for k in range(m):
            q = p + k*(1 + 2*n)
            t = arith(shims.int_(self[q]))
            E.assume(z3.And(t >= 1, t <= 3))
            for u in typs:
                E.assume(t != u)
            typs.append(t)
            d[E.concretize(t)] = self.rows(q + 1, n, 2)
        return d, p + m*(1 + 2*n)


POINTS = '''
def points(S, p, nk, nj, ni):
    out = []
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                if S[p] > 0:
                    out.append((S[p], S[p+1], S[p+2], S[p+3]))
                    p = p + 4
                else:
                    p = p + 1
    return out, p
'''


def _points():
    g = {'__vc__': inst.VC}
    b = dict(inst.builtins.__dict__)
    b.update(shims.BUILTINS)
    g['__builtins__'] = b
    exec(inst.transform(POINTS, '<points>'), g)
    return g['points']


class SymEnv(object):
    """what earlier records of the file defined: arbitrary"""

    def __init__(self, tag, elem_types):
        B = z3.BoolSort()
        F = z3.Function
        self.eltyp = F('eltyp' + tag, Z, Z)
        self.haseltyp = F('haseltyp' + tag, Z, B)
        self.nspf = F('nsp' + tag, Z, Z, Z)
        self.hasnsp = F('hasnsp' + tag, Z, Z, B)
        self.gridf = [F('grid%d%s' % (j, tag), Z, Z) for j in range(4)]
        self.hasgrid = F('hasgrid' + tag, Z, B)
        self.ic = F('icompl' + tag, Z, Z)
        self.hasic = F('hasicompl' + tag, Z, B)
        self.tag = tag
        self.types = elem_types

    def lookup(self, kind, key):
        """value, or KeyError"""
        E = core.ENG
        if kind == 'lenrec':
            name, k = key
            if isinstance(name, SStr):
                raise Unsupported('symbolic record name')
            k = iexpr(k)
            has = z3.Function('haslen%s%s' % (name, self.tag), Z,
                              z3.BoolSort())(k)
            val = wrap(z3.Function('len%s%s' % (name, self.tag), Z, Z)(k))
        elif kind == 'nsp':
            a, b = [iexpr(x) for x in key]
            has, val = self.hasnsp(a, b), wrap(self.nspf(a, b))
        elif kind == 'eltyp':
            has, val = self.haseltyp(iexpr(key)), wrap(self.eltyp(iexpr(key)))
        elif kind == 'icompl':
            has, val = self.hasic(iexpr(key)), wrap(self.ic(iexpr(key)))
        else:
            k = iexpr(key)
            has, val = self.hasgrid(k), tuple(wrap(g(k))
                                              for g in self.gridf)
        if E.decide(has):
            if kind == 'icompl':   # a flag
                E.assume(z3.Or(arith(val) == 0, arith(val) == 1))
            elif kind == 'grid':
                for x in val:
                    E.assume(arith(x) >= 0)
            elif kind in ('nsp', 'lenrec'):
                E.assume(arith(val) >= 0)
            return val
        raise sem(KeyError(key))

    # as used by the record definitions
    def __getitem__(self, key):
        kind, rest = key[0], key[1:]
        if kind == 'grid':
            try:
                return self.lookup('grid', rest[0])
            except KeyError:
                k = iexpr(rest[0])
                if core.ENG.decide(k == 15):
                    return (0, 1, 1, 3)
                if core.ENG.decide(k == 24):
                    return (0, 2, 3, 3)
                raise
        return self.lookup(kind, rest if len(rest) > 1 else rest[0])

    def nnodes(self, eltyp):
        return self.types[eltyp][1]


class ElTypes(object):
    """contract of elem_types (its contents are compared separately)"""
    n = z3.Function('nnodes', Z, Z)
    known = z3.Function('eltypknown', Z, z3.BoolSort())

    def __getitem__(self, k):
        k = iexpr(k)
        if not core.ENG.decide(self.known(k)):
            raise sem(KeyError(k))
        n = wrap(self.n(k))
        core.ENG.assume(n >= 1)
        return ('name', n, 'description')

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        return core.ENG.decide(self.known(iexpr(k)))


class EnvDict(object):
    """module-level dictionary remembering earlier records"""

    def __init__(self, run, kind):
        self.run, self.kind = run, kind
        self.writes = ()
        core.ENG.heap.append(self)

    def get_state(self):
        return self.writes

    def set_state(self, w):
        self.writes = w

    def __setitem__(self, k, v):
        self.run.ensure()
        self.writes = self.writes + ((k, v),)

    def __getitem__(self, k):
        self.run.ensure()
        for x, v in self.writes[::-1]:
            if seq.keyeq(x, k):
                return v
        return self.run.env.lookup(self.kind, k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False

    def update(self, o):
        for k, v in o.items():
            self[k] = v


class Vl(object):
    """contract of vldata"""

    def __init__(self, run, arr):
        self.run, self.arr = run, arr
        self.log = SList()
        run.vls.append(self)

    def add(self, v):
        self.run.ensure()
        if v is None or isinstance(v, (tuple, list)) and len(v) == 0:
            v = Seq('list', ())
        elif isinstance(v, (SList, Seq, tuple, list)):
            v = Seq('list', Seq.of(v).parts)
        else:
            raise Unsupported('vldata.add of %s' % type(v).__name__)
        self.log.append((v,))

    def write(self):
        pass


class Rd(object):
    """contract of recdata"""

    def __init__(self, run, table, vls):
        self.run, self.table, self.vls = run, table, vls
        self.rows = SList()
        run.sinks.append(self)

    def add(self, rec):
        self.run.ensure()
        if isinstance(rec, (list, SList)):
            self.run.e.fail('row is a list')
            raise PathEnd()
        self.rows.append((rec,))
        self.run.dirty = True

    def write(self):
        self.run.dirty = False


class Row(object):
    def __init__(self, table):
        self.table = table
        self.v = {}
        self.n = 0

    def __setitem__(self, k, v):
        self.v[k] = v

    def append(self):
        self.table.run.ensure()
        cols = [c for c, _, _ in self.table.run.spec.cols]
        if set(self.v) - set(cols):
            self.table.run.e.fail('no such column')
        self.table.rows.append((tuple(self.v.get(c, 0) for c in cols),))
        # pytables starts the next row from the defaults
        self.v = {}
        self.table.run.dirty = True


class Table(object):
    def __init__(self, run):
        self.run = run
        self.row = Row(self)
        self.rows = SList()
        run.sinks.append(self)

    def flush(self):
        self.run.dirty = False

    def __bool__(self):
        return True

    # the next HIERARCH users look records up in the table
    def __getitem__(self, i):
        return ('row', i)


class Earr(object):
    def __init__(self, name):
        self.name = name


class InFile(object):
    """contract of the sequential file at the place of one record"""

    def __init__(self, run):
        self.run = run

    def need(self, name, c):
        r = self.run.e.prove(name, c)
        if not r:
            raise PathEnd()

    def step(self):
        if self.run.returned:
            raise Unsupported('reading past the next header')
        self.run.ensure()

    def take(self, n):
        r = self.run
        p = iexpr(r.pos)
        n = z3.simplify(iexpr(n))
        # reads only move on, so none has passed the end of the record when
        # the position in the end has not (obligation 'record consumed')
        self.need('no negative number of values read', n >= 0)
        r.pos = wrap(p + n)
        if z3.is_int_value(n):
            return tuple(r.S[wrap(p + j)] for j in range(n.as_long()))
        S = r.S
        return Seq('tuple', (Map(n, lambda k: S[wrap(p + k)]),))

    def read_floats(self, n, skipfirst=0):
        self.step()
        n = iexpr(n)
        if core.ENG.must(n == 0):
            return ()
        if core.ENG.must(n > 0) or self.run.kind == 't1' and \
                skipfirst == 8 or self.run.kind != 't1' and skipfirst == 0:
            ok = skipfirst == (8 if self.run.kind == 't1' else 0)
            self.need('continuation lines are read as written',
                      z3.BoolVal(ok))
        elif core.ENG.decide(n > 0):
            self.need('continuation lines are read as written',
                      z3.BoolVal(False))
        else:
            return ()
        return self.take(n)

    def read_floatrec(self, skipfirst=0):
        self.step()
        r = self.run
        self.need('continuation lines are read as written', z3.BoolVal(
            r.kind == 't1' and skipfirst == 8))
        p = iexpr(r.pos)
        self.need('whole line', p % 4 == 0)
        n = core.ENG.concretize(z3.If(r.S.L - p >= 4, 4, r.S.L - p))
        return self.take(n)

    def read_stringrec(self):
        self.step()
        r = self.run
        p = iexpr(r.tpos)
        self.need('text lines read belong to the record', p < r.nlines)
        r.tpos = wrap(p + 1)
        return SStr(r.T(z3.simplify(p)), r.textkind)

    def at_headerrec(self):
        self.step()
        r = self.run
        return wrap(iexpr(r.pos) == r.S.L)

    def read_headerrec(self):
        self.step()
        if len(core.ENG.stack) > 1:
            raise Unsupported('header read in an inner loop')
        return self.run.next_header()


class Run(object):
    """one path through one reader"""

    def __init__(self, e, spec, name, mod, specmod, textkind):
        self.e, self.spec, self.name, self.mod = e, spec, name, mod
        self.kind, self.specmod, self.textkind = spec.kind, specmod, textkind
        self.sinks, self.vls = [], []
        self.dirty = False
        self.returned = False
        self.count = 0
        self.last = None
        self.pos = self.tpos = 0
        self.phase = 'start'
        e.heap = []
        e.track(self, 'pos', 'tpos', 'dirty')
        self.dicts = {}
        for attr, kind in (('elem_data', 'eltyp'), ('nsp_data', 'nsp'),
                           ('lenrec_data', 'lenrec'),
                           ('rdresref_data', 'icompl'),
                           ('rdpoints_data', 'grid')):
            self.dicts[kind] = EnvDict(self, kind)
            setattr(mod, attr, self.dicts[kind])
        mod.elem_types = ElTypes()
        mod.get_table = self.get_table
        mod.vldata = lambda arr: Vl(self, arr)
        mod.recdata = lambda t, *vl: Rd(self, t, vl)
        e.while_policy = self.policy
        self.infile = InFile(self)

    def get_table(self, rec_name, out_file):
        self.e.prove('table of the record type', z3.BoolVal(
            isinstance(rec_name, str) and rec_name == self.name))
        t = Table(self)
        if self.spec.comps:
            return (t,) + tuple(Earr(c) for c, _, _ in self.spec.comps)
        return t

    # -- headers
    def head(self):
        """arbitrary header of a record of this type"""
        self.count += 1
        tag = '#%d' % self.count
        self.H = tuple(SReal(z3.Const('H%d%s' % (j, tag), R))
                       for j in range(4))
        return (self.name, self.H)

    def ensure(self):
        """the body of the record is needed"""
        if self.phase == 'header':
            self.phase = 'record'
            self.begin()

    def begin(self):
        e = self.e
        tag = '#%d' % self.count
        self.V = z3.Function('V' + tag, Z, R)
        self.T = z3.Function('T' + tag, Z, z3.StringSort())
        self.nlines = z3.IntVal(0)
        self.pos = self.tpos = 0
        L = z3.Const('L' + tag, Z)
        self.S = SymStream(self.V, L)
        self.S.points = lambda p, a, b, c: POINTSFN(self.S, p, a, b, c)
        self.env = SymEnv(tag, ElTypes())
        for d in self.dicts.values():
            d.writes = ()
        for s in self.sinks:
            s.rows.seq = Seq('list', ())
        for v in self.vls:
            v.log.seq = Seq('list', ())
        self.pre()
        try:
            if self.kind in ('text', 'td'):
                h = [iexpr(shims.int_(x)) for x in self.H]
                n = h[2] if self.kind == 'text' else h[2]/100 + h[3]/100
                e.assume(h[2] >= 0)
                if self.kind == 'td':
                    e.assume(h[3] >= 0)
                self.nlines = z3.simplify(n)
                T = self.T
                lines = Seq('tuple', (Map(self.nlines,
                                          lambda i: SStr(T(i), 'str')),))
                self.dec = self.spec.decode(self.H, lines)
                e.assume(L == 0)
            else:
                self.dec = self.spec.decode(self.H, self.S, self.env)
                u = iexpr(self.dec.used)
                e.assume(u >= 0)
                if self.kind == 't1':
                    e.assume(L >= u - self.spec.opt)
                    e.assume(L <= (u + 3)/4*4)
                else:
                    e.assume(L == u)
        except KeyError:
            raise Infeasible()      # refers to a record that is not there
        self.pos = self.tpos = 0

    def pre(self):
        """well-formed records of the supported kinds"""
        a = self.e.assume
        H, S = self.H, self.S
        if self.name == 'SCONMESH':
            a(iexpr(shims.int_(H[2])) <= 1)
        elif self.name == 'SCONCEPT':
            t = iexpr(shims.int_(H[2]))
            a(z3.Or(t == 2, t == 7))
        elif self.name == 'WSURFACE':
            fl = [arith(S[j]) for j in range(4)]
            for x in fl:
                a(z3.Or(x == 0, x == 1))
            per = 1 + sum([z3.If(x == 1, z3.If(fl[0] == 1, 2, 1), 0)
                           for x in fl[1:]])
            p = self.e.concretize(z3.simplify(per))
            m = z3.Const('m#%d' % self.count, Z)
            a(m >= 0)
            a(iexpr(shims.int_(H[0])) - 8 == m*p)
        elif self.name == 'BNBCD':
            a(iexpr(shims.int_(H[1])) >= 0)
        elif self.name == 'RDPOINTS':
            for j in (2, 3):
                a(iexpr(shims.int_(S[j])) >= 0)

    def next_header(self):
        self.finish()
        e = self.e
        if e.decide(e.fresh(z3.BoolSort(), 'again')):
            self.phase = 'header'
            self.last = self.head()
        else:
            self.phase = 'other'
            self.returned = True
            nm = SStr(e.fresh(z3.StringSort(), 'name'), 'str')
            e.assume(nm.e != z3.StringVal(self.name))
            self.last = (nm, tuple(e.real('N') for _ in range(4)))
        return self.last

    # -- what one record must have led to
    def finish(self):
        e, p, L = self.e, iexpr(self.pos), self.S.L
        if self.kind == 't1':
            e.prove('record consumed', z3.And(p <= L, L <= (p + 3)/4*4))
        elif self.kind == 't2':
            e.prove('record consumed', p == L)
        else:
            e.prove('text lines consumed', iexpr(self.tpos) == self.nlines)
        rows = [s.rows.seq for s in self.sinks if s.rows.seq.parts]
        one = len(rows) == 1 and rows[0].concrete() and \
            len(rows[0].items()) == 1
        if not e.prove('one row per record', z3.BoolVal(one)):
            return
        row = rows[0].items()[0][0]
        self.check_row(row)
        self.check_comps()
        self.check_env()
        e.cover('record')

    def check_row(self, row):
        e = self.e
        if isinstance(row, Seq):
            row = Seq('tuple', row.parts)
            n = row.length()
            if not e.prove('row length', n == len(self.spec.cols)):
                return
            row = tuple(row.at(j) for j in range(len(self.spec.cols)))
        if not e.prove('row length', z3.BoolVal(
                isinstance(row, tuple) and len(row) == len(self.spec.cols))):
            return
        want = self.dec.row
        for (c, typ, shape), x, w in zip(self.spec.cols, row, want):
            value(e, 'column ' + c, x, w, typ, shape)

    def check_comps(self):
        e = self.e
        vls = {}
        for s in self.sinks:
            for v in getattr(s, 'vls', ()):
                vls[v.arr.name] = v
        for (c, typ, shape), want in zip(self.spec.comps, self.dec.comps):
            if not e.prove('companion %s is linked' % c,
                           z3.BoolVal(c in vls)):
                continue
            log = vls[c].log.seq
            if not log.concrete():
                raise Unsupported('companion data added in a symbolic loop')
            adds = [a for a, in log.items()]
            # the row takes the range of the last addition
            if not e.prove('companion %s is set for the record' % c,
                           z3.BoolVal(len(adds) > 0)):
                continue
            for a in adds[:-1]:
                e.prove('all values of %s are linked' % c, a.length() == 0)
            sequence(e, 'companion ' + c, adds[-1], want, typ, shape)

    def check_env(self):
        e = self.e
        want = {k: [] for k in self.dicts}
        for key, v in self.dec.env.items() if hasattr(
                self.dec.env, 'items') else self.dec.env:
            k = key[1:]
            want[key[0]].append((k if len(k) > 1 else k[0], v))
        for kind, d in self.dicts.items():
            ws = d.writes
            if isinstance(ws, Seq):
                raise Unsupported('memory written in a symbolic loop')
            final = []
            for k, v in ws:
                final = [(x, y) for x, y in final if not same_key(x, k)]
                final.append((k, v))
            if not e.prove('memory of %s' % kind, z3.BoolVal(
                    len(final) == len(want[kind]))):
                continue
            for (k, v), (wk, wv) in zip(final, want[kind]):
                e.prove_eq('memory of %s, key' % kind, k, wk)
                e.prove_eq('memory of %s, value' % kind, v, wv)

    # -- the record loop
    def policy(self, w):
        if len(core.ENG.stack) > 1 or getattr(self, 'loop', None) is not None:
            return None
        self.loop = Loop(self)
        return self.loop


def same_key(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and all(same_key(x, y)
                                            for x, y in zip(a, b))
    x, y = core.expr(a), core.expr(b)
    if x is not None and y is not None:
        return z3.simplify(x).eq(z3.simplify(y))
    return a == b


class Loop(object):
    """invariant of the record loop: the variables hold the latest header or
    what they held before the loop"""

    def __init__(self, run):
        self.run = run
        self.count = 0

    def classify(self, w):
        out = []
        now = w.read()
        for nm, v, v0 in zip(w.names, now, self.first):
            if v is self.run.last[0] or v is self.run.last[1]:
                out.append('header')
            elif v is not UNBOUND and (v is v0 or same(v, v0)):
                out.append('same')
            else:
                out.append('lost')
        return now, out

    def head(self, w):
        self.count += 1
        if self.count == 1:
            self.first = w.read()
            return None
        now, cl = self.classify(w)
        if self.count == 2:
            if all(c != 'lost' or v is UNBOUND
                   for c, v in zip(cl, self.first)):
                # the round just checked started from an arbitrary state
                raise PathEnd()
            self.cl = cl
            return [core.Poison('%s, which is not kept by the record loop'
                                % nm) if c == 'lost' else v
                    for nm, v, c in zip(w.names, now, cl)]
        for a, b in zip(self.cl, cl):
            if a != 'lost' and a != b:
                raise Unsupported('no invariant for the record loop')
        raise PathEnd()


def value(e, what, x, w, typ, shape):
    """stored value x of a column of type typ equals w"""
    if shape:
        items = tuple(x) if isinstance(x, (tuple, list, SList)) else x
        if isinstance(items, Seq):
            items = tuple(items.at(j) for j in range(shape[0])) \
                if e.prove(what + ' shape', items.length() == shape[0]) \
                else None
        if not e.prove(what + ' shape', z3.BoolVal(
                isinstance(items, tuple) and len(items) == shape[0])):
            return
        for j in range(shape[0]):
            value(e, what, items[j], w[j], typ, shape[1:])
        return
    if typ == 'int32':
        a, b = arith(x), arith(w)
        if a is None or b is None:
            e.fail(what, 'not a number')
            return
        e.prove(what, trunc(a) == trunc(b))
    elif typ == 'float32':
        if isinstance(x, Cplx) or arith(x) is None:
            e.fail(what, 'not a real number')
            return
        e.prove_eq(what, x, w)
    elif typ == 'complex64':
        x, w = Cplx.of(x), Cplx.of(w)
        if x is None:
            e.fail(what, 'not a number')
            return
        e.prove_eq(what, x, w)
    else:
        a, b = strs.sexpr(x), strs.sexpr(w)
        if a is None:
            e.fail(what, 'not a text')
            return
        e.prove(what, a == b)


def sequence(e, what, got, want, typ, shape):
    got, want = Seq('s', Seq.of(got).parts), Seq('s', Seq.of(want).parts)

    def conv(v, shape):
        if shape:
            if isinstance(v, Seq):
                v = tuple(v.at(j) for j in range(len(v)))
            return tuple(conv(u, shape[1:]) for u in v)
        if typ == 'int32':
            return wrap(trunc(arith(v)))
        if typ == 'complex64':
            return Cplx.of(v)
        if isinstance(v, SStr):
            return SStr(v.e, 'str')
        return v

    def cs(s):
        parts = []
        for p in s.parts:
            if isinstance(p, tuple):
                parts.append(tuple(conv(v, shape) for v in p))
            elif isinstance(p, Map):
                parts.append(Map(p.n, lambda i, p=p: conv(p.f(i), shape)))
            else:
                parts.append(p)
        return Seq('s', tuple(parts))
    e.prove_eq(what, cs(got), cs(want))


POINTSFN = None
NN = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}


def prepare():
    global POINTSFN
    mod = inst.load(PARSERS)
    mod.__saved__ = dict(mod.__dict__)
    POINTSFN = _points()
    return mod, load_spec()


def names():
    from vlib.records import SPECS
    return sorted(SPECS)


def verify(name, mod=None, specmod=None, timeout=6000, state=None):
    """all obligations of the reader of one record type -> Engine"""
    if mod is None:
        mod, specmod = prepare()
    spec = specmod.SPECS[name]
    eng = core.Engine('reader ' + name, timeout=timeout)
    kinds = ('str', 'bytes') if spec.kind in ('text', 'td') else ('str',)
    glob = mod.__saved__

    for tk in kinds:
        def path(tk=tk):
            mod.__dict__.update(glob)
            run = Run(eng, spec, name, mod, specmod, tk)
            eng.run = run
            if name not in mod.readers:
                eng.fail('has a reader')
                return
            run.phase = 'record'
            run.last = hdr = run.head()
            run.begin()
            if name == 'HIERARCH':
                mod.current_seltyp = None
            check = state and state(eng, mod, hdr, run)
            try:
                out = mod.readers[name](hdr[0], hdr[1], run.infile,
                                        object())
            except (Unsupported, PathEnd, Infeasible):
                raise
            except Exception as ex:
                if getattr(ex, 'semantic', False):
                    eng.fail('no exception', repr(ex)[:80])
                    return
                raise
            if run.phase == 'record':
                eng.fail('run of records read to its end')
                return
            # (phase 'header': the dispatcher calls the reader again)
            ok = isinstance(out, tuple) and len(out) == 2 and \
                out[0] is run.last[0] and out[1] is run.last[1]
            eng.prove('next header returned', z3.BoolVal(ok))
            eng.prove('rows written', z3.BoolVal(not run.dirty))
            if check:
                check()
        eng.explore(path)
    return eng


# ---- finite facts, evaluated on the real module ---------------------------


def verify_tables():
    """get_table and elem_types: one obligation per record type, evaluated
    (nothing in them depends on the input)"""
    import tempfile
    import shutil
    import numpy as np
    import tables as tb
    from vlib.common import import_freesif
    from vlib.records import SPECS, NNODES
    import_freesif()
    from freesif.sequentialparser import parsers as P
    e = core.Engine('get_table')

    def ob(name, ok, why):
        if e.only is None or e.only(e.name + '/' + name):
            e.obs.append(core.Ob(e.name + '/' + name, 'proved' if ok else
                                 'refuted', why='evaluated: %s' % (why,)))

    def base(c):
        return {n: (col.type, col.shape) for n, col in c.items()}
    d = tempfile.mkdtemp(prefix='vf_tab_')
    saved = dict(P.__dict__)
    try:
        P.reset()
        before = {n: base(c.columns) for n, c in P.descriptors.items()}
        with tb.open_file(os.path.join(d, 'a.h5'), 'w') as f:
            class Next(object):
                def read_headerrec(self):
                    return 'IEND', (0., 0., 0., 0.)
            P.readers['IDENT']('IDENT', (1., 1., 3., 0.), Next(), f)
            for n in sorted(SPECS):
                s = SPECS[n]
                try:
                    out = P.get_table(n, f)
                except Exception as ex:
                    e.unsupported.append('get_table(%s): %r' % (n, ex))
                    continue
                t = out[0] if isinstance(out, tuple) else out
                comps = out[1:] if isinstance(out, tuple) else ()
                want = [(c, 'S' if y == 'str' else y, sh)
                        for c, y, sh in s.cols]
                link = ('_start', '_stop')
                want += [(c + x, 'int32', ()) for c, _, _ in s.comps
                         for x in link]
                got = []
                for c in t.dtype.names:
                    k = t.dtype[c]
                    got.append((c, 'S' if k.base.kind == 'S' else
                                k.base.name, k.shape))
                ob('%s: columns' % n, [g[0] for g in got] ==
                   [w[0] for w in want], (got, want))
                ob('%s: column types' % n, got == want, (got, want))
                ob('%s: table name' % n, t._v_name == n.lower(), t._v_name)
                wa = [('%s_%s' % (n.lower(), c), y, (0,) + sh)
                      for c, y, sh in s.comps]
                ga = []
                for a in comps:
                    ty = a.atom.type
                    if ty.startswith('complex'):
                        ty = 'complex%d' % (8*a.atom.dtype.base.itemsize)
                    if ty == 'string':
                        ty = 'S%d' % a.atom.dtype.base.itemsize
                    ga.append((a._v_name, ty, tuple(a.shape)))
                ob('%s: companion arrays' % n, ga == wa, (ga, wa))
                ob('%s: companion arrays grow' % n, all(
                    a.extdim == 0 for a in comps), ga)
        ob('descriptors are not changed', before == {
            n: base(c.columns) for n, c in P.descriptors.items()}, '')
        for k, n in sorted(NNODES.items()):
            ob('nodes of element type %d' % k, k in P.elem_types and
               P.elem_types[k][1] == n, P.elem_types.get(k))
        for n in sorted(SPECS):
            ob('%s: has a reader' % n, n in P.readers, '')
    finally:
        P.__dict__.update(saved)
        shutil.rmtree(d, ignore_errors=True)
    e.covers['all'] = True
    return e


# ---- tasks of C03 and C04 --------------------------------------------------

_PREP = []


def reader_task(name):
    if not _PREP:
        _PREP.append(prepare())
    return verify(name, *_PREP[0])


def is_link(n):
    return 'companion' in n or 'all values of' in n or (
        n.startswith('get_table') and n.endswith(': columns'))


def is_row(n):
    return not is_link(n) or n.startswith('get_table')


def is_flush(n):
    return n.endswith(('/rows written', '/one row per record')) or \
        'all values of' in n or 'set for the record' in n


def tasks(which):
    from .report import Task
    only = {'links': is_link, 'rows': is_row, 'flush': is_flush}[which]
    ns = names()
    slow = ['WSURFACE', 'WDRESREF', 'RDPOINTS']
    ns = [n for n in slow if n in ns] + [n for n in ns if n not in slow]
    out = []
    for n in ns:
        s = load_specs_cached()[n]
        if which == 'links' and not s.comps:
            continue
        out.append(Task('reader of ' + n, reader_task, (n,), only,
                        lambda ctx, ob, n=n: directed(ctx, n, which)))
    if which == 'flush':
        return out
    out.append(Task('get_table', verify_tables, (), only,
                    lambda ctx, ob: directed(
                        ctx, ob.name.split('/')[1].split(':')[0], which)))
    return out


def load_specs_cached():
    from vlib.records import SPECS
    return SPECS


def directed(ctx, name, which):
    """replay on the real code: files of this record type (and what it
    refers to) until one is stored wrongly"""
    import numpy as np
    from vlib.conv import check_file
    from vlib.recgen import random_file, DEPENDS, Gen
    from vlib.siffile import Rec
    kinds = {'links': ('links',), 'rows': ('rows', 'names'),
             'flush': ('rows', 'links')}[which]
    if name not in load_specs_cached():
        return None
    rng = np.random.default_rng(ctx.seed + 77)
    for k in range(120):
        if name == 'HIERARCH':
            from checks import c03
            c03.hierarchies(ctx, rng, kinds, 2)
        else:
            ns = [name] + list(DEPENDS.get(name, ()))
            recs = random_file(rng, ns, nruns=3, cover=ns,
                               maxrun=int(rng.choice([1, 2, 5])))
            check_file(ctx, recs, k % 2 == 0, k, kinds,
                       'replay of a counterexample')
        if ctx.violations:
            return True
    return None


TRUSTED = [
    'infile contract: read_floats(n), read_floatrec, read_stringrec, '
    'read_headerrec and at_headerrec return the values, lines and headers '
    'of the file in order (bodies verified under C01 and C02)',
    'get_table(name) returns the table and the companion arrays of the '
    'type (evaluated for every type: obligations get_table/..)',
    'recdata.add/write and vldata.add/write store rows and companion values '
    'in order (bodies verified under C05)',
    'PyTables stores an appended row in the columns of its description and '
    'converts to the column type (int32: truncation; float32: rounding)',
    'numbers are mathematical reals; the values of a record are float32 '
    'numbers, integers in integer fields',
    'instrumentation (pyvc/inst.py): loops report to the loop rule, list and '
    'dict displays become SList/SDict, int/len/range/isinstance and numpy '
    'functions are replaced by versions accepting symbolic values',
    'z3, CPython',
]
