"""Sequences of symbolic length"""
import builtins
import z3
from . import core
from .core import (SNum, SInt, SReal, SBool, Unsupported, wrap, expr, arith,
                   subst, ite, veq, truth, sem)


def iexpr(v):
    """z3 Int expression"""
    e = arith(v)
    if e is None or not z3.is_int(e):
        raise Unsupported('%r as an index' % (v,))
    return e


class Map(object):
    """f(0) .. f(n-1)"""

    def __init__(self, n, f):
        self.n, self.f = iexpr(n), f

    def subst(self, p):
        f = self.f

        def g(i):
            # the index must not be captured
            j = z3.Int('cap!%d' % next_id())
            v = subst(f(j), p)
            return subst(v, [(j, iexpr(i))])
        return Map(z3.substitute(self.n, *p), g)

    def length(self):
        return self.n

    def at(self, i):
        return self.f(iexpr(i))


class Slice(Map):
    """values a .. a+n-1 of a stream (an object with at(i))"""

    def __init__(self, stream, a, n):
        self.stream, self.a, self.n = stream, iexpr(a), iexpr(n)

    def f(self, i):
        return self.stream.at(z3.simplify(self.a + iexpr(i)))

    def end(self):
        return z3.simplify(self.a + self.n)

    def subst(self, p):
        return Slice(self.stream, z3.simplify(z3.substitute(self.a, *p)),
                     z3.simplify(z3.substitute(self.n, *p)))


def equal(a, b):
    """a == b as a formula"""
    out = []
    for h, c in veq(a, b):
        if h:
            raise Unsupported('comparison of symbolic sequences')
        out.append(c)
    return z3.And(*out)


def member(p, v):
    """v is among the values of a part of a sequence"""
    if isinstance(p, tuple):
        return z3.Or(*[equal(x, v) for x in p])
    k = z3.Int('k!in%d' % next_id())
    if isinstance(p, Filt):
        c = z3.And(k >= 0, k < p.n, p.p(k), equal(p.v(k), v))
        return z3.Exists([k], c)
    if isinstance(p, Grid):
        p = p.cat()
    if isinstance(p, Map):
        c = equal(p.at(k), v)
        n = p.n
    elif isinstance(p, Cat):
        c = z3.Or(*[member(q, v) for q in p.f(k).parts])
        n = p.n
    else:
        raise Unsupported('membership in a symbolic sequence')
    # an enumeration: its members instead of their positions
    for d in getattr(core.ENG, 'doms', {}).values():
        if n.eq(d.LEN):
            c2 = z3.substitute(z3.simplify(c), (d.at(k), z3.Int('x!dom')))
            if not core.mentions(c2, k):
                x = z3.Int('x!in%d' % next_id())
                return z3.Exists([x], z3.And(d.pred(x), z3.substitute(
                    c2, (z3.Int('x!dom'), x))))
    return z3.Exists([k], z3.And(k >= 0, k < n, c))


class Grid(Map):
    """n sequences of m values g(k, j) one after the other"""

    def __init__(self, rows, m, g):
        self.rows, self.m, self.g = rows, m, g
        self.n = z3.simplify(rows*m)

    def f(self, i):
        return self.g(z3.simplify(i/self.m), z3.simplify(i % self.m))

    def subst(self, p):
        g = self.g

        def h(i, j):
            a, b = [z3.Int('cap!%d' % next_id()) for _ in '12']
            return subst(subst(g(a, b), p), [(a, iexpr(i)), (b, iexpr(j))])
        return Grid(z3.substitute(self.rows, *p), z3.substitute(
            self.m, *p), h)

    def cat(self):
        return Cat(self.rows, lambda k: Seq('list', (Map(
            self.m, lambda j: self.g(k, j)),)))


_ids = [0]


def next_id():
    _ids[0] += 1
    return _ids[0]


class Filt(object):
    """the v(k) with p(k), 0 <= k < n, in order"""

    def __init__(self, n, p, v):
        self.n, self.p, self.v = iexpr(n), p, v

    def length(self):
        k = z3.Int('k!count')
        c = z3.Function('count<%s>' % hashname(self.p(k)), z3.IntSort(),
                        z3.IntSort())
        return c(self.n)

    def subst(self, p):
        fp, fv = self.p, self.v

        def gp(i):
            j = z3.Int('cap!%d' % next_id())
            return z3.substitute(z3.substitute(fp(j), *p), (j, iexpr(i)))

        def gv(i):
            j = z3.Int('cap!%d' % next_id())
            return subst(subst(fv(j), p), [(j, iexpr(i))])
        return Filt(z3.substitute(self.n, *p), gp, gv)


class Cat(object):
    """the sequences f(0), .., f(n-1) one after the other"""

    def __init__(self, n, f):
        self.n, self.f = iexpr(n), f

    def length(self):
        c = z3.Function('total<%s>' % hashname(
            self.f(z3.Int('k!cat')).length()), z3.IntSort(), z3.IntSort())
        return c(self.n)

    def subst(self, p):
        f = self.f

        def g(i):
            j = z3.Int('cap!%d' % next_id())
            return subst(subst(f(j), p), [(j, iexpr(i))])
        return Cat(z3.substitute(self.n, *p), g)


def hashname(e):
    import hashlib
    return hashlib.md5(z3.simplify(e).sexpr().encode()).hexdigest()[:12]


class Seq(object):
    """immutable sequence: parts are tuples of values, Map or Filt"""

    def __init__(self, kind, parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                if not p:
                    continue
                if out and isinstance(out[-1], tuple):
                    out[-1] = out[-1] + p
                    continue
            if isinstance(p, Slice):
                if z3.is_int_value(p.n) and p.n.as_long() == 0:
                    continue
                if out and isinstance(out[-1], Slice) and \
                        out[-1].stream is p.stream and \
                        z3.simplify(out[-1].end() - p.a).eq(z3.IntVal(0)):
                    out[-1] = Slice(p.stream, out[-1].a, z3.simplify(
                        out[-1].n + p.n))
                    continue
            out.append(p)
        self.kind, self.parts = kind, tuple(out)

    @staticmethod
    def of(v, kind=None):
        if isinstance(v, Seq):
            return v if kind in (None, v.kind) else Seq(kind, v.parts)
        if isinstance(v, SList):
            return Seq(kind or 'list', v.seq.parts)
        if isinstance(v, (tuple, list)):
            return Seq(kind or type(v).__name__, (tuple(v),))
        if hasattr(v, 'as_seq'):
            return v.as_seq()
        return Seq(kind or 'other', ((v,),)) if False else _notseq(v)

    def simplify(self):
        """python tuple when the length is concrete"""
        if all(isinstance(p, tuple) for p in self.parts):
            t = sum(self.parts, ())
            return t if self.kind == 'tuple' else t
        return self

    def concrete(self):
        return all(isinstance(p, tuple) for p in self.parts)

    def items(self):
        return sum(self.parts, ())

    def length(self):
        n = z3.IntVal(0)
        for p in self.parts:
            n = n + (len(p) if isinstance(p, tuple) else p.length())
        return z3.simplify(n)

    def at(self, i):
        """element i, 0 <= i < length"""
        if self.concrete():
            t = self.items()
            if isinstance(i, int):
                return t[i]
            e = z3.simplify(iexpr(i))
            if z3.is_int_value(e):
                return t[e.as_long()]
            if not t:
                raise Unsupported('element of an empty sequence')
            v = t[-1]
            for j in builtins.range(len(t) - 2, -1, -1):
                v = ite(e == j, t[j], v)
            return v
        e = z3.simplify(iexpr(i))
        live = [p for p in self.parts]
        if len(live) == 1 and isinstance(live[0], Map):
            return live[0].at(e)
        pos = z3.IntVal(0)
        cands = []
        for p in live:
            if isinstance(p, (Filt, Cat)):
                raise Unsupported('element of a filtered sequence')
            n = len(p) if isinstance(p, tuple) else p.length()
            cands.append((pos, n, p))
            pos = z3.simplify(pos + n)

        def get(pos, p):
            j = z3.simplify(e - pos)
            return p.at(j) if isinstance(p, Map) else \
                Seq('tuple', (p,)).at(j)
        # decided without forking when the index is in one part
        for pos, n, p in cands:
            if core.ENG.must(z3.And(e >= pos, e < pos + n)):
                return get(pos, p)
        v = get(cands[-1][0], cands[-1][2])
        for pos, n, p in cands[-2::-1]:
            if isinstance(p, tuple) and len(p) > 1:
                for j in builtins.range(len(p) - 1, -1, -1):
                    v = ite(e == pos + j, p[j], v)
                # earlier indices belong to earlier parts
            else:
                v = ite(e < pos + n, get(pos, p), v)
        return v

    # -- python protocol
    def __len__(self):
        n = self.length()
        if z3.is_int_value(n):
            return n.as_long()
        return core.ENG.concretize(n)

    def __bool__(self):
        return core.ENG.decide(self.length() > 0)

    def index_(self, i):
        n = self.length()
        e = iexpr(i)
        if core.ENG.decide(z3.And(e >= 0, e < n)):
            return self.at(e)
        if core.ENG.decide(z3.And(e < 0, e >= -n)):
            return self.at(z3.simplify(e + n))
        raise sem(IndexError('index out of range'))

    def bounds(self, s):
        if s.step not in (None, 1):
            raise Unsupported('slice with a step')
        n = self.length()

        def clamp(x, d):
            if x is None:
                return d
            e = iexpr(x)
            if core.ENG.decide(e < 0):
                e = e + n
                if core.ENG.decide(e < 0):
                    return z3.IntVal(0)
                return z3.simplify(e)
            if core.ENG.decide(e > n):
                return n
            return z3.simplify(e)
        a = clamp(s.start, z3.IntVal(0))
        b = clamp(s.stop, n)
        return a, b

    def __getitem__(self, i):
        if isinstance(i, slice):
            return unseq(self.slice_(i))
        if self.concrete() and isinstance(i, int):
            try:
                return self.items()[i]
            except IndexError:
                raise sem(IndexError('index out of range'))
        return self.index_(i)

    def slice_(self, s):
        if self.concrete() and all(x is None or isinstance(x, int)
                                   for x in (s.start, s.stop, s.step)):
            return Seq(self.kind, (self.items()[s],))
        a, b = self.bounds(s)
        if z3.is_int_value(a) and self.parts and \
                isinstance(self.parts[0], tuple):
            # cut whole leading parts without a case split
            k = a.as_long()
            p = self.parts[0]
            if k <= len(p) and s.stop is None:
                return Seq(self.kind, (p[k:],) + self.parts[1:])
        if s.start is None and z3.is_int_value(b) and self.parts and \
                isinstance(self.parts[0], tuple) and \
                b.as_long() <= len(self.parts[0]):
            return Seq(self.kind, (self.parts[0][:b.as_long()],))
        n = z3.simplify(b - a)
        if core.ENG.decide(n <= 0):
            return Seq(self.kind, ())
        if len(self.parts) == 1 and isinstance(self.parts[0], Slice):
            q = self.parts[0]
            return Seq(self.kind, (Slice(q.stream, z3.simplify(q.a + a), n),))
        if z3.is_int_value(n) and n.as_long() <= 64:
            return Seq(self.kind, (tuple(self.at(z3.simplify(a + j))
                                   for j in builtins.range(n.as_long())),))
        return Seq(self.kind, (Map(n, lambda i: self.at(z3.simplify(a + i))),
                               ))

    def __add__(self, o):
        if not isinstance(o, (tuple, list, Seq, SList)):
            return NotImplemented
        o = Seq.of(o)
        if o.kind != self.kind:
            raise sem(TypeError('can only concatenate ' + self.kind))
        return unseq(Seq(self.kind, self.parts + o.parts))

    def __radd__(self, o):
        if not isinstance(o, (tuple, list)):
            return NotImplemented
        o = Seq.of(o)
        if o.kind != self.kind:
            raise sem(TypeError('can only concatenate ' + self.kind))
        return unseq(Seq(self.kind, o.parts + self.parts))

    def __mul__(self, n):
        if self.concrete() and isinstance(n, int):
            return unseq(Seq(self.kind, (self.items()*n,)))
        if self.concrete() and len(self.items()) == 1:
            v = self.items()[0]
            e = iexpr(n)
            return Seq(self.kind, (Map(z3.If(e > 0, e, 0), lambda i: v),))
        raise Unsupported('repeated sequence')
    __rmul__ = __mul__

    def __iter__(self):
        if self.concrete():
            return iter(self.items())
        n = z3.simplify(self.length())
        if not z3.is_int_value(n):
            raise Unsupported('iteration over a symbolic sequence outside '
                              'a loop')
        return iter([self.at(j) for j in builtins.range(n.as_long())])

    def __eq__(self, o):
        if not isinstance(o, (tuple, list, Seq, SList)):
            return False
        obs = veq(self, o)
        # fresh indices are universally quantified: only usable when trivial
        cs = []
        for h, c in obs:
            if h:
                raise Unsupported('comparison of symbolic sequences')
            cs.append(c)
        return wrap(z3.And(*cs)) if cs else True

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported('hash of a symbolic sequence')

    def __contains__(self, v):
        if self.concrete():
            return any(bool(x == v) for x in self.items())
        return core.ENG.decide(z3.Or(*[member(p, v) for p in self.parts]))

    def subst(self, p):
        return Seq(self.kind, tuple(
            tuple(subst(x, p) for x in q) if isinstance(q, tuple)
            else q.subst(p) for q in self.parts))

    def ite_with(self, c, o):
        o = Seq.of(o)
        n = z3.simplify(z3.If(c, self.length(), o.length()))
        return Seq(self.kind, (Map(n, lambda i: ite(
            c, self.at(i), o.at(i))),))

    def eq_obligations(self, o):
        a, b = self, Seq.of(o)
        pa = [p for p in a.parts if isinstance(p, tuple) or not
              z3.is_true(z3.simplify(p.n == 0))]
        pb = [p for p in b.parts if isinstance(p, tuple) or not
              z3.is_true(z3.simplify(p.n == 0))]
        if any(isinstance(p, (Filt, Cat)) for p in pa + pb):
            if len(pa) != len(pb):
                raise Unsupported('filtered sequences of other structure')
            out = []
            for x, y in zip(pa, pb):
                if isinstance(x, Filt) and isinstance(y, Filt):
                    k = core.ENG.fresh(z3.IntSort(), 'k')
                    h = [k >= 0, k < x.n]
                    out.append(([], x.n == y.n))
                    out.append((h, x.p(k) == y.p(k)))
                    for hy, c in veq(x.v(k), y.v(k)):
                        out.append((h + [x.p(k)] + hy, c))
                elif isinstance(x, Cat) and isinstance(y, Cat):
                    k = core.ENG.fresh(z3.IntSort(), 'k')
                    h = [k >= 0, k < x.n]
                    out.append(([], x.n == y.n))
                    for hy, c in x.f(k).eq_obligations(y.f(k)):
                        out.append((h + hy, c))
                elif isinstance(x, (Filt, Cat)) or isinstance(y, (Filt,
                                                                  Cat)):
                    raise Unsupported('filtered sequences of other '
                                      'structure')
                else:
                    out += Seq('t', (x,)).eq_obligations(Seq('t', (y,)))
            return out
        if all(isinstance(p, tuple) for p in pa + pb):
            x, y = sum(pa, ()), sum(pb, ())
            if len(x) != len(y):
                return [([], z3.BoolVal(False))]
            out = []
            for u, v in zip(x, y):
                out += veq(u, v)
            return out
        n, m = a.length(), b.length()
        out = [([], n == m)]
        if z3.is_true(z3.simplify(z3.Or(n == 0, m == 0))):
            return out
        k = core.ENG.fresh(z3.IntSort(), 'k')
        h = [k >= 0, k < n, k < m]
        core.ENG.push_level()
        try:
            for c in h:
                core.ENG.assume(c)
            x, y = a.at(k), b.at(k)
            sub = veq(x, y)
        finally:
            core.ENG.pop_level()
        for hy, c in sub:
            out.append((h + hy, c))
        return out

    def __repr__(self):
        return '%s%s' % (self.kind, [p if isinstance(p, tuple) else
                                     '%s#%s' % (type(p).__name__, p.n)
                                     for p in self.parts])


def _notseq(v):
    raise Unsupported('%s as a sequence' % type(v).__name__)


def unseq(s):
    """python tuple / SList when concrete"""
    if s.kind == 'list':
        return SList(s)
    if s.kind == 'tuple' and s.concrete():
        return s.items()
    return s


class SList(object):
    """mutable list"""

    def __init__(self, seq=()):
        self.seq = Seq.of(seq, 'list') if not isinstance(seq, Seq) else \
            Seq('list', seq.parts)
        if core.ENG is not None:
            core.ENG.heap.append(self)

    # heap cell
    def get_state(self):
        return self.seq

    def set_state(self, s):
        self.seq = s

    def append(self, v):
        self.seq = Seq('list', self.seq.parts + ((v,),))

    def extend(self, o):
        self.seq = Seq('list', self.seq.parts + iterable_seq(o).parts)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, (list, SList)) and not (
                isinstance(o, Seq) and o.kind == 'list'):
            return NotImplemented
        return SList(Seq('list', self.seq.parts + Seq.of(o).parts))

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return SList(Seq('list', (tuple(o),) + self.seq.parts))

    def __mul__(self, n):
        return SList(Seq.of(self.seq*n))
    __rmul__ = __mul__

    def insert(self, i, v):
        if i == 0:
            self.seq = Seq('list', ((v,),) + self.seq.parts)
            return
        raise Unsupported('insert')

    def pop(self, i=-1):
        s = self.seq
        if s.concrete():
            t = list(s.items())
            if not t:
                raise sem(IndexError('pop from empty list'))
            v = t.pop(i)
            self.seq = Seq('list', (tuple(t),))
            return v
        raise Unsupported('pop')

    def index(self, v):
        for j, x in enumerate(self.seq.items()):
            if x == v:
                return j
        raise sem(ValueError('not in list'))

    def reverse(self):
        if not self.seq.concrete():
            raise Unsupported('reverse')
        self.seq = Seq('list', (self.seq.items()[::-1],))

    def sort(self, *a, **k):
        if not self.seq.concrete():
            raise Unsupported('sort')
        self.seq = Seq('list', (tuple(sorted(self.seq.items(), *a, **k)),))

    def remove(self, v):
        j = self.index(v)
        t = self.seq.items()
        self.seq = Seq('list', (t[:j] + t[j+1:],))

    def copy(self):
        return SList(self.seq)

    def count(self, v):
        return sum(1 for x in self.seq.items() if x == v)

    def __len__(self):
        return len(self.seq)

    def __bool__(self):
        return bool(self.seq)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.seq.concrete():
                return SList(Seq('list', (self.seq.items()[i],)))
            return SList(self.seq.slice_(i))
        return self.seq[i]

    def __setitem__(self, i, v):
        if not self.seq.concrete():
            raise Unsupported('item assignment in a symbolic list')
        t = list(self.seq.items())
        t[i] = v
        self.seq = Seq('list', (tuple(t),))

    def __delitem__(self, i):
        if not self.seq.concrete():
            raise Unsupported('item deletion in a symbolic list')
        t = list(self.seq.items())
        del t[i]
        self.seq = Seq('list', (tuple(t),))

    def __iter__(self):
        return iter(self.seq)

    def __contains__(self, v):
        return v in self.seq

    def __eq__(self, o):
        if not isinstance(o, (list, SList)):
            return False
        return self.seq == Seq.of(o)

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        raise sem(TypeError('unhashable type'))

    def subst(self, p):
        return self.seq.subst(p)

    def ite_with(self, c, o):
        return self.seq.ite_with(c, o)

    def __repr__(self):
        return 'SList(%r)' % (self.seq,)


class SDict(object):
    """dictionary; keys compared by (possibly symbolic) equality"""

    def __init__(self, items=()):
        self.d = tuple(items)
        if core.ENG is not None:
            core.ENG.heap.append(self)

    def get_state(self):
        return self.d

    def set_state(self, d):
        self.d = d

    def _find(self, k):
        for j, (x, v) in enumerate(self.d):
            if keyeq(x, k):
                return j
        return None

    def __getitem__(self, k):
        j = self._find(k)
        if j is None:
            raise sem(KeyError(k))
        return self.d[j][1]

    def get(self, k, d=None):
        j = self._find(k)
        return d if j is None else self.d[j][1]

    def setdefault(self, k, d=None):
        j = self._find(k)
        if j is None:
            self[k] = d
            return d
        return self.d[j][1]

    def __setitem__(self, k, v):
        j = self._find(k)
        if j is None:
            self.d = self.d + ((k, v),)
        else:
            self.d = self.d[:j] + ((self.d[j][0], v),) + self.d[j+1:]

    def __delitem__(self, k):
        j = self._find(k)
        if j is None:
            raise sem(KeyError(k))
        self.d = self.d[:j] + self.d[j+1:]

    def pop(self, k, *d):
        j = self._find(k)
        if j is None:
            if d:
                return d[0]
            raise sem(KeyError(k))
        v = self.d[j][1]
        del self[k]
        return v

    def __contains__(self, k):
        return self._find(k) is not None

    def keys(self):
        return [k for k, _ in self.d]

    def values(self):
        return [v for _, v in self.d]

    def items(self):
        return list(self.d)

    def update(self, o=(), **kw):
        for k, v in (o.items() if hasattr(o, 'items') else o):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.d = ()

    def copy(self):
        return SDict(self.d)

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.keys())

    def __bool__(self):
        return bool(self.d)

    def __eq__(self, o):
        return isinstance(o, (dict, SDict)) and dict(self.d) == \
            dict(o.items())

    def __hash__(self):
        raise sem(TypeError('unhashable type'))


def keyeq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(keyeq(x, y) for x, y in zip(a, b))
    r = a == b
    return bool(r) if r is not NotImplemented else False


class SSet(object):
    """set with symbolic members"""

    def __init__(self, items=()):
        self.s = ()
        if core.ENG is not None:
            core.ENG.heap.append(self)
        for x in items:
            self.add(x)

    def get_state(self):
        return self.s

    def set_state(self, s):
        self.s = s

    def add(self, v):
        if v not in self:
            self.s += (v,)

    def __contains__(self, v):
        return any(keyeq(x, v) for x in self.s)

    def __iter__(self):
        return iter(self.s)

    def __len__(self):
        return len(self.s)

    def update(self, o):
        for x in o:
            self.add(x)

    def discard(self, v):
        self.s = tuple(x for x in self.s if not keyeq(x, v))

    def remove(self, v):
        if v not in self:
            raise sem(KeyError(v))
        self.discard(v)

    def __or__(self, o):
        return SSet(tuple(self) + tuple(o))

    def __and__(self, o):
        return SSet(x for x in self if x in o)

    def __sub__(self, o):
        return SSet(x for x in self if x not in o)


def iterable_seq(o):
    if isinstance(o, (Seq, SList, tuple, list)):
        return Seq.of(o)
    if hasattr(o, 'as_seq'):
        return o.as_seq()
    return Seq('list', (tuple(o),))


class SRange(object):
    """range with symbolic bounds (step concrete)"""

    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = iexpr(a), iexpr(b), step

    def count(self):
        a, b, s = self.a, self.b, self.step
        if s == 1:
            n = b - a
        elif s > 1:
            n = (b - a + (s - 1))/s
        elif s < 0:
            n = (a - b + (-s - 1))/(-s)
        return z3.simplify(z3.If(n > 0, n, 0))

    def as_seq(self):
        return Seq('list', (Map(self.count(), lambda i: wrap(
            self.a + self.step*i)),))

    def __len__(self):
        return len(self.as_seq())

    def __iter__(self):
        return iter(self.as_seq())

    def __getitem__(self, i):
        return self.as_seq()[i]

    def __contains__(self, v):
        e = iexpr(v)
        if self.step != 1:
            raise Unsupported('membership in a range')
        return core.ENG.decide(z3.And(e >= self.a, e < self.b))
