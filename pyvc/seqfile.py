"""Contracts of FormattedFile and UnformattedFile (C01, C02).

The file is a sequence of units (lines or blocks).  Of one record: its header
is unit -1, the body units 0..B-1 hold P(b+1)-P(b) values each, unit B is the
header of the next record.  P(0)=0, P(B)=L, the values are V(0)..V(L-1).
Formatted: four values per line, the last line may be shorter.  Unformatted:
any number per block (up to 30 after 8 blanks for input records, up to 32
otherwise); the length byte of a block of 128 bytes is 128 or 129.

Class invariant: the values taken from the file but not yet delivered are
V(c)..V(P(u)-1), u the next unit, c the number of values delivered.
read_floats(n) returns V(c)..V(c+n-1) and leaves the invariant with c+n, for
all n, c, L, P: so any split into requests gives the same values, from any
split into units, in both kinds of file.
"""
import re
import z3
from . import core, inst, seq, shims
from .core import SReal, SInt, Unsupported, PathEnd, wrap, sem, Poison
from .seq import Seq, SList, Slice, Map, iexpr
from .strs import SStr

FILES = 'freesif/sequentialparser/sequentialfiles.py'
Z, R = z3.IntSort(), z3.RealSort()


class Stream(object):
    def __init__(self, V):
        self.V = V

    def at(self, i):
        return SReal(self.V(z3.simplify(iexpr(i))))


class World(object):
    """the file around one record"""

    def __init__(self, e, binary, kind, text=0, hn=4):
        self.e, self.binary, self.kind = e, binary, kind
        self.hn = hn                # values on the head
        self.text = text            # body units are text lines
        self.L, self.B = z3.Const('L', Z), z3.Const('B', Z)
        self.V = z3.Function('V', Z, R)
        self.stream = Stream(self.V)
        e.assume(self.L >= 0)
        e.assume(self.B >= 0)
        self.Pf = z3.Function('P', Z, Z)
        if text:
            e.assume(self.L == 0)
        elif not binary:
            e.assume(self.B == (self.L + 3)/4)
        self.name = {-1: z3.Const('NAME', z3.StringSort()),
                     0: z3.Const('NEXTNAME', z3.StringSort())}
        self.H = {-1: tuple(wrap(z3.Const('h%d' % j, R)) for j in range(hn)),
                  0: tuple(wrap(z3.Const('hn%d' % j, R)) for j in range(4))}
        for x in self.name.values():
            e.assume(z3.Length(x) > 0)
            e.assume(z3.Length(x) <= 8)
        e.place = self
        self.f = File(self)
        self.obj, self.cell = self.f, 'u'
        e.track(self.f, 'u', 'phase', 'line')
        self.at(z3.IntVal(0))
        self.at(self.B)

    # the Engine's "place of reading"
    def at(self, u):
        """P(u)"""
        u = z3.simplify(iexpr(u))
        if self.text:
            return z3.IntVal(0)
        if not self.binary:
            return z3.simplify(z3.If(4*u <= self.L, 4*u, self.L))
        P, L, B, a = self.Pf, self.L, self.B, self.e.assume
        w = 30 if self.kind == 't1' else 32
        a(z3.Implies(u <= 0, P(u) == 0))
        a(z3.Implies(u >= B, P(u) == L))
        a(z3.Implies(z3.And(u >= 0, u < B), z3.And(
            P(u) >= 0, P(u) < P(u + 1), P(u + 1) <= L, P(u) < L,
            P(u + 1) <= P(u) + w)))
        if True:
            a(z3.Implies(z3.And(u >= 1, u <= B), P(u) >= 1))
        return P(u)

    def width(self, u):
        return z3.simplify(self.at(z3.simplify(u + 1)) - self.at(u))

    def where(self, u):
        """-1 own header, 'body', 0 next header"""
        d = self.e.decide
        if d(z3.And(u >= 0, u < self.B)):
            return 'body'
        if d(u == self.B):
            return 0
        if d(u == -1):
            return -1
        self.e.fail('reading stays within the record')
        raise PathEnd()


class Token(object):
    def __init__(self, *k):
        self.k = k


class File(object):
    """contract of the file object"""

    def __init__(self, w):
        self.w = w
        self.u = -1
        self.phase = 0
        self.line = 0

    @property
    def binary(self):
        return self.w.binary

    def need(self, name, c):
        if not self.w.e.prove(name, c):
            raise PathEnd()

    def readline(self):
        if self.binary:
            raise Unsupported('readline on a binary file')
        u = self.u
        self.need('reading stays within the record', z3.And(
            iexpr(u) >= -1, iexpr(u) <= self.w.B))
        self.u = wrap(iexpr(u) + 1)
        return Unit(self.w, iexpr(u), nl=True)

    def __next__(self):
        return self.readline()

    def tell(self):
        return Token(self.u, self.phase)

    def seek(self, t, whence=0):
        if isinstance(t, Token):
            self.u, self.phase = t.k
        elif t in (0, 1) and whence == 0:
            self.u, self.phase = -1, 0
        else:
            raise Unsupported('seek')

    def read(self, n):
        u = iexpr(self.u)
        if not self.binary:
            if n == 8:
                self.u = None           # until the next seek
                return Name(self.w, u)
            raise Unsupported('read(%r)' % (n,))
        if self.phase == 0:
            self.need('reading stays within the record', z3.And(
                u >= -1, u <= self.w.B))
            if isinstance(n, int) and n == 1:
                self.phase = 1
                return LenByte(self.w, u)
            if isinstance(n, int) and n == 9:
                self.u = None
                return Peek(self.w, u)
        elif self.phase == 1:
            self.need('a block is read as a whole',
                      iexpr(n) == Unit(self.w, u).bytes())
            self.phase = 2
            return Unit(self.w, u)
        elif self.phase == 2 and isinstance(n, int) and n == 1:
            self.phase = 0
            self.u = wrap(u + 1)
            return LenByte(self.w, u)
        raise Unsupported('read(%r)' % (n,))

    def close(self):
        pass


class LenByte(object):
    def __init__(self, w, u):
        self.w, self.u = w, u

    def value(self):
        n = Unit(self.w, self.u).bytes()
        v = z3.Function('lenbyte', Z, Z)(self.u)
        self.w.e.assume(z3.Or(v == n, z3.And(n == 128, v == 129)))
        return wrap(v)

    def __getitem__(self, i):
        if i in (0, -1):
            return self.value()
        raise Unsupported('index')


class Peek(object):
    """length byte and the first 8 bytes of a block"""

    def __init__(self, w, u):
        self.w, self.u = w, u

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start == 1 and i.stop in (None, 9):
            return Name(self.w, self.u)
        raise Unsupported('slice of a block')


class Name(object):
    """first 8 characters of a unit"""

    def __init__(self, w, u, kind=None):
        self.w, self.u = w, u
        self.kind = kind or ('bytes' if w.binary else 'str')

    @property
    def place(self):
        return self.w.where(self.u)

    def strip(self, *a):
        if a:
            raise Unsupported('strip')
        p = self.place
        if p == 'body':
            if self.w.text:
                raise Unsupported('text line as a record name')
            if self.w.binary and self.w.kind != 't1':
                return Garbage(self.kind)
            return '' if self.kind == 'str' else b''
        return SStr(self.w.name[p], self.kind)

    def decode(self, *a):
        if self.kind != 'bytes':
            raise sem(AttributeError('decode'))
        return Name(self.w, self.u, 'str')

    def __eq__(self, o):
        if isinstance(o, (str, bytes)) and o.strip() == o[:0] and len(o) == 8:
            if type(o).__name__ != self.kind:
                return False
            p = self.place
            if p != 'body':
                return False
            if self.w.text:
                raise Unsupported('text line as a record name')
            return not (self.w.binary and self.w.kind != 't1')
        raise Unsupported('comparison of a name')

    def __ne__(self, o):
        return not self == o

    def isspace(self):
        return self == (b'        ' if self.kind == 'bytes' else '        ')

    def __hash__(self):
        raise Unsupported('hash')

    def __len__(self):
        return 8

    def startswith(self, o):
        return self == o

    def __bool__(self):
        return True


class Garbage(object):
    """bytes of numbers (no record name by assumption)"""

    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __hash__(self):
        return id(self)

    def decode(self, *a):
        raise Unsupported('decoding numbers')


class Allowed(object):
    """the set of record names"""

    def __init__(self, kind):
        self.kind = kind

    def __contains__(self, x):
        if isinstance(x, SStr):
            return x.kind == self.kind      # names on file are allowed names
        if isinstance(x, (str, bytes)) and not x.strip():
            return False
        if isinstance(x, (Garbage, Name)):
            return False
        raise Unsupported('membership')


class Unit(object):
    """one line (with or without its line break) or block"""

    def __init__(self, w, u, off=0, nl=False):
        self.w, self.u, self.off, self.nl = w, iexpr(u), off, nl

    def vc_num(self):
        return self.u, lambda e: Unit(self.w, e, self.off, self.nl)

    def bytes(self):
        """length of the data"""
        w, p = self.w, self.w.where(self.u)
        if p != 'body':
            n = len(w.H[p])
            return z3.IntVal(8 + 4*n if w.binary else 8 + 16*n)
        if w.text:
            n = z3.Function('textlen', Z, Z)(self.u)
            w.e.assume(z3.And(n >= 0, n <= 128))
            return n
        k = w.width(self.u)
        if w.binary:
            return z3.simplify(4*k + (8 if w.kind == 't1' else 0))
        return z3.simplify(8 + 16*k)

    def sym_len(self):
        if self.nl:
            raise Unsupported('length with the line break')
        return wrap(z3.simplify(self.bytes() - self.off))

    def rstrip(self, c=None):
        if c not in ('\n', '\r\n', '\n\r'):
            raise Unsupported('rstrip')
        return Unit(self.w, self.u, self.off, False)

    def splitlines(self):
        return [Unit(self.w, self.u, self.off, False)]

    def lead(self):
        """characters before the values"""
        p = self.w.where(self.u)
        return 8 if p != 'body' or not self.w.binary or \
            self.w.kind == 't1' else 0

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step is not None:
            raise Unsupported('index of a line')
        a, b = i.start, i.stop
        if self.off == 0 and a in (None, 0) and isinstance(b, int) and \
                b == 8:
            return Name(self.w, self.u)
        if b is None and isinstance(a, int):
            if self.w.text and self.w.where(self.u) == 'body':
                raise Unsupported('part of a text line')
            return Unit(self.w, self.u, self.off + a, self.nl)
        if not self.w.binary and self.off == 8 and not self.nl:
            return Field(self, iexpr(0 if a is None else a), iexpr(b))
        raise Unsupported('slice of a line')

    def values(self):
        """the numbers of a unit from which what precedes them is cut"""
        w, p = self.w, self.w.where(self.u)
        if w.kind == 'neg' and p == 'body':
            return Seq('tuple', (Slice(w.stream, w.at(self.u),
                                       w.width(self.u)),))
        if self.off != self.lead():
            w.e.fail('numbers start after the leading characters')
            raise PathEnd()
        if p != 'body':
            return Seq('tuple', (w.H[p],))
        if w.text:
            raise Unsupported('text as numbers')
        return Seq('tuple', (Slice(w.stream, w.at(self.u), w.width(self.u)),))

    def eq_obligations(self, o):
        ok = isinstance(o, Unit) and o.off == self.off and o.nl == self.nl
        return [([], o.u == self.u if ok else z3.BoolVal(False))]

    def __eq__(self, o):
        raise Unsupported('comparison of a line')

    def __hash__(self):
        raise Unsupported('hash')


class Field(object):
    """characters a..b of the numbers on a line"""

    def __init__(self, unit, a, b):
        self.unit, self.a, self.b = unit, a, b

    def sym_float(self):
        un = self.unit
        w, p = un.w, un.w.where(un.u)
        n = z3.IntVal(len(w.H[p])) if p != 'body' else w.width(un.u)
        q = w.e.concretize(z3.simplify(self.a/16))
        w.e.prove('a number is read from its 16 columns', z3.And(
            self.a == 16*q, self.b == 16*q + 16, z3.IntVal(q) < n))
        if p != 'body':
            if q >= len(w.H[p]):
                raise PathEnd()
            return w.H[p][q]
        return w.stream.at(z3.simplify(w.at(un.u) + q))

    def strip(self, *a):
        return self


class Struct(object):
    """contract of struct.unpack for single precision numbers and bytes"""

    def unpack(self, fmt, data):
        if fmt in ('B', '<B', '=B', '>B') and isinstance(data, LenByte):
            return (data.value(),)
        if not isinstance(data, Unit):
            raise Unsupported('unpack')
        m = re.match('^[<=@]?(.*)f$', fmt, re.S)
        if not m:
            raise Unsupported('unpack %r' % fmt)
        k = m.group(1)
        if k in core.ENG.tokens:
            n = iexpr(core.ENG.tokens[k][0])
        elif k.isdigit():
            n = z3.IntVal(int(k))
        else:
            raise Unsupported('unpack %r' % fmt)
        v = data.values()
        if not data.w.e.prove('all values of a block are read',
                              n == v.length()):
            raise PathEnd()
        return v if not v.concrete() else v.items()

    def calcsize(self, fmt):
        import struct
        return struct.calcsize(fmt)


class IO(object):
    def __init__(self, w):
        self.w = w

    def open(self, name, mode='r', *a, **k):
        if ('b' in mode) != self.w.binary:
            self.w.e.fail('file opened in the right mode')
            raise PathEnd()
        return self.w.f


def attrs(o):
    """(attribute holding undelivered values, attribute saying there are)"""
    s = [k for k, v in vars(o).items() if isinstance(v, (Seq, tuple, SList))]
    b = [k for k, v in vars(o).items()
         if isinstance(v, (bool, core.SBool))]
    if len(s) != 1 or len(b) > 1:
        raise Unsupported('state of the file object')
    return s[0], (b[0] if b else None)


class Case(object):
    """one path"""

    def __init__(self, e, mod, glob, cls, kind, text=0, hn=4):
        self.e = e
        mod.__dict__.clear()
        mod.__dict__.update(glob)
        self.mod = mod
        self.w = w = World(e, cls == 'UnformattedFile', kind, text, hn)
        mod.struct = Struct()
        mod.io = IO(w)
        mod.open = IO(w).open
        shims.replace_math(mod)
        c = getattr(mod, cls)
        self.o = o = c('name')
        e.on_refute = self.concrete
        for k, v in list(vars(o).items()):
            if isinstance(v, (set, frozenset, seq.SSet)) or k.startswith(
                    'allowed'):
                x = next(iter(v))
                setattr(o, k, Allowed(type(x).__name__))

    def concrete(self, e, model):
        """values of the counterexample"""
        w = self.w

        def val(x):
            v = model.eval(x, True)
            return v.as_long() if z3.is_int_value(v) else None
        out = {k: val(z3.Const(k, Z)) for k in ('L', 'B', 'u', 'c', 'n')}
        if w.binary and out['B'] is not None and 0 <= out['B'] <= 2000:
            out['P'] = [val(w.Pf(z3.IntVal(j)))
                        for j in range(out['B'] + 1)]
        out['values on the head'] = [str(model.eval(x.e, True))
                                     for x in w.H[-1]]
        return out

    def header(self):
        """up to the first value of the record"""
        w = self.w
        w.f.u, w.f.phase = -1, 0
        return self.o.read_headerrec()

    def settle(self, names):
        """the state becomes part of the state of loops"""
        if names[1] is not None and not hasattr(self.o, names[0]):
            setattr(self.o, names[0], Poison('values never kept'))
        self.e.track(self.o, *[n for n in names if n])

    def havoc(self, names):
        """arbitrary reachable state: unit u, c values delivered"""
        e, w, o = self.e, self.w, self.o
        s, b = names
        u, c = z3.Const('u', Z), z3.Const('c', Z)
        e.assume(z3.And(u >= 0, u <= w.B, c >= 0))
        p = w.at(u)
        e.assume(c <= p)
        w.f.u, w.f.phase = wrap(u), 0
        e.track(o, *[n for n in names if n])
        if b is not None:
            if e.decide(c == p):
                setattr(o, b, False)
                setattr(o, s, Poison('values kept from an earlier request'))
            else:
                setattr(o, b, True)
                setattr(o, s, Seq('tuple', (Slice(w.stream, c, p - c),)))
        else:
            setattr(o, s, Seq('tuple', (Slice(w.stream, c, p - c),)))
        return u, c

    def invariant(self, what, names, c):
        e, w, o = self.e, self.w, self.o
        s, b = names
        u = w.f.u
        e.prove(what + ': at the start of a unit',
                z3.BoolVal(w.f.phase == 0 and u is not None))
        if u is None:
            raise PathEnd()
        p = w.at(u)
        e.prove(what + ': stays in the record', z3.And(
            iexpr(u) >= 0, iexpr(u) <= w.B))
        want = Seq('tuple', (Slice(w.stream, c, z3.simplify(p - c)),))
        if b is not None:
            flag = getattr(o, b)
            if e.decide(core.truth(flag)):
                e.prove(what + ': there are values left', c < p)
                e.prove_eq(what + ': values left', Seq.of(getattr(o, s)),
                           want)
            else:
                e.prove(what + ': no values left', c == p)
        else:
            e.prove_eq(what + ': values left', Seq.of(getattr(o, s)), want)


class Probe(object):
    """names of the attributes that hold the state"""
    cache = {}


def state_names(e, mod, glob, cls, kind):
    """found by a request that leaves something over"""
    out = []

    def path():
        t = Case(e, mod, glob, cls, kind)
        t.header()
        t.o.read_floatrec = contract_floatrec(t)
        e.assume(t.w.L >= 2)
        t.e.assume(t.w.at(z3.IntVal(1)) >= 2)
        t.o.read_floats(1, 8 if kind == 't1' else 0)
        out.append(attrs(t.o))
        raise PathEnd()
    n = len(e.obs)
    e.explore(path)
    del e.obs[n:]
    if not out or any(x != out[0] for x in out):
        raise Unsupported('state of the file object')
    return out[0]


def contract_floatrec(t):
    """read_floatrec by contract: the values of the next unit; what was left
    of earlier units is dropped"""
    w, o = t.w, t.o

    def read_floatrec(skipfirst=0):
        u = iexpr(w.f.u)
        f = w.f
        w.at(u)
        f.need('reading stays within the record',
               z3.And(u >= 0, u < w.B))
        if w.binary:
            f.need('leading blanks are skipped', z3.BoolVal(
                skipfirst == (8 if w.kind == 't1' else 0)))
        b = [k for k, v in vars(o).items()
             if isinstance(v, (bool, core.SBool))]
        for k in b:
            object.__setattr__(o, k, False)
        v = Seq('tuple', (Slice(w.stream, w.at(u), w.width(u)),))
        f.u = wrap(u + 1)
        return v
    return read_floatrec


def verify(cls, kind):
    mod = inst.load(FILES)
    glob = dict(mod.__dict__)
    e = core.Engine('%s, %s' % (cls, {'t1': 'input records', 't2':
                                      'results records'}[kind]),
                    timeout=10000)
    skip = 8 if kind == 't1' else 0
    names = state_names(e, mod, glob, cls, kind)

    def case(f, what, cover=True):
        def path():
            t = Case(e, mod, glob, cls, kind)
            try:
                f(t, what)
            except Exception as ex:
                if getattr(ex, 'semantic', False):
                    e.fail(what + ': no exception', repr(ex)[:80])
                    return
                raise
            e.cover(what)
        e.explore(path)

    def pend_free(t, what, c):
        t.invariant(what, names, c)

    # header: of this record, and of the next one from any state
    def own(t, what):
        nm, h = t.header()
        e.prove(what + ': name', z3.And(
            z3.BoolVal(isinstance(nm, SStr) and nm.kind == 'str'),
            nm.e == t.w.name[-1]) if isinstance(nm, SStr)
            else z3.BoolVal(False))
        e.prove_eq(what + ': values', h, t.w.H[-1])
        empty(t, what)

    def empty(t, what):
        """nothing is left over"""
        s, b = names
        if b is not None:
            e.prove(what + ': nothing left over', z3.Not(core.truth(
                getattr(t.o, b))))
        else:
            e.prove(what + ': nothing left over', Seq.of(getattr(
                t.o, s)).length() == 0)

    def next_header(t, what):
        t.havoc(names)
        e.assume(iexpr(t.w.f.u) == t.w.B)
        t.w.f.u = wrap(t.w.B)
        nm, h = t.o.read_headerrec()
        e.prove(what + ': name', nm.e == t.w.name[0]
                if isinstance(nm, SStr) else z3.BoolVal(False))
        e.prove_eq(what + ': values', h, t.w.H[0])
        e.prove(what + ': behind the header', z3.And(
            iexpr(t.w.f.u) == t.w.B + 1, z3.BoolVal(t.w.f.phase == 0)))
        empty(t, what)

    def floatrec(t, what):
        u, c = t.havoc(names)
        e.assume(u < t.w.B)
        p = t.w.at(u)
        if not t.w.binary:
            e.concretize(t.w.width(u))
        r = t.o.read_floatrec(skip)
        p2 = t.w.at(z3.simplify(u + 1))
        e.prove(what + ': next unit', iexpr(t.w.f.u) == u + 1)
        e.prove_eq(what + ': values', Seq.of(r), Seq('tuple', (
            Slice(t.w.stream, p, z3.simplify(p2 - p)),)))
        empty(t, what)

    def stringrec(t, what):
        u, c = t.havoc(names)
        e.assume(u < t.w.B)
        r = t.o.read_stringrec()
        e.prove(what + ': next unit', iexpr(t.w.f.u) == u + 1)
        e.prove_eq(what + ': text', r, Unit(t.w, u))
        empty(t, what)

    def floats(t, what):
        u, c = t.havoc(names)
        t.o.read_floatrec = contract_floatrec(t)
        n = z3.Const('n', Z)
        e.assume(z3.And(n >= 0, c + n <= t.w.L))
        r = t.o.read_floats(wrap(n), skip)
        e.prove_eq(what + ': values', Seq('tuple', Seq.of(r).parts),
                   Seq('tuple', (Slice(t.w.stream, c, n),)))
        t.invariant(what, names, z3.simplify(c + n))

    def first(t, what):
        t.header()
        t.o.read_floatrec = contract_floatrec(t)
        n = z3.Const('n', Z)
        e.assume(z3.And(n >= 0, n <= t.w.L))
        r = t.o.read_floats(wrap(n), skip)
        e.prove_eq(what + ': values', Seq('tuple', Seq.of(r).parts),
                   Seq('tuple', (Slice(t.w.stream, z3.IntVal(0), n),)))
        if e.decide(n > 0):
            t.invariant(what, names, n)
        else:
            empty(t, what)

    def athead(t, what):
        u, c = t.havoc(names)
        r = t.o.at_headerrec()
        e.prove(what, core.truth(r) == (c == t.w.L))
        t.invariant(what, names, c)
        e.prove(what + ': nothing is read', iexpr(t.w.f.u) == u)

    case(own, 'read_headerrec, first')
    case(next_header, 'read_headerrec')
    case(stringrec, 'read_stringrec')
    case(floatrec, 'read_floatrec')
    case(first, 'read_floats, first request')
    case(floats, 'read_floats')
    if kind == 't1':
        case(athead, 'at_headerrec')
    return e


def short(cls='FormattedFile'):
    """records of less than four values"""
    mod = inst.load(FILES)
    glob = dict(mod.__dict__)
    es = []
    for hn in range(4):
        e = core.Engine('%s, record of %d values' % (cls, hn), timeout=10000)

        def path():
            t = Case(e, mod, glob, cls, 't1', hn=hn)
            e.assume(t.w.L == 0)
            try:
                nm, h = t.header()
                more = t.o.read_floats(0)
            except Exception as ex:
                if getattr(ex, 'semantic', False):
                    e.fail('read_headerrec: no exception', repr(ex)[:80])
                    return
                raise
            e.prove('name', nm.e == t.w.name[-1] if isinstance(nm, SStr)
                    and nm.kind == 'str' else z3.BoolVal(False))
            e.prove_eq('values', Seq('tuple', Seq.of(h).parts),
                       Seq('tuple', (t.w.H[-1],) if hn else ()))
            e.prove('no further values', Seq.of(more).length() == 0)
            e.prove('at the next line', iexpr(t.w.f.u) == 0)
            e.cover('end')
        e.explore(path)
        es.append(e)
    return es


def names():
    """the names that are recognised as headers (evaluated)"""
    from vlib.records import SPECS, UNKNOWN_T1, UNKNOWN_T2
    mod = inst.load(FILES)
    e = core.Engine('record names')
    cls = {'str': mod.FormattedFile, 'bytes': mod.UnformattedFile}
    sets = {}

    class F(object):
        def open(self, *a, **k):
            return self

        def seek(self, *a):
            pass
    mod.io = F()
    for k, c in cls.items():
        vs = [v for v in vars(c('x')).values()
              if isinstance(v, (set, frozenset, dict))]
        if len(vs) != 1:
            raise Unsupported('set of record names')
        sets[k] = set(vs[0])

    def path():
        b = {n.decode() if isinstance(n, bytes) else None
             for n in sets['bytes']}
        e.prove('the same names in both kinds of files',
                z3.BoolVal(b == sets['str']))
        for n in sorted(set(SPECS) | set(UNKNOWN_T1) | set(UNKNOWN_T2)):
            e.prove(n + ' is recognised', z3.BoolVal(n in sets['str'] and
                                                     n in b))
    e.explore(path)
    return e


TRUSTED = [
    'file object: readline/read/tell/seek deliver the bytes of the file; '
    'struct.unpack of nf gives the n single precision numbers; float() of a '
    '16 column field gives the number written there',
    'file layout: a formatted record has its name in 8 columns and four '
    'numbers of 16 columns, continuation lines 8 blanks and four numbers '
    '(the last one may be shorter), no continuation lines longer; an '
    'unformatted block holds at most 128 bytes between two length bytes '
    '(129 also means 128), input records start with 8 blanks',
    'names of records on file are among the recognised names; the first 8 '
    'bytes of a block of numbers are neither blanks nor such a name',
    'partial correctness: termination of loops is not proved',
    'instrumentation (pyvc/inst.py): loops report to the loop rule, len, '
    'int, float, range and math.ceil are replaced by versions accepting '
    'symbolic values; division by 4. is exact',
    'z3, CPython']


# ---- skipping (C02) ----------------------------------------------------------

KINDS = ('t1', 't2', 'neg', 'td', 'text', 'iend')


def skip(cls, kind):
    """skip_restofrecord, for one kind of record"""
    mod = inst.load(FILES)
    glob = dict(mod.__dict__)
    e = core.Engine('%s, skip_restofrecord, %s' % (cls, {
        't1': 'input records', 't2': 'results records',
        'neg': 'negative first value', 'td': 'TD.. records',
        'text': 'DATE and TEXT', 'iend': 'end of file'}[kind]),
        timeout=10000)
    names = state_names(e, mod, glob, cls, 't2')

    def path():
        t = Case(e, mod, glob, cls, kind, kind in ('td', 'text'))
        w = t.w
        precondition(e, w, kind)
        nm, h = t.header()
        t.settle(names)
        t.o.read_floatrec = contract_floatrec(t)
        try:
            r = t.o.skip_restofrecord(nm, h)
        except Exception as ex:
            if getattr(ex, 'semantic', False):
                e.fail('no exception', repr(ex)[:80])
                return
            raise
        landed(e, t, r, kind, names)
        e.cover('skip')
    e.explore(path)
    return e


def precondition(e, w, kind):
    S = z3.StringVal
    nm, h = w.name[-1], [x.e for x in w.H[-1]]
    td = z3.Or(z3.PrefixOf(S('TD'), nm), nm == S('TSLAYER'))
    txt = z3.Or(nm == S('DATE'), nm == S('TEXT'))
    n = [core.trunc(x) for x in h]
    if kind == 'neg':
        e.assume(h[0] < 0)
        e.assume(w.B == z3.If(h[0] == -5, z3.IntVal(1), z3.IntVal(0)))
        return
    e.assume(h[0] >= 0)
    if kind == 'iend':
        e.assume(nm == S('IEND'))
        e.assume(h[0] == 0)
        e.assume(w.B == 0)
    elif kind == 'td':
        e.assume(td)
        e.assume(z3.And(h[2] >= 0, h[3] >= 0))
        e.assume(w.B == n[2]/100 + n[3]/100)
    elif kind == 'text':
        e.assume(txt)
        e.assume(h[2] >= 0)
        e.assume(w.B == n[2])
    else:
        e.assume(z3.Not(td))
        e.assume(z3.Not(txt))
        e.assume(z3.Not(nm == S('IEND')))
        if kind == 't2':
            e.assume(h[0] == z3.ToReal(w.L + 4))


def landed(e, t, r, kind, names, what='the next header'):
    """the next header was read and is handed over"""
    w = t.w
    if kind == 'iend':
        e.prove('end of file: no header', z3.BoolVal(
            isinstance(r, tuple) and len(r) == 2 and r[0] is None and
            r[1] is None))
        return
    ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], SStr)
    e.prove(what + ': name and values', z3.BoolVal(ok))
    if not ok:
        raise PathEnd()
    e.prove(what + ': its name', z3.And(
        r[0].e == w.name[0], z3.BoolVal(r[0].kind == 'str')))
    e.prove_eq(what + ': its values', r[1], w.H[0])
    e.prove(what + ': the file is behind it', z3.And(
        iexpr(w.f.u) == w.B + 1, z3.BoolVal(w.f.phase == 0)))
    s, b = names
    if b is not None:
        e.prove(what + ': nothing left over', z3.Not(core.truth(
            getattr(t.o, b))))
    else:
        e.prove(what + ': nothing left over', Seq.of(getattr(
            t.o, s)).length() == 0)
