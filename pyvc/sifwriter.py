"""Contracts of the writing side of FormattedFile (C22).

The document is followed by an automaton: at the start of a line, or on a
line that holds a header (or eight blanks) and u values.  Each write
operation is run from every state that the writer can reach, on a list of
any length n with unknown values: the automaton accepts what is written only
if it is the name, the values 0, 1, .., n-1 in order, four to a line, with
line breaks exactly between the lines.  States that are reached are added
until nothing new turns up, so that the claim holds for every sequence of
operations.  Loops over the lines are cut by the invariant `values 0 .. m-1
are written, m = m0 + step*k, the writer is in the state that follows full
lines'."""
import builtins
import re
import types
import z3
from . import core, inst, loops, shims
from .core import Engine, Unsupported, SInt
from .seq import iexpr
from .report import Task
from .seqfile import FILES
from .vtu import _no_method, Strict

A, B = '\ue000', '\ue001'
TRUSTED = [
    'a float written with 9 significant digits reads back as the same number '
    'in single precision; the text of such a number has 16 characters or '
    'less (Python formatting of floats)',
    'record names have 1 to 8 characters and no blanks at the ends; text '
    'lines contain no line breaks']


class Bad(Exception):
    pass


class Marked(str):
    """text about which nothing is known but where it came from"""

    def __new__(cls, w, what):
        w.vals.append(what)
        s = str.__new__(cls, '%s%d%s' % (A, len(w.vals) - 1, B))
        s.w, s.what = w, what
        return s

    def __format__(self, f):
        if not f:
            return str.__str__(self)
        if self.what == ('name',) and re.fullmatch(r' ?<?8s?', f):
            return self.w.mark(('name8',))
        raise Unsupported('format %r of a text' % f)

    def __mod__(self, o):
        raise Unsupported('%')

    def ljust(self, n, c=' '):
        if self.what == ('name',) and n == 8 and c == ' ':
            return self.w.mark(('name8',))
        raise Unsupported('ljust')

    def __str__(self):
        return str.__str__(self)

    def __hash__(self):
        raise Unsupported('hash of a text')

    def __eq__(self, o):
        raise Unsupported('comparison of a text')


for _n in dir(str):
    if _n not in Marked.__dict__ and _n not in (
            '__class__', '__new__', '__init__', '__getattribute__',
            '__init_subclass__', '__subclasshook__', '__doc__', '__dir__',
            '__setattr__', '__delattr__', '__reduce__', '__reduce_ex__',
            '__getstate__', '__sizeof__', '__add__', '__repr__'):
        setattr(Marked, _n, _no_method(_n))


class Blanks(Strict):
    """unknown number of blanks"""

    def __init__(self, w):
        self.w = w

    def __rmul__(self, s):
        if s != ' ':
            raise Unsupported('leading blanks')
        return self.w.mark(('blanks',))
    __mul__ = __rmul__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a number' % n)


def good_format(f):
    """does the format keep single precision in 16 columns?"""
    import numpy as np
    import struct
    xs = [struct.unpack('<f', struct.pack('<I', b))[0] for b in (
        0, 1, 2, 0x80000000, 0x3f800001, 0x3f7fffff, 0x7f7fffff, 0xff7fffff,
        0x00800001, 0x4b000001, 0xcb7fffff, 0x3dcccccd, 0x8a3d70a4,
        0x33d6bf95, 0xb3d6bf95, 0x50000001, 0xd0000003)]
    r = np.random.default_rng(1).integers(0, 2**32, 300, dtype='uint32')
    v = r.view('float32')
    xs += [float(x) for x in v[np.isfinite(v)]]
    for x in xs:
        try:
            t = format(x, f)
            if len(t) != 16 or np.float32(float(t)) != np.float32(x):
                return False
        except ValueError:
            return False
    return True


class Val(Strict):
    """one value"""

    def __init__(self, w, i):
        self.w, self.i = w, i

    def __format__(self, f):
        if not re.fullmatch(r'[ ]?>?[ -]?16\.8[eE]', f):
            if not good_format(f):
                return self.w.mark(('badval', f))
            raise Unsupported('format %r of a number' % f)
        return self.w.mark(('val', self.i))

    def __float__(self):
        raise Unsupported('a value as a number')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a value' % n)


class Vals(Strict):
    """values a .. b-1 of the list"""

    def __init__(self, w, a, b):
        self.w, self.a, self.b = w, z3.simplify(a), z3.simplify(b)

    def vlen(self):
        n = z3.simplify(self.b - self.a)
        return n.as_long() if z3.is_int_value(n) else SInt(n)

    def clamp(self, x):
        E = core.ENG
        n = z3.simplify(self.b - self.a)
        if isinstance(x, int) and not isinstance(x, bool):
            x = z3.IntVal(x)
        else:
            x = z3.simplify(iexpr(x))
        if E.decide(x < 0):
            x = z3.simplify(x + n)
            if E.decide(x < 0):
                return z3.IntVal(0)
        return n if E.decide(x >= n) else x

    def __getitem__(self, s):
        E = core.ENG
        if not isinstance(s, slice):
            if isinstance(s, (int, SInt)):
                i = iexpr(s)
                n = self.b - self.a
                if E.decide(i < 0):
                    i = i + n
                if E.decide(z3.Or(i < 0, i >= n)):
                    raise core.sem(IndexError('index out of range'))
                return Val(self.w, z3.simplify(self.a + i))
            raise Unsupported('index of the values')
        if s.step not in (None, 1):
            raise Unsupported('steps in the values')
        lo = z3.IntVal(0) if s.start is None else self.clamp(s.start)
        hi = z3.simplify(self.b - self.a) if s.stop is None else \
            self.clamp(s.stop)
        if not E.decide(lo < hi):
            return Vals(self.w, self.a, self.a)
        if s.stop is not None and s.start is not None or isinstance(
                s.stop, int):
            d = z3.simplify(hi - lo)
            if not z3.is_int_value(d):
                for j in range(1, 9):
                    if E.decide(d == j):
                        d = z3.IntVal(j)
                        break
            lo = z3.simplify(self.a + lo)
            return Vals(self.w, lo, lo + d)
        return Vals(self.w, self.a + lo, self.a + hi)

    def __iter__(self):
        E = core.ENG
        for j in range(9):
            if not E.decide(self.a + j < self.b):
                return
            yield Val(self.w, z3.simplify(self.a + j))
        raise Unsupported('loop over the values one by one')

    def __bool__(self):
        raise Unsupported('truth of the list of values')

    def __getattr__(self, n):
        if n.startswith('__') or n in ('as_seq', 'loop'):
            raise AttributeError(n)
        raise Unsupported('.%s of the values' % n)


class Doc(object):
    """the automaton"""

    def __init__(self, w):
        self.w = w
        self.col = None         # None: at the start of a line
        self.pending = 0        # blanks at the start of a line
        self.m = z3.IntVal(0)   # values written by the operation
        self.op = None
        self.begun = True
        self.closed = False
        self.cont = False       # a line of blanks without a value

    def state(self):
        if self.pending or self.cont:
            raise Bad('blanks at the end of the operation')
        return (self.col, self.closed)

    def start(self, op, n=None):
        self.op, self.n = op, n
        self.m = z3.IntVal(0)
        self.begun = op == 'floats'
        self.told = 0

    def write(self, s):
        if self.closed:
            raise core.sem(ValueError('I/O operation on closed file.'))
        if not isinstance(s, str):
            raise Unsupported('written: %s' % type(s).__name__)
        for x in re.findall('%s\\d+%s|.|\n' % (A, B), str.__str__(s)):
            if x[0] == A:
                self.item(self.w.vals[int(x[1:-1])])
            elif x == '\n':
                self.newline()
            elif x == ' ':
                self.blank()
            else:
                raise Bad('text %r' % x)

    def newline(self):
        if self.op == 'string' and self.begun and not self.told:
            raise Bad('line break before the text')
        if self.told == 1:
            self.told = 2
            self.col = None
            return
        if self.pending or self.cont:
            raise Bad('blank line')
        if self.col is None:
            raise Bad('empty line')
        if self.col != 4 and self.begun:
            raise Bad('line break after %d values' % self.col)
        self.col = None

    def blank(self):
        if self.op == 'string' and (not self.begun or not self.told):
            if self.col is not None and not self.begun:
                raise Bad('text on a line of values')
            self.begun = True
            self.pending += 1
            return
        if self.col is not None or not self.begun:
            raise Bad('blanks')
        self.pending += 1
        if self.pending == 8:
            self.pending = 0
            self.col, self.cont = 0, True

    def item(self, v):
        E = core.ENG
        k = v[0]
        if k == 'badval':
            raise Bad('format %r of the values' % v[1])
        if k == 'name':
            raise Unsupported('name written without filling')
        if k == 'name8':
            if self.op != 'rec' or self.begun or self.col is not None:
                raise Bad('name of the record')
            self.begun, self.col = True, 0
        elif k == 'val':
            if self.col is None or self.col > 3 or not self.begun or \
                    self.pending:
                raise Bad('place of a value')
            if not E.prove('the values are written in order',
                           v[1] == self.m):
                raise core.PathEnd()
            self.m = z3.simplify(self.m + 1)
            self.col += 1
            self.cont = False
        elif k == 'blanks':
            if self.op != 'string' or self.told or self.pending or \
                    self.col is not None:
                raise Bad('blanks before a text')
            self.begun = True
            self.pending = -1
        elif k == 'text':
            if self.op != 'string' or self.told or self.col is not None:
                raise Bad('place of a text')
            want = -1 if self.n == 'given' else 8
            if self.pending != want:
                raise Bad('blanks before a text')
            self.pending = 0
            self.begun, self.told = True, 1

    def end(self):
        E = core.ENG
        if self.op in ('rec', 'floats'):
            E.prove('all values are written', self.m == self.n)
            if self.op == 'rec' and not self.begun:
                raise Bad('no name')
        elif self.op == 'string' and self.told != 2:
            raise Bad('no text line')

    def close(self):
        if self.pending or self.cont:
            raise Bad('blanks at the end')
        self.closed = True

    def flush(self):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of the file' % n)


class Lines(object):
    """range of unknown length"""

    def __init__(self, w, lo, n, step):
        self.w, self.lo, self.n, self.step = w, lo, n, step

    def __iter__(self):
        raise Unsupported('iteration')

    def elem(self, k):
        return SInt(z3.simplify(self.lo + self.step*k))

    def loop(self, L):
        E, w = core.ENG, self.w
        L.heap = []
        now = L.read()[:len(L.names)]
        L.sym, L.mode, L.exited = True, 'lines', False
        if not E.decide(self.n > 0):
            L.apply(now)
            return
        m0 = w.doc.m

        def free(v):
            return v is loops.UNBOUND
        if not all(free(v) for v in now):
            raise Unsupported('variables of the loop over the lines')
        key = w.key
        L.apply(now)
        # the state that follows full lines
        last = E.decide(E.fresh(z3.BoolSort(), 'last'))
        first = E.decide(E.fresh(z3.BoolSort(), 'first'))
        if not first:
            G = w.full.get(key)
            if G is None:
                # to be found by the first round
                w.again = True
                raise core.PathEnd()
            k = E.int('k').e
            E.assume(k >= 1)
            w.put(G[0], z3.simplify(m0 + G[1]*k))
        else:
            k = z3.IntVal(0)
        E.assume(k == self.n - 1 if last else k < self.n - 1)
        yield self.elem(k)
        if L.exited:
            raise Unsupported('loop over the lines left early')
        if last:
            L.apply([loops.UNBOUND]*len(now))
            return
        s = w.get()
        d = z3.simplify(w.doc.m - m0)
        if first:
            # the length of a full line
            for j in range(33):
                if E.must(d == j):
                    break
            else:
                raise Unsupported('values of a round')
            if w.full.setdefault(key, (s, j)) != (s, j):
                raise Unsupported('rounds end in different states')
        else:
            E.prove('every round but the last writes full lines',
                    z3.And(z3.BoolVal(s == G[0]), d == G[1]*(k + 1)))
        raise core.PathEnd()


def norm(v):
    if isinstance(v, SInt):
        return core.ENG.concretize(v.e)
    if v is None or isinstance(v, (bool, int)) or type(v) is str:
        return v
    if isinstance(v, (tuple, list)) and len(v) < 9:
        return tuple(norm(x) for x in v)
    raise Unsupported('attribute of type %s' % type(v).__name__)


class Writer(object):
    """a real FormattedFile in a given state"""

    def __init__(self):
        self.vals = []
        self.full = {}
        self.again = False
        self.doc = None
        w = self

        def range_(*a):
            lo, hi, st = {1: (0,) + a + (1,), 2: a + (1,), 3: a}[len(a)] \
                if 0 < len(a) < 4 else (None,)*3
            if isinstance(st, int) and st > 0 and any(isinstance(
                    x, SInt) for x in (lo, hi)):
                lo, hi = iexpr(lo), iexpr(hi)
                n = z3.simplify((hi - lo + (st - 1))/z3.IntVal(st))
                return Lines(w, lo, n, st)
            return shims.BUILTINS['range'](*a)

        def len_(x):
            return x.vlen() if isinstance(x, Vals) else \
                shims.BUILTINS['len'](x)
        self.m = inst.load(FILES, builtin_over=dict(range=range_, len=len_))

        def open_(name, mode='r', *a, **k):
            if mode != 'w' or a or k:
                raise Unsupported('open %r' % mode)
            return w.doc
        self.m.io = types.SimpleNamespace(open=open_)
        self.m.__dict__['__builtins__']['open'] = open_

    def mark(self, what):
        self.vals.append(what)
        return '%s%d%s' % (A, len(self.vals) - 1, B)

    def fresh(self):
        del self.vals[:]
        self.doc = Doc(self)
        o = self.m.FormattedFile('name', 'w')
        self.o = o
        files = [k for k, v in o.__dict__.items() if v is self.doc]
        if files != ['f']:
            raise Unsupported('the file of the writer')
        self.const = {k: v for k, v in o.__dict__.items() if isinstance(
            v, (set, frozenset))}

    def get(self):
        a = {k: v for k, v in self.o.__dict__.items() if v is not self.doc
             and self.const.get(k, self) is not v}
        return (tuple(sorted((k, norm(v)) for k, v in a.items())),
                self.doc.state())

    def put(self, s, m=None):
        for k in list(self.o.__dict__):
            if k not in self.const and self.o.__dict__[k] is not self.doc:
                del self.o.__dict__[k]
        self.o.__dict__.update(dict(s[0]))
        self.doc.col, self.doc.closed = s[1]
        self.doc.pending, self.doc.cont = 0, False
        if m is not None:
            self.doc.m = m


OPS = ('write_record', 'write_floats', 'write_string',
       'write_string with leading blanks', 'close')


def where(s):
    return 'after close' if s[1][1] else 'at the start of a line' \
        if s[1][0] is None else 'after %d values on a line' % s[1][0]


def one(E, w, s, op, found):
    """one operation in one state"""
    w.fresh()
    w.put(s)
    w.key = (s, op)
    n = None
    E.info = {'state': where(s), 'operation': op}
    E.n_values = None
    if op in OPS[:2]:
        n = E.int('n').e
        E.n_values = n
        E.assume(n >= 0)
    what = '%s, %s: ' % (op, where(s))
    try:
        try:
            if op == 'write_record':
                w.doc.start('rec', n)
                w.o.write_record(Marked(w, ('name',)), Vals(
                    w, z3.IntVal(0), n))
            elif op == 'write_floats':
                w.doc.start('floats', n)
                w.o.write_floats(Vals(w, z3.IntVal(0), n))
            elif op == 'close':
                w.doc.start('close')
                w.o.close()
                if not w.doc.closed:
                    raise Bad('the file is not closed')
            else:
                w.doc.start('string', 'given' if 'leading' in op else None)
                t = Marked(w, ('text',))
                if 'leading' in op:
                    w.o.write_string(t, Blanks(w))
                else:
                    w.o.write_string(t)
        except Bad:
            raise
        except Exception as ex:
            if getattr(ex, 'semantic', False):
                raise Bad('raises %r' % ex)
            raise Unsupported('%s: %s' % (type(ex).__name__, ex))
        w.doc.end()
        t = w.get()
    except Bad as b:
        E.fail(what + 'the lines written', str(b))
        return
    E.prove(what + 'the lines written', z3.BoolVal(True))
    E.cover(what)
    if t not in found:
        found.append(t)
        if len(found) > 24:
            raise Unsupported('states of the writer')


def writer():
    w = Writer()
    E = Engine('FormattedFile, writing', timeout=10000)

    def refuted(E, m):
        d = dict(getattr(E, 'info', {}))
        if getattr(E, 'n_values', None) is not None:
            v = m.eval(E.n_values, True)
            d['n'] = v.as_long() if z3.is_int_value(v) else str(v)
        return d
    E.on_refute = refuted
    found = []

    def begin():
        w.fresh()
        s = w.get()
        E.prove('a new file is at the start of a line', z3.BoolVal(
            s[1] == (None, False)))
        if s not in found:
            found.append(s)
    E.explore(begin)
    i = 0
    while i < len(found):
        s = found[i]
        i += 1
        if s[1][1]:
            continue
        for op in OPS:
            for attempt in range(3):
                w.again = False
                E.explore(lambda: one(E, w, s, op, found))
                if not w.again:
                    break
            else:
                E.unsupported.append('state that follows full lines')
    E.explore(lambda: E.prove('the states of the lines', z3.BoolVal(
        len({s[1][0] for s in found}) >= 4)))
    return E


def replay(ctx, ob):
    """write such lists to a real file"""
    import checks.c22 as C
    d = ob.d['info'] or {}
    n = d.get('n')
    ns = [n] if isinstance(n, int) and 0 <= n < 5000 else []
    ns += [x for x in list(range(0, 20)) if x not in ns]
    nv = len(ctx.violations)
    k = 0
    for n in ns:
        for r in range(0, 9):
            v = [float(i + 1) for i in range(n)]
            h = [float(-i - 1) for i in range(r)]
            end = ['rec', 'IEND', [[0.]]]
            for ops in ([['rec', 'GCOORD', [h, v]], end],
                        [['rec', 'GCOORD', [h]], ['rec', 'GNODE', [v]], end],
                        [['rec', 'GCOORD', [h]], ['str', 'TEXT.', 8], end],
                        [['rec', 'GCOORD', [h]], ['str', 'TEXT.', 3],
                         ['more', [v]], end]):
                k += 1
                if not any(x for o in ops[:1] for x in o[2]):
                    continue
                if ops[1][0] == 'rec' and len(ops[1][2]) == 1 and not \
                        ops[1][2][0]:
                    continue
                C.one(ctx, ops, 10**6 + k, 'tuple')
                if len(ctx.violations) > nv:
                    return True
    return False


def replay_read(ctx, ob):
    return replay(ctx, ob) or None


def tasks():
    return [Task('FormattedFile: write_record, write_floats, _write_line, '
                 'write_string, close', writer, (), replay=replay)]
