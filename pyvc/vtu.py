"""Contracts of the VTU writer (C19, C20).

The writer's operations are executed on opaque arguments: arrays about which
only the number of axes (0..64) and the data type (each of the ten that VTK
knows, or any other) are known, with unknown sizes and contents, and names
that are unknown texts.  Every state of the writer that any sequence of
operations can reach is found by closing the set of states under all
operations (the states are compared by all attributes of the object); for
each state and operation it is proved what is written, so that the document
is well-formed after every sequence (induction over the sequence)."""
import builtins
import os
import re
import types
import numpy as np
import z3
from . import core, inst, loops, shims
from .core import Engine, Unsupported, wrap
from .seq import iexpr
from .report import Task

FILE = 'freesif/utils/writers.py'
KNOWN = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64',
         'uint64', 'float32', 'float64')
VTKNAME = {n: n.replace('uint', 'UInt') if n[0] == 'u' else
           n.replace('int', 'Int').replace('float', 'Float') for n in KNOWN}
A, B = ' aZ\ue000', '\ue001Bz '   # around the number of an opaque value
TRUSTED = [
    'xml.sax.saxutils.quoteattr gives a quoted attribute value that XML '
    'reads back as the text (for texts of characters that XML allows)',
    'numpy: astype with the little-endian type followed by ravel and tobytes '
    'gives the little-endian bytes of the elements in row-major order; '
    'struct.pack("<Q"), base64.b64encode; file objects write what they get',
    'opaque arguments: an operation can look at an array or name only '
    'through its attributes; lists of component names have up to 4 names']


class Refused(Exception):
    pass


class Opaque(object):
    """registry of the values whose text is a marker"""

    def __init__(self):
        self.vals = []

    def mark(self, v):
        self.vals.append(v)
        return '%s%d%s' % (A, len(self.vals) - 1, B)


class Strict(object):
    """comparing is looking at it"""

    def _no_(self, *a):
        raise Unsupported('comparison of %s' % type(self).__name__)
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no_
    __hash__ = __bool__ = __int__ = __index__ = _no_
    __iter__ = __contains__ = _no_


class Num(object):
    """number about which nothing is known"""

    def __init__(self, reg, key):
        self.reg, self.key = reg, key

    def __str__(self):
        return self.reg.mark(self)
    __repr__ = __str__

    def __format__(self, f):
        if f not in ('', 'd'):
            raise Unsupported('format of a number')
        return str(self)

    def __mul__(self, o):
        a, b = self.key, o.key if isinstance(o, Num) else ('const', o)
        return Num(self.reg, ('*',) + tuple(sorted((a, b), key=repr)))
    __rmul__ = __mul__

    def __int__(self):
        raise Unsupported('integer of an unknown number')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a number' % n)

    def __bool__(self):
        raise Unsupported('truth of an unknown number')

    def _no(self, *a):
        raise Unsupported('operation on an unknown number')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __floordiv__ = _no
    __index__ = _no
    __hash__ = None


class Name(str):
    """text about which nothing is known"""

    def __new__(cls, reg, key):
        self = str.__new__(cls, 'unknown')
        self.reg, self.key = reg, key
        return self

    def __str__(self):
        return self.reg.mark(self)

    def __format__(self, f):
        if f:
            raise Unsupported('format of a name')
        return str(self)

    def __hash__(self):
        raise Unsupported('hash of a name')

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('comparison of a name')


def _no_method(n):
    def f(self, *a, **k):
        raise Unsupported('.%s of a name' % n)
    return f


for _n in dir(str):
    if _n not in Name.__dict__ and _n not in (
            '__class__', '__new__', '__init__', '__getattribute__',
            '__init_subclass__', '__subclasshook__', '__doc__', '__dir__',
            '__setattr__', '__delattr__', '__reduce__', '__reduce_ex__',
            '__getstate__', '__sizeof__'):
        setattr(Name, _n, _no_method(_n))


class Blob(Strict):
    """bytes, known only by what they encode"""

    def __init__(self, parts, text=None):
        self.parts = tuple(parts)

    def __add__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        if isinstance(o, (bytes, bytearray)):
            raise Unsupported('bytes added')
        return Blob(self.parts + o.parts)

    def __radd__(self, o):
        if o == b'':
            return self
        raise Unsupported('bytes added')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of encoded bytes' % n)


class Dtype(Strict):
    def __init__(self, arr, name, order='native'):
        self.arr, self.name_, self.order = arr, name, order

    @property
    def name(self):
        return self.name_

    @property
    def itemsize(self):
        n = self.name_
        if n in KNOWN:
            return np.dtype(n).itemsize
        return Num(self.arr.reg, ('itemsize', n))

    def newbyteorder(self, o='S'):
        return Dtype(self.arr, self.name_, {'<': '<', 'L': '<', 'little':
                                            '<', '>': '>'}.get(o, o))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a data type' % n)


class Shape(Strict):
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        n = self.a.ndim
        if not isinstance(i, int) or not -n <= i < n:
            raise IndexError(i) if isinstance(i, int) else Unsupported('')
        return Num(self.a.reg, ('shape', self.a.key, i % n))

    def __len__(self):
        return self.a.ndim


class Arr(Strict):
    """array with unknown contents"""

    def __init__(self, reg, key, ndim, dtype, of=None, done=()):
        self.reg, self.key, self.ndim, self.dt = reg, key, ndim, dtype
        self.of = of            # the caller's array, of a copy
        self.done = list(done)

    @property
    def dtype(self):
        return Dtype(self, self.dt)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size*self.itemsize

    @property
    def shape(self):
        return Shape(self)

    @property
    def size(self):
        return Num(self.reg, ('size', self.key))

    def vlen(self):
        if self.ndim == 0:
            raise core.sem(TypeError('len() of unsized object'))
        return Num(self.reg, ('shape', self.key, 0))

    def copy(self, *a):
        return Arr(self.reg, self.key, self.ndim, self.dt, self, self.done)

    def astype(self, t, **k):
        if isinstance(t, Dtype) and t.arr.key == self.key and not k:
            return Enc(self, t.order, False)
        if isinstance(t, str) and self.dt in KNOWN and t[:1] in '<>':
            if np.dtype(t[1:]) == np.dtype(self.dt):
                return Enc(self, t[0], False)
        raise Unsupported('astype')

    def ravel(self, order='C'):
        return Enc(self, 'native', False).ravel(order)
    flatten = ravel

    def tobytes(self, order='C'):
        return Enc(self, 'native', False).tobytes(order)

    def __setitem__(self, k, v):
        raise Unsupported('assignment to an array')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of an array' % n)


class Enc(Strict):
    """array in a given byte order and layout"""

    def __init__(self, a, order, flat):
        self.a, self.order, self.flat = a, order, flat

    def ravel(self, order='C'):
        return Enc(self.a, self.order, order if not self.flat else
                   self.flat)
    flatten = ravel

    def astype(self, t, **k):
        e = self.a.astype(t, **k)
        return Enc(self.a, e.order, self.flat)

    def tobytes(self, order='C'):
        return Blob([('data', self.a, self.order, self.flat or order)])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of an array' % n)


class File(object):
    def __init__(self, reg):
        self.reg, self.out, self.closed = reg, [], False

    def write(self, b):
        if self.closed:
            raise core.sem(ValueError('I/O operation on closed file.'))
        if isinstance(b, Blob):
            if not b.parts or b.parts[0][0] != 'base64':
                raise Unsupported('unencoded data written')
            self.out.append(b)
        elif isinstance(b, (bytes, bytearray)):
            self.out.append(bytes(b).decode())
        else:
            raise Unsupported('written: %s' % type(b).__name__)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of the file' % n)


def module(reg):
    """the real module, with stand-ins for what it imports"""
    path = os.path.join(inst.REPO, FILE)
    m = types.ModuleType('vtu_writers')
    m.__file__ = path
    m.__package__ = 'freesif.utils'
    b = dict(builtins.__dict__)
    files = []

    def open_(name, mode='r', *a, **k):
        if mode != 'wb' or a or k:
            raise Unsupported('open mode %r' % mode)
        files.append((name, File(reg)))
        return files[-1][1]

    def len_(x):
        return x.vlen() if isinstance(x, Arr) else builtins.len(x)
    b.update(open=open_, len=len_)
    m.__dict__['__builtins__'] = b
    with open(path) as f:
        exec(compile(f.read(), path, 'exec'), m.__dict__)

    def pack(fmt, *v):
        return Blob([('pack', fmt) + v])

    def b64(x):
        if not isinstance(x, Blob):
            raise Unsupported('base64 of bytes')
        if any(p[0] == 'base64' for p in x.parts):
            raise Unsupported('base64 twice')
        return Blob([('base64', x.parts)])
    real = m.__dict__.get('quoteattr')

    def quoteattr(s, *a):
        if a or type(s) is not str and not isinstance(s, Name):
            raise Unsupported('quoteattr')
        s = str(s)
        q = real(s)
        return re.sub('%s(\\d+)%s' % (A, B), lambda x: '%sq%s%s' % (
            A, x.group(1), B), q)
    for n, f in (('pack', pack), ('b64encode', b64),
                 ('quoteattr', quoteattr)):
        if n not in m.__dict__:
            raise Unsupported('%s is not imported' % n)
        m.__dict__[n] = f

    def con(cells):
        c, o, t = cells
        if not isinstance(c, Arr) or o is None or t is None:
            raise Unsupported('cells')
        c.done.append(('connectivity', o.key, t.key))

    def res(arr, o, t):
        if o is None or t is None:
            raise Refused('no piece')
        arr.done.append(('results', o.key, t.key))

    def types_(t):
        if t.reg.unknown_type:
            raise Refused('unknown element type')
        return Arr(reg, ('vtktypes', t.key), t.ndim, 'int64')
    for n, f in (('_reorder_connectivity_vtk', con),
                 ('_reorder_cellpointdata_vtk', res),
                 ('typeidmapper', types_)):
        if n not in m.__dict__:
            raise Unsupported('no function ' + n)
        m.__dict__[n] = f
    m.files = files
    return m


# ---- the document ------------------------------------------------------------

TAG = re.compile(r'<(/?)([A-Za-z][\w.-]*)((?:\s+[A-Za-z][\w.-]*="[^"<]*"|'
                 r"\s+[A-Za-z][\w.-]*='[^'<]*')*)\s*(/?)>")
ATT = re.compile(r'''([A-Za-z][\w.-]*)=("[^"]*"|'[^']*')''')
INSIDE = {'VTKFile': (None,), 'UnstructuredGrid': ('VTKFile',),
          'Piece': ('UnstructuredGrid',), 'Points': ('Piece',),
          'Cells': ('Piece',), 'PointData': ('Piece',),
          'CellData': ('Piece',), 'DataArray': ('Points', 'Cells',
                                                'PointData', 'CellData')}


class Bad(Exception):
    pass


def tokens(out):
    """[('open', tag, attributes) | ('close', tag) | ('data', blob)]"""
    text, blobs = [], []
    for x in out:
        if isinstance(x, Blob):
            text.append('\ue010%d\ue011' % len(blobs))
            blobs.append(x)
        else:
            text.append(x)
    s = ''.join(text)
    res, i = [], 0
    while i < len(s):
        if s[i] == '<':
            m = TAG.match(s, i)
            if not m:
                raise Bad('malformed tag %r' % s[i:i + 60])
            close, tag, att, selfc = m.groups()
            if close:
                if att or selfc:
                    raise Bad('malformed closing tag')
                res.append(('close', tag))
            else:
                d = {}
                for k, v in ATT.findall(att):
                    if k in d:
                        raise Bad('attribute %s twice' % k)
                    d[k] = v[1:-1]
                res.append(('open', tag, d))
                if selfc:
                    res.append(('close', tag))
            i = m.end()
        elif s[i] == '\ue010':
            j = s.index('\ue011', i)
            res.append(('data', blobs[int(s[i+1:j])]))
            i = j + 1
        elif s[i].isspace():
            i += 1
        else:
            raise Bad('text %r' % s[i:i + 40])
    return res


def value(reg, s):
    """attribute value: text or the opaque value"""
    m = re.fullmatch('%s(q?)(\\d+)%s' % (A, B), s)
    if m:
        v = reg.vals[int(m.group(2))]
        if isinstance(v, Name) and not m.group(1):
            raise Raw()
        return v
    if A in s:
        raise Unsupported('attribute %r' % s)
    from xml.sax.saxutils import unescape
    return unescape(s, {'&quot;': '"', '&apos;': "'", '&#10;': '\n'})


class Raw(Exception):
    """a name written without quoteattr"""


def run_doc(stack, toks):
    """the stack of open elements after the tokens"""
    stack = list(stack)
    for t in toks:
        if t[0] == 'open':
            tag = t[1]
            if tag not in INSIDE:
                raise Bad('element %s' % tag)
            up = stack[-1] if stack else None
            if up == 'done':
                raise Bad('element after the end')
            if up not in INSIDE[tag]:
                raise Bad('%s inside %s' % (tag, up))
            stack.append(tag)
        elif t[0] == 'close':
            if not stack or stack[-1] != t[1]:
                raise Bad('%s closed, %s is open' % (t[1], stack[-1:]))
            stack.pop()
            if not stack:
                stack = ['done']
        else:
            if stack[-1:] != ['DataArray']:
                raise Bad('data inside %s' % stack[-1:])
    return tuple(stack)


# ---- states and operations ---------------------------------------------------

def norm(v):
    if isinstance(v, Arr):
        return ('array', v.key[0] if isinstance(v.key, tuple) else v.key,
                v.of is not None)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(norm(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple(sorted((k, norm(x)) for k, x in v.items()))
    if isinstance(v, File):
        return ('file', v.closed)
    if v is None or isinstance(v, (bool, int, str)):
        return v
    raise Unsupported('attribute of type %s' % type(v).__name__)


class Run(object):
    """a writer, brought to a state by a sequence of operations"""

    def __init__(self, ops=()):
        self.reg = Opaque()
        self.reg.unknown_type = False
        self.m = module(self.reg)
        self.w = self.m.VtuWriter('name.vtu')
        if len(self.m.files) != 1 or self.m.files[0][0] != 'name.vtu':
            raise Unsupported('files opened')
        self.f = self.m.files[0][1]
        self.n = 0
        for o in ops:
            self.attempt(o)

    def arr(self, role, ndim=2, dt='float32'):
        self.n += 1
        return Arr(self.reg, (role, self.n), ndim, dt)

    def name(self):
        self.n += 1
        return Name(self.reg, self.n)

    def do(self, op):
        """-> what the operation was given"""
        k, v = op
        w = self.w
        self.reg.unknown_type = False
        if k == 'piece':
            a = [self.arr(r, *v.get(r, d)) for r, d in (
                ('points', (2, 'float64')), ('connectivity', (1, 'int64')),
                ('offsets', (1, 'int64')), ('types', (1, 'int32')))]
            self.reg.unknown_type = bool(v.get('unknown'))
            self.given = a
            w.new_piece(a[0], (list if v.get('list') else tuple)(a[1:]))
        elif k == 'point':
            w.start_pointdata()
        elif k == 'cell':
            w.start_celldata()
        elif k in ('data', 'cpdata'):
            a = self.arr('data', *v.get('data', (2, 'float32')))
            nm = self.name()
            c = v.get('comps')
            if c is not None:
                c = [self.name() for _ in range(c)]
                if v.get('tuple'):
                    c = tuple(c)
            self.given = (a, nm, c)
            f = w.add_data if k == 'data' else w.add_data_cellpoints
            if c is None and not v.get('explicit'):
                f(a, nm)
            else:
                f(a, nm, c)
        elif k == 'close':
            w.close()
        else:
            raise KeyError(k)

    def state(self):
        return norm({k: v for k, v in self.w.__dict__.items()})

    def attempt(self, op):
        """(exception, what was written)"""
        n = len(self.f.out)
        try:
            self.do(op)
        except (AttributeError, TypeError) as e:
            if getattr(e, 'semantic', False):
                return e, self.f.out[n:]
            raise Unsupported('%r' % e)
        except Exception as e:
            return e, self.f.out[n:]
        return None, self.f.out[n:]


BASIC = [('piece', {}), ('point', {}), ('cell', {}), ('data', {}),
         ('cpdata', {}), ('close', {})]
# beyond 64 axes there are no arrays
NDIMS = range(65)


def variants(k):
    """all arguments of an operation, and whether they are acceptable"""
    if k == 'piece':
        yield {}, True
        yield {'list': True}, True
        yield {'unknown': True}, False
        roles = ('points', 'connectivity', 'offsets')
        for r in roles + ('types',):
            for n in NDIMS:
                # lists of cells given as tables are not spoken of
                if n != 2 or r in ('points', 'connectivity'):
                    yield {r: (n, 'int64')}, n in (1, 2)
        for r in roles:
            for t in KNOWN:
                if r != 'offsets' or 'int' in t:
                    yield {r: (1, t)}, True
            yield {r: (1, 'complex64')}, False
            yield {r: (1, object())}, False
        import itertools
        cl = [(1, 'int64'), (2, 'int64'), (3, 'int64'), (1, 'complex64')]
        for c in itertools.product(range(4), repeat=3):
            if c[2] != 1:
                yield {r: cl[x] for r, x in zip(roles, c)}, max(c) < 2
    elif k in ('data', 'cpdata'):
        for n in NDIMS:
            yield {'data': (n, 'float64')}, n in (1, 2)
            yield {'data': (n, 'complex128')}, False
        for t in KNOWN:
            for n in (1, 2):
                yield {'data': (n, t)}, True
        yield {'data': (2, object())}, False
        for c in range(5):
            yield {'comps': c}, True
            yield {'comps': c, 'tuple': True}, True
        yield {'explicit': True}, True
    else:
        yield {}, True


def section(stack):
    return stack[-1] if stack and stack[-1] in ('PointData', 'CellData') \
        else None


def expected(stack, k, ok):
    """(legal, stack after)"""
    if stack == ('done',):
        return False, stack
    base = ('VTKFile', 'UnstructuredGrid')
    if k == 'piece':
        return ok, base + ('Piece',) if ok else stack
    if k in ('point', 'cell'):
        if 'Piece' not in stack:
            return False, stack
        return True, base + ('Piece', 'PointData' if k == 'point' else
                             'CellData')
    if k in ('data', 'cpdata'):
        ok = ok and section(stack) is not None
        return ok, stack
    return True, ('done',)


def explore():
    """{state: (operations leading to it, document stack)}"""
    r = Run()
    s = r.state()
    doc = run_doc((), tokens(r.f.out))
    found = {s: ((), doc)}
    todo = [s]
    while todo:
        s = todo.pop()
        ops, doc = found[s]
        if doc == ('done',):
            continue            # nothing can be written to a closed file
        for op in BASIC:
            r = Run(ops)
            e, out = r.attempt(op)
            try:
                d = run_doc(doc, tokens(out))
            except (Bad, Raw):
                continue        # reported by the operation's contract
            t = r.state()
            if t not in found:
                if len(found) > 40:
                    raise Unsupported('states of the writer')
                found[t] = (ops + (op,), d)
                todo.append(t)
    return found


def attr_num(reg, v, num):
    v = value(reg, v)
    return isinstance(v, Num) and v.key == num.key if isinstance(
        num, Num) else v == str(num)


def check_array(reg, toks, arr, name, comps, done):
    """what is wrong with a DataArray element"""
    if len(toks) != 3 or toks[0][:2] != ('open', 'DataArray') or \
            toks[1][0] != 'data' or toks[2] != ('close', 'DataArray'):
        return 'form of the data array'
    at = toks[0][2]
    v = value(reg, at.get('Name', ''))
    if not (v is name or isinstance(name, str) and not isinstance(
            name, Name) and type(v) is str and v == name):
        return 'name'
    if at.get('type') != VTKNAME.get(arr.dt):
        return 'type %s of %s' % (at.get('type'), arr.dt)
    if at.get('format') != 'binary':
        return 'format'
    n = Num(reg, ('shape', arr.key, 1)) if arr.ndim == 2 else 1
    if not attr_num(reg, at.get('NumberOfComponents', '1'), n):
        return 'number of components'
    cn = sorted(k for k in at if k.startswith('ComponentName'))
    if cn != ['ComponentName%d' % i for i in range(len(comps or ()))] or any(
            value(reg, at['ComponentName%d' % i]) is not c
            for i, c in enumerate(comps or ())):
        return 'component names'
    p = toks[1][1].parts
    if len(p) != 1 or p[0][0] != 'base64' or len(p[0][1]) != 2:
        return 'encoded as several pieces'
    head, data = p[0][1]
    if head[0] != 'pack' or head[1] not in ('<Q', '<1Q') or len(head) != 3:
        return 'byte count'
    w = arr.size*np.dtype(arr.dt).itemsize
    if not isinstance(head[2], Num) or head[2].key != w.key:
        return 'byte count of the data'
    if data[0] != 'data' or data[2] != '<' or data[3] != 'C':
        return 'layout of the data: %s %s' % data[2:]
    a = data[1]
    if a.key != arr.key or a.ndim != arr.ndim:
        return 'other data'
    if a.done != done:
        return 'reordering %s, expected %s' % (a.done, done)
    return None


def confirm(what):
    """a text written without quoteattr: does it break a real file?"""
    import tempfile
    from vlib import vtu, vtumodel
    from importlib import import_module
    rng = np.random.default_rng(3)
    with tempfile.TemporaryDirectory() as d:
        for k, nm in enumerate(vtumodel.NAMES):
            p = os.path.join(d, 'x%d.vtu' % k)
            w = import_module('freesif.utils').VtuWriter(p)
            pts, cel = vtumodel.cells(rng)
            w.new_piece(pts, cel)
            w.start_pointdata()
            w.add_data(np.zeros((3, 1)), nm, [nm])
            w.close()
            try:
                g = vtu.parse(p)
                a = g[0]['data'][0][1][0]
                if a['name'] != nm.replace('\t', ' '):
                    return True
            except vtu.Malformed:
                return True
    return False


def plainops(ops):
    """the operations as plain data"""
    def f(v):
        if isinstance(v, dict):
            return {k: f(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [f(x) for x in v]
        return v if isinstance(v, (bool, int, str)) else 'bool'
    return [[k, f(v)] for k, v in ops]


def real(ctx, ops, key, ty=(26, 23, 28, 15, 24, 25, 26, 23)):
    """run the operations on the real writer -> what is wrong, or None"""
    from vlib import vtu, vtumodel as V
    from vlib.conv import fs
    from vlib.strucapi import raises
    import importlib
    C = importlib.import_module('checks.c20')
    rng = np.random.default_rng(key)
    p = ctx.path('replay%d.vtu' % key)
    w = fs.utils.VtuWriter(p)
    ty = np.array(ty)
    off = np.cumsum([V.NN[t] for t in ty])
    con = rng.permutation(int(off[-1]))
    pts = rng.normal(size=(len(con), 3))

    def form(a, nd, dt):
        a = np.asarray(a)
        if nd == 0:
            a = np.asarray(a.ravel()[0])
        elif a.ndim < nd:
            a = a.reshape(a.shape + (1,)*(nd - a.ndim))
        elif a.ndim > nd:
            a = a.ravel()
        return a.astype(dt)
    stack = ('VTKFile', 'UnstructuredGrid')
    want, keep = [], []

    def size():
        if not w._file.closed:
            w._file.flush()
        return os.path.getsize(p)
    try:
        for k, v in [*ops, *([['close', {}]] if ops[-1][0] != 'close' else
                             [])]:
            n = size()
            if k == 'piece':
                a = [form(x, *v.get(r, (x.ndim, x.dtype.name))) for r, x in (
                    ('points', pts), ('connectivity', con), ('offsets', off),
                    ('types', ty + 900*bool(v.get('unknown'))))]
                keep += [(x, x.copy()) for x in a]
                if v.get('list'):
                    c = a[1:]
                else:
                    c = tuple(a[1:])
                f = lambda: w.new_piece(a[0], c)
                ok = not v.get('unknown') and all(
                    x.dtype.name in KNOWN for x in a) and all(
                        x.ndim in (1, 2) for x in a)
            elif k in ('data', 'cpdata'):
                nd, dt = v.get('data', (2, 'float32'))
                x = form(rng.normal(size=(len(con), 2))*100, nd, dt)
                keep.append((x, x.copy()))
                c = v.get('comps')
                if c is not None:
                    c = [V.NAMES[(key + i) % len(V.NAMES)] for i in range(c)]
                    if v.get('tuple'):
                        c = tuple(c)
                nm = V.NAMES[key % len(V.NAMES)]
                g = w.add_data if k == 'data' else w.add_data_cellpoints
                f = lambda: g(x, nm, c)
                ok = x.dtype.name in KNOWN and nd in (1, 2)
            else:
                f = {'point': w.start_pointdata, 'cell': w.start_celldata,
                     'close': w.close}[k]
                ok = True
            legal, after = expected(stack, k, ok)
            e = raises(f)
            if legal and e:
                return '%s: raises %r' % (k, e)
            if not legal and not e:
                return '%s: not refused' % k
            if not legal and size() != n:
                return '%s: refused, but something is written' % k
            stack = after
            if not legal:
                continue
            if k == 'piece':
                want.append([a, []])
            elif k in ('point', 'cell'):
                want[-1][1].append((stack[-1], []))
            elif k != 'close':
                want[-1][1][-1][1].append((nm, c, C.perm(
                    x, off, ty, C.RES) if k == 'cpdata' else x))
    finally:
        if not w._file.closed:
            w._file.close()
    for x, y in keep:
        if not np.array_equal(x, y):
            return 'an array of the caller is modified'
    try:
        got = vtu.parse(p)
    except vtu.Malformed as e:
        return 'file %s' % e
    if len(got) != len(want):
        return 'number of pieces'
    tab = lambda s: s.replace('\t', ' ')
    for g, (a, secs) in zip(got, want):
        bad = [C.same('points', g['points'], a[0]),
               C.same('connectivity', g['cells'][0], C.perm(
                   a[1], off, ty, C.CON)),
               C.same('offsets', g['cells'][1], a[2])]
        if not np.array_equal(g['cells'][2]['data'], [C.VTK[int(t)]
                                                      for t in ty]):
            bad.append('cell types')
        if (g['npoints'], g['ncells']) != (len(a[0]), len(a[2])):
            bad.append('numbers of points and cells')
        if [(s, [(tab(x['name']), [tab(i) for i in x['compnames']])
                 for x in y]) for s, y in g['data']] != \
                [(s, [(tab(n), [tab(i) for i in c or ()])
                      for n, c, _ in y]) for s, y in secs]:
            bad.append('data arrays')
        else:
            for (_, y), (_, z) in zip(g['data'], secs):
                bad += [C.same('data', q, x) for q, (_, _, x) in zip(y, z)]
        bad = [x for x in bad if x]
        if bad:
            return bad[0]


def replay_reorder(ctx, ob):
    """pieces of all kinds of elements on the real writer"""
    rng = np.random.default_rng(5)
    ops = [['piece', {}], ['point', {}], ['cpdata', {}]]
    for key in range(120):
        ty = rng.choice(list(VTK), rng.integers(1, 9)) if key > 6 else \
            [list(VTK)[key % len(VTK)]]*(1 + key//6)
        bad = real(ctx, ops, key, ty)
        if bad:
            ctx.fail('elements of types %s: %s' % (list(map(int, ty)), bad), {
                'types': list(map(int, ty)), 'obligation': ob.name})
            return True
    w = [x for x in range(40) if x not in VTK]
    for x in w:
        bad = real(ctx, [['piece', {}], ['point', {}]], 1, [24]) or unknown(
            ctx, x)
        if bad:
            ctx.fail(bad, {'types': [x], 'obligation': ob.name})
            return True
    return False


def unknown(ctx, x):
    from vlib.conv import fs
    from vlib.strucapi import raises
    w = fs.utils.VtuWriter(ctx.path('unknown.vtu'))
    e = raises(w.new_piece, np.zeros((4, 3)), (
        np.arange(4), np.array([4]), np.array([x])))
    w._file.close()
    return None if e else 'element type %d is not refused' % x


def replay(ctx, ob):
    """run the refuted cases on the real writer"""
    cases = (ob.d['info'] or {}).get('cases') or ()
    seen = None
    for c in cases[:40]:
        for key in range(len(c) and 16):
            bad = real(ctx, c, key)
            if bad:
                ctx.fail('%s: %s' % ([k for k, _ in c], bad), {
                    'operations': c, 'obligation': ob.name})
                return True
        seen = False
    return seen


def documents():
    E = Engine('VtuWriter, all sequences of operations')
    E.on_refute = lambda E, m: getattr(E, 'info', None)

    def body():
        found = explore()
        for s, (ops, doc) in found.items():
            for k, _ in BASIC:
                E.info = {'operations': [o for o, _ in ops] + [k]}
                bad = {}
                for v, ok in variants(k):
                    one(found, s, ops, doc, (k, v), ok, bad)
                E.info['cases'] = [plainops(ops) + plainops([v[0] if type(
                    v[0]) is tuple else v]) for v in bad.values()]
                where = 'no document' if doc == ('done',) else doc[-1]
                for nm in ('an operation that makes no sense is refused',
                           'a refused operation writes nothing and keeps '
                           'the state',
                           'an operation that makes sense is accepted',
                           'the elements written are nested and placed as '
                           'the format asks'):
                    E.prove('%s: %s (in %s)' % (k, nm, where),
                            z3.BoolVal(nm not in bad))
        E.prove('the writer has the states of the format', z3.BoolVal(
            {d for _, d in found.values()} >= {
                ('VTKFile', 'UnstructuredGrid'), ('done',),
                ('VTKFile', 'UnstructuredGrid', 'Piece'),
                ('VTKFile', 'UnstructuredGrid', 'Piece', 'PointData'),
                ('VTKFile', 'UnstructuredGrid', 'Piece', 'CellData')}))
        E.cover('end')

    def one(found, s, ops, doc, op, ok, bad):
        r = Run(ops)
        k = op[0]
        if k == 'cpdata' and 'Piece' not in doc:
            ok = False
        legal, after = expected(doc, k, ok)
        e, out = r.attempt(op)
        t = r.state()
        if not legal:
            if e is None:
                bad['an operation that makes no sense is refused'] = op
            elif out or t != s and doc != ('done',):
                if t not in found or out:
                    bad['a refused operation writes nothing and keeps the '
                        'state'] = op
                elif found[t][1] != doc:
                    bad['a refused operation writes nothing and keeps the '
                        'state'] = op
            return
        if e is not None:
            bad['an operation that makes sense is accepted'] = (op, e)
            return
        nm = 'the elements written are nested and placed as the format asks'
        try:
            toks = tokens(out)
            d = run_doc(doc, toks)
            for x in toks:
                if x[0] == 'open':
                    for a in x[2].values():
                        value(r.reg, a)
        except Raw:
            if confirm('name'):
                bad[nm] = (op, 'text not quoted')
            else:
                raise Unsupported('texts written without quoteattr')
            return
        except Bad as x:
            bad[nm] = (op, str(x))
            return
        if d != after or t not in found or found[t][1] != d:
            bad[nm] = (op, d)
            return
        want = {'piece': ['Piece', 'Points', 'DataArray', 'Cells'] +
                ['DataArray']*3, 'point': ['PointData'], 'cell':
                ['CellData'], 'data': ['DataArray'], 'cpdata':
                ['DataArray'], 'close': []}[k]
        if [x[1] for x in toks if x[0] == 'open'] != want:
            bad[nm] = (op, 'elements')
        if k == 'close' and not r.f.closed:
            bad[nm] = (op, 'the file is not closed')
    return E.explore(body)


def contents():
    """C20: what the data arrays contain"""
    E = Engine('VtuWriter, contents of the data arrays')
    E.on_refute = lambda E, m: getattr(E, 'info', None)

    def body():
        found = explore()
        for s, (ops, doc) in found.items():
            if doc == ('done',):
                continue
            bad = None
            cases = []
            for v, ok in variants('piece'):
                if ok:
                    b = piece(ops, v)
                    bad = bad or b
                    if b:
                        cases.append(plainops(ops + (('piece', v),)))
            E.info = {'what': bad, 'cases': cases}
            E.prove('the points, the reordered connectivity, the offsets '
                    'and the VTK types of the piece are written (%s)' %
                    doc[-1] + (': ' + bad if bad else ''),
                    z3.BoolVal(not bad))
            if section(doc) is None:
                continue
            for k in ('data', 'cpdata'):
                bad, cases = None, []
                for v, ok in variants(k):
                    if ok:
                        b = data(ops, k, v)
                        bad = bad or b
                        if b:
                            cases.append(plainops(ops + ((k, v),)))
                E.info = {'what': bad, 'cases': cases}
                E.prove('%s writes the given array under its name (%s)' % (
                    k, doc[-1]) + (': ' + bad if bad else ''),
                    z3.BoolVal(not bad))
        E.cover('end')

    def toks(r, op):
        e, out = r.attempt(op)
        if e is not None:
            return None, 'raises %r' % e
        try:
            return tokens(out), None
        except Bad as x:
            return None, str(x)

    def touched(arrs):
        return 'the caller\'s array is modified' if any(
            a.done for a in arrs) else None

    def piece(ops, v):
        r = Run(ops)
        t, e = toks(r, ('piece', v))
        if e:
            return e
        p, c, o, ty = r.given
        j = next((i for i, x in enumerate(t) if x[:2] == ('open', 'Piece')),
                 None)
        if j is None:
            return 'no piece'
        at = t[j][2]
        try:
            if not attr_num(r.reg, at.get('NumberOfPoints', ''), Num(
                    r.reg, ('shape', p.key, 0))) or not attr_num(
                        r.reg, at.get('NumberOfCells', ''), Num(
                            r.reg, ('shape', o.key, 0))):
                return 'numbers of points and cells'
            t = t[j + 1:]
            if [x[1] for x in t if x[0] != 'data' and x[1] != 'DataArray'] \
                    != ['Points', 'Points', 'Cells', 'Cells'] or \
                    len(t) != 16:
                return 'form of the piece'
            arrs = [t[i:i + 3] for i in (1, 6, 9, 12)]
            q = Arr(r.reg, ('vtktypes', ty.key), ty.ndim, 'int64')
            res = [check_array(r.reg, x, a, n, None, d) for x, a, n, d in zip(
                arrs, (p, c, o, q), ('points', 'connectivity', 'offsets',
                                     'types'),
                ([], [('connectivity', o.key, ty.key)], [], []))]
        except Raw:
            raise Unsupported('texts written without quoteattr')
        return next((x for x in res if x), None) or touched(r.given)

    def data(ops, k, v):
        r = Run(ops)
        o, ty = r.given_piece()
        t, e = toks(r, (k, v))
        if e:
            return e
        a, nm, c = r.given
        try:
            x = check_array(r.reg, t, a, nm, c, [
                ('results', o.key, ty.key)] if k == 'cpdata' else [])
        except Raw:
            raise Unsupported('texts written without quoteattr')
        return x or touched([a])
    return E.explore(body)


def given_piece(self):
    return self.piece_arrays


def _do(self, op, do=Run.do):
    r = do(self, op)
    if op[0] == 'piece':
        self.piece_arrays = self.given[2], self.given[3]
    return r


Run.do, Run.given_piece = _do, given_piece


def tasks19():
    return [Task('VtuWriter, all sequences of operations', documents, (),
                 replay=replay)]




# ---- reordering to the order of VTK -------------------------------------------

CON = {23: (0, 2, 1), 28: (0, 2, 4, 6, 1, 3, 5, 7)}
RES = {26: (0, 2, 4, 1, 3, 5)}
VTK = {15: 3, 23: 21, 24: 9, 25: 5, 26: 22, 28: 23}


class Table(object):
    """one of the module's tables, asked for a symbolic key"""

    def __init__(self, d):
        if not all(isinstance(k, int) for k in d):
            raise Unsupported('keys of a table')
        self.d = dict(d)

    def find(self, k):
        for x in self.d:
            if core.ENG.decide(iexpr(k) == x):
                return x
        return None

    def get(self, k, default=None):
        x = self.find(k)
        return default if x is None else self.d[x]

    def __getitem__(self, k):
        x = self.find(k)
        if x is None:
            raise core.sem(KeyError('no such key'))
        return self.d[x]

    def __contains__(self, k):
        return self.find(k) is not None

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return list(self.d)

    def items(self):
        return list(self.d.items())

    def __len__(self):
        return len(self.d)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a table' % n)


class IVec(Strict):
    """array of integers of unknown length"""
    ndim = 1

    def __init__(self, n, f):
        self.n, self.f = n, f

    def vlen(self):
        return core.SInt(self.n)

    def __getitem__(self, i):
        if isinstance(i, (slice, tuple)):
            raise Unsupported('slice of the offsets or types')
        i = iexpr(i)
        E = core.ENG
        if E.decide(i < 0):
            i = i + self.n
        if E.decide(z3.Or(i < 0, i >= self.n)):
            raise core.sem(IndexError('index out of bounds'))
        return core.SInt(self.f(i))

    def __iter__(self):
        raise Unsupported('iteration')

    def loop(self, L):
        return Rounds(self.n, lambda k: core.SInt(self.f(k))).loop(L)

    def __setitem__(self, k, v):
        raise Unsupported('assignment to the offsets or types')

    def __getattr__(self, n):
        if n.startswith('__') or n == 'as_seq':
            raise AttributeError(n)
        raise Unsupported('.%s of the offsets or types' % n)


class Rounds(object):
    """what the loop runs over: n elements"""
    world = None

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def __iter__(self):
        raise Unsupported('iteration')

    def loop(self, L):
        E, w = core.ENG, self.world
        L.heap = []
        now = L.read()[:len(L.names)]
        L.sym, L.mode, L.exited = True, 'reorder', False
        if w.loops or not self.n.eq(w.n):
            raise Unsupported('loops over the cells')
        w.loops += 1
        kinds = []
        for v in now:
            if isinstance(v, (int, core.SInt)) and not isinstance(v, bool):
                E.prove('the first cell starts at zero', iexpr(v) == 0)
                kinds.append('start')
            else:
                kinds.append('free')
        unknown = loops.UNBOUND
        if E.decide(E.fresh(z3.BoolSort(), 'round')):
            k = w.k = E.int('k').e
            E.assume(k >= 0)
            E.assume(k < self.n)
            w.facts(k)
            L.apply([core.SInt(z3.If(k == 0, z3.IntVal(0), w.off(k - 1)))
                     if c == 'start' else unknown for c in kinds])
            E.cover('round')
            yield self.elem(k)
            if L.exited:
                raise Unsupported('loop over the cells left early')
            for c, v in zip(kinds, L.read()):
                if c == 'start':
                    if isinstance(v, (loops.Poison, loops.Unbound)):
                        raise Unsupported('variable of the loop')
                    E.prove('the next cell starts where this one ends',
                            iexpr(v) == w.off(k))
            w.round_end()
            raise core.PathEnd()
        L.apply([unknown for c in kinds])


class View(Strict):
    def __init__(self, w, a, b, perm=None):
        self.w, self.a, self.b, self.perm = w, a, b, perm

    def copy(self):
        return View(self.w, self.a, self.b, self.perm)

    def __getitem__(self, p):
        if isinstance(p, tuple) and len(p) == 1:
            p, = p
        if isinstance(p, np.ndarray):
            p = p.tolist()
        if not isinstance(p, (list, tuple)) or not all(
                isinstance(x, int) for x in p) or self.perm is not None:
            raise Unsupported('index of the data of a cell')
        return View(self.w, self.a, self.b, tuple(p))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of the data of a cell' % n)


class Data(Strict):
    """the data: node values of all cells"""
    born = None

    def __init__(self, w):
        self.w = w

    def bounds(self, s):
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported('index of the data')
        a = z3.IntVal(0) if s.start is None else iexpr(s.start)
        if s.stop is None:
            raise Unsupported('rest of the data')
        return a, iexpr(s.stop)

    def __getitem__(self, s):
        if self.w.stores:
            raise Unsupported('data read after a store')
        return View(self.w, *self.bounds(s))

    def __setitem__(self, s, v):
        if not isinstance(v, View):
            raise Unsupported('data stored')
        self.w.stores.append((self.bounds(s), v))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of the data' % n)


class Cells(object):
    """n cells with increasing offsets"""

    def __init__(self, E, sizes, table):
        self.E, self.table = E, table
        self.n = E.int('n').e
        E.assume(self.n >= 0)
        O = z3.Function('offset', z3.IntSort(), z3.IntSort())
        T = z3.Function('type', z3.IntSort(), z3.IntSort())
        self.off, self.typ = (lambda k: O(z3.simplify(k))), \
            (lambda k: T(z3.simplify(k)))
        self.sizes = sizes
        self.loops, self.stores, self.k = 0, [], None
        self.data = Data(self)
        self.offsets = IVec(self.n, self.off)
        self.types = IVec(self.n, self.typ)

    def facts(self, k):
        E = self.E
        a = z3.If(k == 0, z3.IntVal(0), self.off(k - 1))
        E.assume(z3.And(a >= 0, self.off(k) > a))
        for t, p in self.table.items():
            E.assume(z3.Implies(self.typ(k) == t, self.off(k) - a == len(p)))

    def round_end(self):
        E, k = self.E, self.k
        a = z3.If(k == 0, z3.IntVal(0), self.off(k - 1))
        b = self.off(k)
        t = self.typ(k)
        st = self.stores
        # the last permutation stored for the cell, as positions
        for (x, y), v in st:
            E.prove('values are stored in their own cell', z3.And(
                x == a, y == b, v.a == a, v.b == b))
        if len(st) > 1:
            raise Unsupported('several stores of a cell')
        perm = st[0][1].perm if st else None
        for c in self.table:
            E.prove('the nodes of an element of type %d get the order of '
                    'VTK' % c, z3.Implies(t == c, z3.BoolVal(
                        perm == self.table[c])))
        E.prove('the nodes of other elements keep their order', z3.Or(
            z3.BoolVal(perm is None or perm == tuple(range(len(perm)))), *[
                t == c for c in self.table]))


def reorder_module(np_=None):
    def len_(x):
        return x.vlen() if hasattr(x, 'vlen') else shims.BUILTINS.get(
            'len', len)(x)

    def zip_(*a, **k):
        if a and all(isinstance(x, IVec) for x in a) and not k:
            return Rounds(a[0].n, lambda i: tuple(core.SInt(x.f(i))
                                                  for x in a))
        return shims.BUILTINS.get('zip', zip)(*a, **k)

    def range_(*a):
        if len(a) == 1 and isinstance(a[0], core.SInt):
            return Rounds(z3.simplify(a[0].e), lambda i: core.SInt(i))
        return shims.BUILTINS.get('range', range)(*a)

    def enumerate_(a, start=0):
        if isinstance(a, IVec):
            a = Rounds(a.n, lambda i, f=a.f: core.SInt(f(i)))
        if isinstance(a, Rounds) and start == 0:
            return Rounds(a.n, lambda i: (core.SInt(i), a.elem(i)))
        return shims.BUILTINS.get('enumerate', enumerate)(a, start)
    m = inst.load(FILE, package='freesif.utils', builtin_over=dict(
        zip=zip_, len=len_, range=range_, enumerate=enumerate_))
    for n, v in list(m.__dict__.items()):
        if isinstance(v, dict) and v and all(
                isinstance(k, int) for k in v) and not n.startswith('__'):
            m.__dict__[n] = Table(v)
    return m


def reorder(which):
    E = Engine('_reorder_%s_vtk' % which)
    E.on_refute = lambda E, m: {'n': str(m.eval(E.world.n))} if hasattr(
        E, 'world') else None

    def body():
        m = reorder_module()
        w = Cells(E, None, CON if which == 'connectivity' else RES)
        E.world = Rounds.world = w
        try:
            if which == 'connectivity':
                r = m._reorder_connectivity_vtk((w.data, w.offsets, w.types))
            else:
                r = m._reorder_cellpointdata_vtk(w.data, w.offsets, w.types)
        except core.PathEnd:
            raise
        except (KeyError, IndexError) as e:
            if not getattr(e, 'semantic', False):
                raise Unsupported(repr(e))
            E.fail('every list of elements is reordered', repr(e))
            return
        if not w.loops:
            raise Unsupported('no loop over the cells')
        E.prove('nothing else is stored', z3.BoolVal(not w.stores))
        E.cover('returns')
    return E.explore(body)


def mapper():
    E = Engine('typeidmapper')

    def body():
        m = reorder_module()
        f = m.typeidmapper
        if not isinstance(f, np.vectorize):
            raise Unsupported('typeidmapper')
        if f.excluded or f.signature is not None:
            raise Unsupported('typeidmapper')
        if f.otypes is not None and f.otypes not in ('l', 'i', 'q'):
            raise Unsupported('type of the ids')
        t = E.int('type')
        known = z3.Or([t.e == c for c in VTK])
        try:
            r = f.pyfunc(t)
        except KeyError as e:
            if not getattr(e, 'semantic', False):
                raise Unsupported(repr(e))
            E.cover('refused')
            E.prove('only unknown element types are refused', z3.Not(known))
            return
        E.cover('known')
        E.prove('unknown element types are refused', known)
        if not isinstance(r, int):
            raise Unsupported('VTK id')
        E.prove('the VTK id of the element type', z3.And(
            [z3.Implies(t.e == c, z3.BoolVal(r == v))
             for c, v in VTK.items()]))
    return E.explore(body)


def tasks20():
    return [Task('VtuWriter, contents of the data arrays', contents, (),
                 replay=replay),
            Task('_reorder_connectivity_vtk', reorder, ('connectivity',),
                 replay=replay_reorder),
            Task('_reorder_cellpointdata_vtk', reorder, ('cellpointdata',),
                 replay=replay_reorder),
            Task('typeidmapper', mapper, (), replay=replay_reorder)]


def tasks():
    return tasks19() + tasks20()
