"""Contracts of the conversion (C06, C07, C08).

sif2hdf5 and parse_file run on stand-ins of the input files, the HDF5 library
and os.path that record what they are asked for.  Reading the records of one
file is replaced at one point only: when parse_file asks for the first header,
the module is given the effect that the readers have on its global data
(contracts of ident_reader and hierarch_reader, C03) and whatever else they
keep, and "end of file" is returned.  Names, prefixes, numbers and the
hierarchy table (any number of rows) are symbolic.
"""
import ast
import os
import inspect
import z3
from . import core, inst, seq, shims, strs, loops, nameparts
from .core import Engine, SInt, SBool, Unsupported, PathEnd, wrap, sem
from .seq import SList, Seq, Map, Filt, iexpr
from .strs import SStr
from .report import Task

SIF = 'freesif/sequentialparser/sif2hdf5.py'
PARSERS = 'freesif/sequentialparser/parsers.py'
FILES = 'freesif/sequentialparser/sequentialfiles.py'
I, ST, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
COLS = ('ihref', 'iselty', 'indsel', 'islevl')
EXISTS = z3.Function('file exists', ST, B)
SELN = z3.Function('superelement of file', ST, I)
ABS = z3.Function('absolute', ST, ST)
UNF = z3.Const('unformatted', B)
FDIR, FP, STEM = [z3.String(x) for x in ('dir', 'fileprefix', 'number')]
NOPE = Unsupported

# what reset() and the setters keep of earlier files
TOP = ('has_hierarch', 'hierarch_table', 'hierarch_ihsref', 'toplevel_hrec')
SET = ('groupname_prefix', 'filetypeid')
EXECUTED = ('get_path', 'parse_file', 'has_hierarchy', 'get_hierarch_table',
            'set_current_ihref', 'set_groupname_prefix', 'set_filetypeid',
            'reset')
TRUSTED = [
    'reading the records of a file changes the global data as the readers do '
    '(C03): IDENT sets the superelement number when there is none, HIERARCH '
    'the table, its first record and the two switches; lower-level files '
    'hold no HIERARCH records; the other data are left in any state',
    'hierarchy table as Sesam writes it: record k has the reference number '
    'k+1; structural results files have one; the other files of the hierarchy '
    'are formatted like the top-level file',
    'os.path, tables.open_file, print and the constructors of the file '
    'classes do what they say; the file name is absolute and no link',
    'file names are printable ASCII (regular expressions decided over '
    'that alphabet); the re module implements them']


def positive(f):
    return lambda x: z3.If(f(x) >= 1, f(x), z3.IntVal(1))


SEL = positive(SELN)
# occurrences have an index, rows are numbered
COL = {c: positive(z3.Function(c, I, I)) for c in COLS}
COL['islevl'] = z3.Function('islevl', I, I)
COL['ihref'] = lambda k: k + 1


def S(e):
    return SStr(e if isinstance(e, z3.ExprRef) else z3.StringVal(e), 'str')


def cat(*a):
    a = [strs.sexpr(x) if not isinstance(x, z3.ExprRef) else x for x in a]
    return S(z3.simplify(z3.Concat(*a)) if len(a) > 1 else a[0])


DIGITS = z3.Function('decimal', I, ST)


def num(e):
    if z3.is_int_value(e):
        return z3.StringVal(str(e.as_long()))
    return DIGITS(e)


class Junk(object):
    """left by an earlier conversion"""

    def __init__(self, n):
        self.__dict__['n'] = n

    def _use(self, *a, **k):
        E = core.ENG
        if E is not None:
            E.fail('data of earlier conversions are not used', self.n)
        raise PathEnd()
    __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = _use
    __contains__ = __add__ = __radd__ = __str__ = __eq__ = __ne__ = _use
    __call__ = __int__ = __index__ = __float__ = __format__ = __lt__ = _use
    __gt__ = __le__ = __ge__ = __sub__ = __mul__ = __rsub__ = _use
    __hash__ = object.__hash__

    def __repr__(self):
        return 'left by an earlier conversion'

    def sym_str(self):
        return self._use()

    def sym_int(self):
        return self._use()

    def sym_len(self):
        return self._use()

    def __getattr__(self, n):
        if n.startswith('__') or n in INTERNAL:
            raise AttributeError(n)
        raise NOPE('.%s of data of earlier conversions' % n)


# ---- a position in a filtered sequence ------------------------------------


class Pos(object):
    def __init__(self, p, k):
        self.p, self.k = p, k

    def subst(self, p):
        return Pos(self.p, z3.substitute(self.k, *p))

    def exprs(self):
        return [self.k]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise NOPE('position in a filtered list')

    def _no(self, *a):
        raise NOPE('position in a filtered list')
    __eq__ = __lt__ = __gt__ = __add__ = __radd__ = __index__ = _no
    __hash__ = None


def only_filt(x):
    s = x.seq if isinstance(x, SList) else x
    if isinstance(s, Seq):
        ps = [p for p in s.parts if p != ()]
        if len(ps) == 1 and isinstance(ps[0], Filt):
            return ps[0]


def cond(f):
    k = z3.Int('k!same')
    return z3.simplify(f.p(k))


def enumerate_(x, start=0):
    f = only_filt(x)
    if f is None:
        return shims.enumerate_(x, start)
    if not (isinstance(start, int) and start == 0):
        raise NOPE('enumerate from another start')
    return Seq('list', (Filt(f.n, f.p, lambda k: (Pos(cond(f), k),
                                                  f.v(k))),))


def zip_(*a):
    fs = [only_filt(x) for x in a]
    if any(f is None for f in fs):
        return shims.zip_(*a)
    f = fs[0]
    if any(not cond(g).eq(cond(f)) or not g.n.eq(f.n) for g in fs):
        raise NOPE('zip of differently filtered lists')
    return Seq('list', (Filt(f.n, f.p, lambda k: tuple(
        g.v(k) for g in fs)),))


class FLen(SInt):
    """length of a filtered sequence"""
    filt = None


def len_(x):
    r = shims.len_(x)
    f = only_filt(x)
    if f is None or not isinstance(r, SInt):
        return r
    r = FLen(r.e)
    r.filt = f
    return r


def range_(*a):
    if len(a) == 2 and isinstance(a[0], int) and a[0] == 0:
        a = a[1:]
    if len(a) == 1 and isinstance(a[0], FLen):
        f = a[0].filt
        return Seq('list', (Filt(f.n, f.p, lambda k: Pos(cond(f), k)),))
    return shims.range_(*a)


def counted(E):
    """does the path depend on how many rows a filter leaves?"""
    seen, todo = set(), list(E.pc)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith('count<'):
            return True
        todo += x.children()
    return False


class HList(SList):
    def __getitem__(self, i):
        if isinstance(i, Pos):
            f = only_filt(self)
            if f is None or not cond(f).eq(i.p):
                raise NOPE('position of another filtered list')
            return f.v(i.k)
        return SList.__getitem__(self, i)


class VC(inst.VC):
    @staticmethod
    def mklist(l):
        return HList(l) if core.ENG is not None else l

    @staticmethod
    def symbolic(a):
        return isinstance(a, (SStr, SInt, Junk))

    @staticmethod
    def piece(a):
        return text(a)


def text(x='', *a):
    if isinstance(x, SInt):
        return S(num(x.e))
    if isinstance(x, Junk):
        return x.sym_str()
    return shims.str_(x, *a)


shims.REAL[text] = str


# ---- stand-ins ------------------------------------------------------------


INTERNAL = ('item', 'as_seq', 'seq', 'loop', 'exprs', 'born', 'subst',
            'ite_with', 'e', 'get_state', 'fields', 'dtype', 'sym_len',
            'sym_str', 'sym_int', 'sym_float', 'sym_isinstance', 'sym_set',
            'sym_sorted', 'eq_obligations', 'is_nan')


class Stub(object):
    what = 'a stand-in'

    def __getattr__(self, n):
        if n.startswith('__') or n in INTERNAL:
            raise AttributeError(n)
        raise NOPE('.%s of %s' % (n, self.what))

    def _no(self, *a):
        raise NOPE('operation on ' + self.what)
    __iter__ = __len__ = __contains__ = __getitem__ = __call__ = _no


class Row(Stub):
    """row i of the hierarchy table"""
    what = 'a hierarchy record'

    def __init__(self, i):
        self.i = iexpr(i)

    def __getitem__(self, c):
        if c not in COL:
            raise NOPE('column %r of the hierarchy' % (c,))
        return wrap(COL[c](self.i))

    def subst(self, p):
        return Row(z3.substitute(self.i, *p))

    def exprs(self):
        return [self.i]

    def ite_with(self, c, o):
        if not isinstance(o, Row):
            raise NOPE('merge of hierarchy records')
        return Row(z3.If(c, self.i, o.i))


class Table(Stub):
    """the hierarchy table"""
    what = 'the hierarchy table'

    def __init__(self, n):
        self.n = n

    @property
    def nrows(self):
        return wrap(self.n)

    def sym_len(self):
        return wrap(self.n)

    def part(self, a):
        n = z3.simplify(self.n - a)
        return Seq('list', (Map(n, lambda k: Row(z3.simplify(
            iexpr(k) + a))),))

    def as_seq(self):
        return self.part(0)

    def __bool__(self):
        return True

    def __getitem__(self, i):
        if isinstance(i, slice):
            if isinstance(i.start, int) and i.start >= 0 and \
                    i.stop is None and i.step in (None, 1):
                return self.part(i.start)
            if i.start is None and i.stop is None and i.step is None:
                return self.part(0)
            raise NOPE('part of the hierarchy table')
        e = z3.simplify(iexpr(i))
        if not core.ENG.must(z3.And(e >= 0, e < self.n)):
            raise NOPE('row of the hierarchy table')
        return Row(e)

    def iterrows(self, start=None, stop=None, step=None):
        if stop is not None or step not in (None, 1):
            raise NOPE('rows of the hierarchy table')
        return self.part(start or 0)

    def read(self, *a, **k):
        return self.iterrows(*a, **k)

    def __iter__(self):
        raise NOPE('iteration of the hierarchy table')


class Group(Stub):
    what = 'a group'

    def __init__(self, w, where):
        self.__dict__.update(w=w, where=where)

    @property
    def _v_attrs(self):
        return Attrs(self)

    def _f_setattr(self, n, v):
        self.w.attr(self.where, n, v)


class Attrs(object):
    def __init__(self, g):
        self.__dict__['g'] = g

    def __setattr__(self, n, v):
        self.g._f_setattr(n, v)
    __setitem__ = __setattr__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise NOPE('attribute of a group')


class Out(Stub):
    what = 'the output file'

    def __init__(self, w):
        self.w = w

    def __bool__(self):
        return True

    def get_node(self, where, *a, **k):
        if a or k:
            raise NOPE('get_node')
        return Group(self.w, where)

    def set_node_attr(self, where, n, v):
        self.w.attr(where.where if isinstance(where, Group) else where, n, v)

    def flush(self):
        pass

    def close(self):
        self.w.outclosed.append(1)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class In(Stub):
    """an input file"""
    what = 'an input file'

    def __init__(self, w, name, unf):
        self.w, self.name, self.unf = w, name, unf
        w.opened.append((name, wrap(z3.BoolVal(unf) == UNF)))

    def read_headerrec(self):
        self.w.checkpoint(self)
        return None, None

    def close(self):
        self.w.closed.append((self.name,))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __bool__(self):
        return True


class Raw(Stub):
    what = 'the input file'

    def __init__(self, w, unf):
        self.first, self.w, self.unf = True, w, unf

    def read(self, n=-1):
        if n != 1 or not self.first:
            raise NOPE('reading the input file')
        self.first = False
        return b'K' if self.w.E.decide(UNF) else b' '

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Path(Stub):
    what = 'os.path'
    sep = '/'

    def __init__(self, w):
        self.w = w

    def mine(self, p):
        return isinstance(p, SStr) and p.e.eq(self.w.sif.e)

    def realpath(self, p):
        if self.mine(p):
            return p
        raise NOPE('realpath')

    def abspath(self, p):
        if self.mine(p):
            return p
        return S(ABS(strs.sexpr(p)))

    def split(self, p):
        if self.mine(p):
            return S(FDIR), self.w.fname
        raise NOPE('split')

    def dirname(self, p):
        return self.split(p)[0]

    def basename(self, p):
        return self.split(p)[1]

    def join(self, *a):
        out = a[0]
        for x in a[1:]:
            out = out + '/' + x
        return out

    def isfile(self, p):
        if self.mine(p):
            return True
        return wrap(EXISTS(strs.sexpr(p)))
    exists = isfile

    def splitext(self, p):
        if p is self.w.fname:
            return S(self.w.stem), S(z3.StringVal('.' + self.w.ext))
        raise NOPE('splitext')


class Os(Stub):
    what = 'os'

    def __init__(self, w):
        self.path = Path(w)


class FName(SStr):
    """the name of the file without its directory"""

    def __init__(self, w):
        SStr.__init__(self, w.fname_e, 'str')
        self.w = w

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.step is None and \
                isinstance(i.stop, int):
            if i.stop == -3:
                return cat(self.w.stem, '.')
            if i.stop == -4:
                return S(self.w.stem)
        raise NOPE('part of the file name')

    def __format__(self, f):
        return 'file name'
    __str__ = lambda self: 'file name'


class Tb(Stub):
    what = 'tables'

    def __init__(self, w):
        self.w = w

    def open_file(self, filename, mode='r', title='', root_uep='/',
                  filters=None, **kw):
        w = self.w
        w.touched.append('open_file')
        if w.out is not None:
            w.E.fail('one output file is opened')
            raise PathEnd()
        w.out = Out(w)
        w.outargs = (filename, mode, kw)
        return w.out


class Re(Stub):
    """the re module; what it is asked is recorded"""
    what = 're'
    I = IGNORECASE = 2
    A = ASCII = 256

    def __init__(self, w):
        self.w = w

    def match(self, pattern, s, flags=0):
        return self.found(pattern, s, flags, 'match')

    def fullmatch(self, pattern, s, flags=0):
        return self.found(pattern, s, flags, 'fullmatch')

    def compile(self, pattern, flags=0):
        return Compiled(self, pattern, flags)

    def found(self, pattern, s, flags, how):
        if s is not self.w.fname:
            raise NOPE('match of another text')
        self.w.patterns.append((pattern, int(flags), how))
        return Match(self.w) if self.w.valid else None


class Compiled(Stub):
    what = 'a pattern'

    def __init__(self, re, pattern, flags):
        self.re, self.pattern, self.flags = re, pattern, flags

    def match(self, s):
        return self.re.found(self.pattern, s, self.flags, 'match')

    def fullmatch(self, s):
        return self.re.found(self.pattern, s, self.flags, 'fullmatch')


class Match(Stub):
    what = 'a match'

    def __init__(self, w):
        self.d = {'prefix': S(FP), 'letter': w.letter, 'ext': w.ext,
                  'selno': S(z3.String('selno'))}

    def __bool__(self):
        return True

    def groupdict(self, *a):
        return dict(self.d)

    def group(self, *n):
        for x in n:
            if x not in self.d:
                raise NOPE('group %r' % (x,))
        r = tuple(self.d[x] for x in n)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, n):
        return self.group(n)


class Only(Stub):
    what = 'the filter'

    def __bool__(self):
        return True


# ---- global data ----------------------------------------------------------


def state(rel):
    """{name: (functions reading it, functions changing it)} of the global variables that functions
    change; anything else that could keep data is outside the model"""
    import warnings
    with open(os.path.join(inst.REPO, rel)) as f, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(f.read())
    glob = set()
    for n in tree.body:
        for t in ast.walk(n) if isinstance(n, (ast.Assign, ast.AnnAssign,
                                               ast.AugAssign)) else ():
            if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                glob.add(t.id)
    changed, reads = {}, {}
    mut = ('append', 'extend', 'update', 'add', 'insert', 'pop', 'popitem',
           'clear', 'setdefault', 'remove', 'discard', 'sort', 'reverse')
    funcs = [n for n in ast.walk(tree) if isinstance(n, (
        ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef))]
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            for n in c.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(
                        n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                                  ast.DictComp, ast.SetComp)):
                    raise NOPE('data kept by a class: ' + c.name)
    for f in funcs:
        for d in f.args.defaults + f.args.kw_defaults:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                raise NOPE('a default argument that can change')
        args = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        g = {x for n in ast.walk(f) if isinstance(n, ast.Global)
             for x in n.names}
        loc = (args | {n.id for n in ast.walk(f) if isinstance(n, ast.Name)
                       and isinstance(n.ctx, ast.Store)}) - g
        for n in ast.walk(f):
            if isinstance(n, ast.Nonlocal):
                raise NOPE('nonlocal')
            x = None
            if isinstance(n, ast.Name) and n.id in g and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                x = n.id
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                x = b.id if isinstance(b, ast.Name) else None
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in mut and \
                    isinstance(n.func.value, ast.Name):
                x = n.func.value.id
            if x and x not in loc and (x in glob or x in g):
                changed.setdefault(x, set()).add(getattr(f, 'name', '-'))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id not in loc and n.id in glob | g:
                if isinstance(f, ast.Lambda):
                    reads.setdefault(n.id, set()).add('lambda')
                else:
                    reads.setdefault(n.id, set()).add(f.name)
    return {x: (reads.get(x, set()), w) for x, w in changed.items()}


# functions that change what selects files and groups
WRITERS = {
    'current_ihref': {'reset', 'set_current_ihref'},
    'current_indsel': {'reset', 'set_current_ihref'},
    'current_seltyp': {'reset', 'ident_reader', 'hierarch_reader'},
    'filetypeid': {'reset', 'set_filetypeid'},
    'attoplevel': {'reset', 'hierarch_reader'},
    'groupname_prefix': {'set_groupname_prefix'},
    'has_hierarch': {'reset', 'hierarch_reader'},
    'hierarch_table': {'reset', 'hierarch_reader'},
    'hierarch_ihsref': {'reset', 'hierarch_reader'},
    'toplevel_hrec': {'reset', 'hierarch_reader'},
    'current_hrec': {'reset', 'hierarch_reader', 'set_current_ihref'}}
KNOWN = ('rec_size', 'current_ihref', 'current_indsel', 'current_seltyp',
         'filetypeid', 'attoplevel', 'groupname_prefix', 'has_hierarch',
         'hierarch_table', 'hierarch_ihsref', 'toplevel_hrec',
         'current_hrec', 'tables', 'record_names', 'record_count',
         'elem_data', 'rdpoints_data', 'nsp_data', 'rdresref_data',
         'lenrec_data')


def once(f):
    memo = []

    def g():
        if not memo:
            memo.append(f())
        return memo[0]
    return g


@once
def frame():
    st = state(PARSERS)
    for rel in (FILES, SIF):
        for x in state(rel):
            raise NOPE('data kept in %s: %s' % (rel, x))
    for x in st:
        if x not in KNOWN:
            raise NOPE('data kept in %s: %s' % (PARSERS, x))
        if st[x][1] - WRITERS.get(x, st[x][1]):
            raise NOPE('%s is changed in %s' % (x, sorted(st[x][1])))
    return {x: r for x, (r, w) in st.items()}


MODS = {}


def module(rel, package=None):
    """the module as it is when it has been imported"""
    if rel not in MODS:
        E, core.ENG = core.ENG, None
        try:
            m = inst.load(rel, builtin_over=OVER, package=package)
            keep = dict(m.__dict__)
        finally:
            core.ENG = E
        MODS[rel] = m, keep
    m, keep = MODS[rel]
    m.__dict__.clear()
    for k, v in keep.items():
        if isinstance(v, (dict, list)) and not k.startswith('__'):
            v = type(v)(v)
        m.__dict__[k] = v
    m.__dict__['__vc__'] = VC
    return m


OVER = {'len': len_, 'range': range_, 'str': text, 'enumerate': enumerate_, 'zip': zip_}


def initial(v, v0):
    if v0 is None or isinstance(v0, (bool, int, str)):
        return v is v0 or type(v) is type(v0) and v == v0
    if isinstance(v0, (dict, seq.SDict)):
        return isinstance(v, (dict, seq.SDict)) and len(v) == 0
    if isinstance(v0, (list, SList)):
        return isinstance(v, (list, SList)) and len(v) == 0
    return v is v0


# ---- the world ------------------------------------------------------------


class World(object):
    def __init__(self, E, letter='T', ext='FEM', valid=True,
                 hierarchy=False):
        self.E, self.letter, self.ext, self.valid = E, letter, ext, valid
        self.hierarchy = hierarchy
        self.stem = z3.Concat(FP, z3.StringVal(letter), STEM)
        self.fname_e = z3.Concat(self.stem, z3.StringVal('.' + ext))
        self.fname = FName(self)
        self.sif = S(z3.Concat(FDIR, z3.StringVal('/'), self.fname_e))
        self.touched, self.patterns, self.outclosed = [], [], []
        self.out = self.outargs = None
        self.parsed, self.opened, self.closed, self.printed = [
            SList() for _ in range(4)]
        self.attrs = {n: SList() for n in (
            'LEVEL', 'DATATYPE', 'SELTYP', 'FILETYPE', 'INDEX')}
        self.places = {x: SList() for x in (
            'table of GNODE', 'table of GELMNT1', 'array of GELMNT1')}
        self.calls = SList()
        self.lower = False
        self.table = None
        self.only = Only()
        self.load()

    def load(self):
        E = self.E
        self.st = frame()
        P = self.P = module(PARSERS)
        self.init = {x: P.__dict__.get(x) for x in self.st}
        M = self.M = module(SIF)
        M.__dict__['print'], M.__dict__['open'] = self.print_, self.open_
        import freesif.sequentialparser.parsers as real
        import freesif.sequentialparser.sequentialfiles as rf
        import re
        import tables
        o = Os(self)
        table = [(real, P), (tables, Tb(self)), (re, Re(self)), (os, o),
                 (os.path, o.path),
                 (rf.FormattedFile, lambda n, *a: self.infile(n, a, False)),
                 (rf.UnformattedFile, lambda n, *a: self.infile(n, a, True))]
        for k, v in list(M.__dict__.items()):
            if k.startswith('__'):
                continue
            for x, y in table:
                if v is x:
                    M.__dict__[k] = y
            if inspect.isfunction(v) and v.__module__ == real.__name__:
                raise NOPE('functions imported from parsers')
        self.parse = pf = P.parse_file
        sig = inspect.signature(pf)

        def parse_file(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            d = b.arguments
            if not {'in_file', 'out_file', 'only'} <= set(d):
                raise NOPE('signature of parse_file')
            E.prove('the records go to the output file', z3.BoolVal(
                d['out_file'] is self.out))
            E.prove('the record filter is handed on',
                    z3.BoolVal(d['only'] is self.only))
            return pf(*a, **k)
        P.parse_file = parse_file
        for x in self.st:
            E.track(P, x)
            setattr(P, x, Junk(x))

    def infile(self, name, a, unf):
        if a and a != ('r',):
            raise NOPE('mode of an input file')
        self.touched.append('input file')
        return In(self, name, unf)

    def open_(self, name, mode='r', *a, **k):
        self.touched.append('open')
        if not (isinstance(name, SStr) and name.e.eq(self.sif.e)) or \
                mode != 'rb':
            raise NOPE('open')
        return Raw(self, UNF)

    def print_(self, *a, **k):
        out = S('')
        for x in a:
            x = text(x)
            if not isinstance(x, (str, SStr)):
                raise NOPE('print')
            out = out + x
        self.printed.append((out,))

    def attr(self, where, n, v):
        E = self.E
        if isinstance(where, str):
            where = S(where)
        if n == 'RECORDS':
            E.prove('the list of stored record types', z3.BoolVal(
                [x for x in v] == ['TDLOAD', 'GNODE']
                if isinstance(v, (list, tuple, SList)) else False))
            return
        if n not in self.attrs:
            return
        if isinstance(v, str):
            v = S(v)
        if v is None:
            v = SInt(z3.IntVal(-1))
        if isinstance(v, int) and not isinstance(v, bool):
            v = SInt(z3.IntVal(v))
        if not isinstance(v, (SStr, SInt)):
            if isinstance(v, Junk):
                v._use()
            raise NOPE('value of an attribute: %r' % (v,))
        self.attrs[n].append((where, v))

    def checkpoint(self, f):
        """parse_file starts to read f"""
        E, P = self.E, self.P
        keep = SET + (TOP + ('current_ihref', 'current_indsel',
                             'current_hrec') if self.lower else ())
        for x in sorted(self.st):
            v = getattr(P, x)
            if x in keep:
                if isinstance(v, Junk) and self.st[x]:
                    E.fail('%s is set for each conversion' % x)
                    raise PathEnd()
                continue
            if isinstance(v, core.Poison):
                raise NOPE('state of ' + x)
            ok = initial(v, self.init[x]) or not self.st[x] - set(EXECUTED)
            E.prove('%s starts afresh with each file' % x, z3.BoolVal(ok))
        self.parsed.append((f.name, P.groupname_prefix, self.ft()))
        sel = SEL(f.name.e)
        P.current_seltyp = wrap(sel)
        self.where('with a new number')
        if self.hierarchy and not self.lower:
            n = z3.Const('rows', I)
            E.assume(n >= 1)
            E.assume(COL['iselty'](z3.IntVal(0)) == sel)
            self.table = t = Table(n)
            P.hierarch_table = t
            P.hierarch_ihsref = Stub()
            P.toplevel_hrec = P.current_hrec = t[0]
            P.has_hierarch = P.attoplevel = True
            self.where('after the hierarchy')
        r = P.record_names
        for x in ('TDLOAD', 'GNODE', 'TDLOAD'):
            r.append(x)
        for x in ('elem_data', 'rdpoints_data', 'nsp_data', 'tables',
                  'rdresref_data', 'lenrec_data', 'record_count',
                  'rec_size'):
            if x in self.st:
                setattr(P, x, Junk(x))
        self.lower = True

    def where(self, when):
        """tables made now belong to the group of the superelement"""
        w = self

        class Sink(Stub):
            what = 'the output file'

            def __init__(self, rec):
                self.rec = rec

            def create(self, kind, where):
                if kind + self.rec not in w.places:
                    raise NOPE('tables of ' + self.rec)
                w.places[kind + self.rec].append((text(where) if not
                                                  isinstance(where, (
                                                      str, SStr)) else where,))
                return Sink(self.rec)

            def create_table(self, where, name, *a, **k):
                return self.create('table of ', where)

            def create_earray(self, where, *a, **k):
                return self.create('array of ', where)

            def __bool__(self):
                return True

        class Tabs(Stub):
            what = 'the tables'
            v = None

            def __setitem__(self, k, v):
                self.v = v

            def __getitem__(self, k):
                return self.v

            def get(self, k, d=None):
                return d if self.v is None else self.v

            def __contains__(self, k):
                return self.v is not None
        for n in ('GNODE',) if self.lower else ('GNODE', 'GELMNT1'):
            self.P.tables = t = Tabs()
            t.born = self.E.stack[-1]
            self.P.get_table(n, Sink(n))

    def ft(self):
        v = self.P.filetypeid
        return S(v) if isinstance(v, str) else v


def switches(name):
    """IDENT and HIERARCH records set what the model of reading says"""
    from . import readers
    if name == 'IDENT':
        return ident()
    st = frame()

    def before(E, mod, hdr, run):
        own = [x for x in WRITERS if name == 'HIERARCH' and
               'hierarch_reader' in WRITERS[x]]
        keep = {}
        for x in st:
            if x in own:
                setattr(mod, x, Junk(x))
            keep[x] = getattr(mod, x)
        sel = core.trunc(hdr[1][2].e)
        mod.current_seltyp = None
        tabs = []
        real = mod.get_table

        def get_table(*a, **k):
            E.prove_eq('the superelement number is set before tables are '
                       'made', mod.current_seltyp, wrap(sel))
            r = real(*a, **k)
            tabs.append(r)
            return r
        mod.get_table = get_table

        def after():
            E.cover('switches')
            ok = len(tabs) == 1 and isinstance(tabs[0], tuple)
            if not ok:
                raise NOPE('tables of the hierarchy')
            t, a = tabs[0]
            E.prove_eq('the superelement number is that of the first record',
                       mod.current_seltyp, wrap(sel))
            for x, v in (('has_hierarch', True), ('attoplevel', True),
                         ('hierarch_table', t), ('hierarch_ihsref', a),
                         ('toplevel_hrec', ('row', 0)),
                         ('current_hrec', ('row', 0))):
                y = getattr(mod, x)
                if isinstance(y, (SBool, core.Poison)) or type(
                        y) is not type(v):
                    if isinstance(y, (SBool, core.Poison, Junk)):
                        raise NOPE('value of ' + x)
                E.prove('%s is set' % x, z3.BoolVal(
                    y is v or isinstance(v, tuple) and y == v))
            for x in st:
                if x not in own:
                    E.prove('%s is left alone' % x, z3.BoolVal(
                        getattr(mod, x) is keep[x]))
        return after
    mod, spec = readers.prepare()
    E = readers.verify(name, mod, spec, state=before)
    return E


def ident():
    E = Engine('ident_reader')
    st = frame()

    def body():
        P = module(PARSERS)
        w = E
        keep = {}
        for x in st:
            keep[x] = Junk(x)
            setattr(P, x, keep[x])
        old = pick(E, 'number', None, wrap(z3.Const('number', I)))
        if old is not None:
            E.assume(old.e >= 1)
        P.current_seltyp = old
        rec = tuple(wrap(z3.Const('H%d' % j, z3.RealSort()))
                    for j in range(4))
        want = old if old is not None else wrap(core.trunc(rec[1].e))
        rows = []

        class Row1(Stub):
            what = 'the row of a table'

            def __init__(self):
                self.d = {}

            def __setitem__(self, c, v):
                self.d[c] = v

            def append(self):
                rows.append(dict(self.d))

        class T1(Stub):
            what = 'a table'
            row = Row1()

            def flush(self):
                pass

        class F1(Stub):
            what = 'the input file'
            nxt = ('NAME', ())

            def read_headerrec(self):
                return self.nxt
        f, o = F1(), Out.__new__(Out)

        def get_table(n, out):
            E.prove('table of the record type', z3.BoolVal(
                n == 'IDENT' and out is o))
            E.prove_eq('the superelement number is set before tables are '
                       'made', P.current_seltyp, want)
            return T1()
        P.get_table = get_table
        r, ex = sem_run(E, P.readers['IDENT'], 'IDENT', rec, f, o)
        if ex is not None:
            E.fail('no exception', repr(ex)[:60])
            return
        E.cover('returns')
        E.prove_eq('the superelement number is kept, or set when there is '
                   'none', P.current_seltyp, want)
        E.prove('one row is stored', z3.BoolVal(len(rows) == 1))
        E.prove('the next header is returned', z3.BoolVal(r is f.nxt))
        for x in st:
            if x != 'current_seltyp':
                E.prove('%s is left alone' % x, z3.BoolVal(
                    getattr(P, x) is keep[x]))
    E.explore(path_of(body))
    return E


def sem_run(E, f, *a, **k):
    """(result, exception raised by the program)"""
    try:
        return f(*a, **k), None
    except Exception as ex:
        if getattr(ex, 'semantic', False):
            return None, ex
        raise


def path_of(fn):
    def body():
        try:
            fn()
        except (TypeError, AttributeError, KeyError, IndexError, NameError,
                ValueError, AssertionError) as ex:
            if os.environ.get('PYVC_DEBUG'):
                raise
            raise NOPE('%r' % ex)
    return body


def flag(E, name):
    return E.decide(z3.Const(name, B))


def pick(E, name, *vals):
    c = z3.Const(name, I)
    for j, v in enumerate(vals[:-1]):
        if E.decide(c == j):
            return v
    return vals[-1]


def single(letter, ext, hierarchy):
    """one file; with a hierarchy of any size"""
    E = Engine('sif2hdf5, %s file (.%s)%s' % (
        letter, ext, ', hierarchy' if hierarchy else ''))

    def body():
        w = World(E, letter, ext, hierarchy=hierarchy)
        use = flag(E, 'usefileprefix')
        pre = S(z3.String('prefix'))
        name = S(z3.String('hdf5'))
        E.assume(z3.Length(name.e) > 0)
        if hierarchy:
            only = w.only = Only()
            in_memory, h5, append = pick(
                E, 'mode', (True, None, False), (False, None, False),
                (False, name, False), (False, name, True))
        else:
            only = w.only = pick(E, 'only', None, Only())
            in_memory = flag(E, 'in_memory')
            h5, append = pick(E, 'named', (None, False), ('', False),
                              (name, False), (name, True))
        r, ex = sem_run(E, w.M.sif2hdf5, w.sif, h5, append, use, pre, only,
                        in_memory)
        if ex is not None:
            E.fail('a valid file is converted', repr(ex)[:60])
            return
        E.cover('returns')
        up = letter.upper()
        gp = cat(pre, FP) if use else pre
        # the input file
        E.prove('patterns are used to judge the name', z3.BoolVal(
            bool(w.patterns)))
        E.prove('an output file is opened', z3.BoolVal(w.out is not None))
        name, mode, kw = w.outargs
        if in_memory:
            E.prove('in memory, without a file', z3.BoolVal(
                mode == 'w' and kw.get('driver') == 'H5FD_CORE' and
                kw.get('driver_core_backing_store') in (0, False)))
            E.prove('the file in memory is returned, open', z3.BoolVal(
                r is w.out and not w.outclosed))
        else:
            E.prove('opened for appending or anew', z3.BoolVal(
                mode == ('a' if append else 'w') and kw.get(
                    'driver') is None))
            want = h5 if isinstance(h5, SStr) else cat(w.stem, '.h5')
            E.prove_eq('the output file has the given name', name, want)
            E.prove('the output file is closed', z3.BoolVal(
                len(w.outclosed) == 1))
            E.prove_eq('the full name is returned', r, S(ABS(strs.sexpr(
                want))))
        # what was read
        first = (w.sif, gp, S(up))
        sel0 = SEL(w.sif.e)
        top = cat('/', gp, up, num(sel0))
        files = [(first,)]
        opened = [((w.sif, wrap(z3.BoolVal(True))),)]
        closed = [((w.sif,),)]
        is1 = COL['islevl'](z3.IntVal(0)) == 1
        lev = {'G': S(''), 'R': S(z3.If(is1, z3.StringVal('FIRSTLEVEL'),
                                        z3.StringVal('TOPLEVEL')))}.get(
            up, S('TOPLEVEL'))
        if not hierarchy and up != 'G':
            lev = S('FIRSTLEVEL')
        A = {'LEVEL': [((top, lev),)],
             'DATATYPE': [((top, S('HYDRODYNAMIC' if up == 'G' else
                                   'STRUCTURAL')),)],
             'SELTYP': [((top, wrap(sel0)),)],
             'FILETYPE': [((top, S(up)),)], 'INDEX': None}
        missing = None
        if hierarchy:
            n = z3.Const('rows', I)
            res = ext.upper() in ('SIF', 'SIU')

            def row(c, k):
                return COL[c](k + 1)

            def there(k):
                return row('islevl', k) == 1 if res else \
                    row('indsel', k) == 1

            def fname(k):
                t = [FP, z3.StringVal('R' if res else 'T'),
                     num(row('iselty', k))]
                if res:
                    t += [z3.StringVal('H'), num(row('ihref', k))]
                return z3.Concat(*(t + [z3.StringVal('.' + ext)]))

            def full(k):
                return z3.Concat(FDIR, z3.StringVal('/'), fname(k))

            def group(k):
                s = [strs.sexpr(top), z3.StringVal('/' + up),
                     num(SEL(full(k)))]
                if up == 'R':
                    s += [z3.StringVal('_'), num(row('indsel', k))]
                return S(z3.Concat(*s))

            def filt(v, p=lambda k: z3.And(there(k), EXISTS(full(k)))):
                return () if E.must(n <= 1) else Filt(n - 1, p, v)
            files.append(filt(lambda k: (S(full(k)), gp, S(up))))
            opened.append(filt(lambda k: (S(full(k)),
                                          wrap(z3.BoolVal(True)))))
            closed.append(filt(lambda k: (S(full(k)),)))
            A['LEVEL'].append(filt(lambda k: (group(k), S(
                'FIRSTLEVEL') if up == 'R' else S(z3.If(
                    row('islevl', k) > 1, z3.StringVal('INTERLEVEL'),
                    z3.StringVal('FIRSTLEVEL'))))))
            A['DATATYPE'].append(filt(lambda k: (group(k),
                                                 S('STRUCTURAL'))))
            A['SELTYP'].append(filt(lambda k: (group(k), wrap(SEL(full(
                k))))))
            A['FILETYPE'].append(filt(lambda k: (group(k), S(up))))
            if up == 'R':
                A['INDEX'] = [filt(lambda k: (group(k), wrap(row(
                    'indsel', k))))]
            missing = filt(lambda k: (S(fname(k)),), lambda k: z3.And(
                there(k), z3.Not(EXISTS(full(k)))))
        what = 'each file named by the hierarchy is read once, in order, ' \
            'and nothing else' if hierarchy else 'the file is read, once'
        proveseq(E, what + ', with the group prefix and file type',
                 w.parsed, files)
        proveseq(E, 'the files are opened in their format', w.opened,
                 opened)
        proveseq(E, 'the input files are closed', w.closed, closed)
        for a in ('LEVEL', 'DATATYPE', 'SELTYP', 'FILETYPE', 'INDEX'):
            if A[a] is None:
                continue
            got = w.attrs[a]
            if a == 'INDEX':            # that of the top level is not used
                s = got.seq
                if s.parts and isinstance(s.parts[0], tuple):
                    s = Seq('list', (s.parts[0][1:],) + s.parts[1:])
                got = SList(s)
            proveseq(E, 'groups and their ' + a, got, A[a])
        for what, pl in w.places.items():
            P1 = [((top,),)*(2 if hierarchy else 1)]
            if hierarchy and what == 'table of GNODE':
                P1.append(filt(lambda k: (group(k),)))
            proveseq(E, 'tables belong to the group of their superelement',
                     pl, P1)
        if missing is not None and missing != ():
            f = only_filt(w.printed)
            E.prove('missing files are reported', z3.BoolVal(f is not None))
            k = E.fresh(I, 'k')
            rng = [k >= 0, k < n - 1]
            E.prove('exactly the missing files are reported',
                    f.p(k) == missing.p(k), rng)
            E.prove('the report names the file', z3.Contains(
                f.v(k)[0].e, fname(k)), rng + [f.p(k)])
    E.explore(path_of(body))
    return E


def proveseq(E, what, got, want):
    parts = tuple(p for p in want if p != ())
    g = got.seq
    gp = [p for p in g.parts if p != ()]
    if counted(E):
        raise NOPE('path with a number of rows')
    if len(gp) != len(parts) or any(
            isinstance(a, Filt) != isinstance(b, Filt)
            for a, b in zip(gp, parts)):
        if all(isinstance(p, tuple) for p in list(gp) + list(parts)):
            E.prove(what, z3.BoolVal(False))
            return
        if len(gp) < len(parts):
            E.prove(what, z3.BoolVal(False))
            return
        raise NOPE('files of another structure')
    for a, b in zip(gp, parts):
        if isinstance(a, Filt):
            if os.environ.get('PYVC_SHOW'):
                print(what, a.n, b.n)
                k = z3.Int('k')
                print('P', z3.simplify(a.p(k)), '\nW', z3.simplify(b.p(k)))
                print('V', a.v(k), '\nW', b.v(k))
            k = E.fresh(I, 'k')
            rng = [k >= 0, k < b.n]
            E.prove(what, a.n == b.n)
            E.prove(what, a.p(k) == b.p(k), rng)
            for h, c in core.veq(a.v(k), b.v(k)):
                E.prove(what, c, rng + [b.p(k)] + list(h))
        else:
            E.prove_eq('first file: ' + what, Seq('list', (a,)),
                       Seq('list', (b,)))


def rejected(what):
    E = Engine('sif2hdf5, ' + what)

    def body():
        kw = {}
        valid, ext = True, 'FEM'
        if what == 'name that is not valid':
            valid = False
        elif what == 'SIN file':
            ext = pick(E, 'ext', 'SIN', 'sin', 'Sin')
        w = World(E, pick(E, 'letter', 'T', 'r', 'G', 'l'), ext, valid)
        sif = w.sif
        if what == 'appending without a name':
            kw['append'] = True
            if flag(E, 'named empty'):
                kw['hdf5name'] = ''
        else:
            if flag(E, 'named'):
                h = S(z3.String('hdf5'))
                E.assume(z3.Length(h.e) > 0)
                kw['hdf5name'] = h
                kw['append'] = flag(E, 'append')
        if what == 'name of another type':
            sif = pick(E, 'type', None, 3, {}, b'T1.FEM', object())
        elif what == 'sequence in memory':
            kw['in_memory'] = True
            sif = SList([w.sif, w.sif]) if flag(E, 'list') else (w.sif,
                                                                 w.sif)
        elif flag(E, 'in_memory') and what != 'appending without a name':
            kw['in_memory'] = True
        r, ex = None, None
        try:
            r = w.M.sif2hdf5(sif, **kw)
        except Unsupported:
            raise
        except (TypeError, ValueError, AttributeError) as e:
            ex = e
            if not getattr(e, 'semantic', False) and \
                    what != 'name of another type':
                raise
        E.cover('answers')
        E.prove('rejected', z3.BoolVal(ex is not None))
        E.prove('without touching any file', z3.BoolVal(
            not w.touched and not len(w.opened)))
    E.explore(path_of(body))
    return E


def sequence(kind, pkind, named):
    """a sequence of files is converted one by one"""
    E = Engine('sif2hdf5, %s of files, prefix %s, %s' % (
        kind, pkind, 'one output file' if named else 'own output files'))
    NAME = z3.Function('name', I, ST)
    PRE = z3.Function('prefix of', I, ST)

    def body():
        w = World(E)
        n = z3.Const('files', I)
        E.assume(n >= 1)
        seqn = Seq(kind, (Map(n, lambda k: S(NAME(k))),))
        names = SList(seqn) if kind == 'list' else seqn
        pre = {'none': '', 'text': S(z3.String('prefix'))}.get(pkind)
        want = {'none': lambda k: S(''),
                'text': lambda k: S(z3.String('prefix'))}.get(
            pkind, lambda k: S(PRE(k)))
        if pkind == 'text':
            E.assume(z3.Length(pre.e) > 0)
        if pre is None:
            pre = SList(Seq('list', (Map(n, lambda k: S(PRE(k))),)))
        h = S(z3.String('hdf5')) if named else None
        if named:
            E.assume(z3.Length(h.e) > 0)
        app = wrap(z3.Const('append', B)) if named else False
        use = wrap(z3.Const('usefileprefix', B))
        orig = w.M.sif2hdf5
        sig = inspect.signature(orig)
        only = Only()

        def one(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            d = b.arguments
            E.prove('each file with the record filter',
                    z3.BoolVal(d['only'] is only))
            E.prove('not in memory', z3.BoolVal(d['in_memory'] is False))
            v = []
            for x in ('sifname', 'hdf5name', 'prefix'):
                x = d[x]
                v.append(x if isinstance(x, SStr) else S(
                    '<none>' if x is None or x == '' and named else x))
            for x in ('append', 'usefileprefix'):
                x = d[x]
                v.append(x if isinstance(x, SBool) else SBool(z3.BoolVal(
                    bool(x))))
            w.calls.append(tuple(v))
            return S('result')
        w.M.sif2hdf5 = one
        r, ex = sem_run(E, orig, names, h, app, use, pre, only)
        if ex is not None:
            E.fail('the files are converted', repr(ex)[:60])
            return
        if w.touched:
            raise NOPE('files are converted otherwise')
        E.cover('returns')
        got = w.calls.seq
        hx = h if named else S('<none>')
        E.prove('as many conversions as files', got.length() == n)
        k = E.fresh(I, 'k')
        E.assume(z3.And(k >= 0, k < n))
        first = E.decide(k == 0)
        k = z3.IntVal(0) if first else k
        g = got.at(k)
        ap = (core.truth(app) if first else z3.BoolVal(True)) if named \
            else z3.BoolVal(False)
        for t, x, y in zip(('file', 'output file', 'prefix', 'append',
                            'usefileprefix'), g, (
                S(NAME(k)), hx, want(k), SBool(z3.simplify(ap)), use)):
            if t == 'prefix' and isinstance(x, SStr):
                none = z3.StringVal('<none>')
                E.prove('file k with its own ' + t, z3.Or(
                    x.e == y.e, z3.And(x.e == none, y.e ==
                                       z3.StringVal(''))))
                continue
            if t == 'file':
                E.prove('file k with its own ' + t, x.e == y.e)
                continue
            E.prove_eq('file k with its own ' + t, x, y)
    E.explore(path_of(body))
    return E


def names(rel, func):
    """the pattern that judges file names"""
    E = Engine('%s: names' % func)

    def body():
        w = World(E)
        if func == 'sif2hdf5':
            w.M.sif2hdf5(w.sif, None, False, True, '', w.only, False)
        else:
            m = module(rel, 'freesif.data')
            import re
            for k, v in list(m.__dict__.items()):
                if v is re:
                    m.__dict__[k] = Re(w)
                elif v is os.path:
                    m.__dict__[k] = Path(w)
                elif v is os:
                    m.__dict__[k] = Os(w)
            r = getattr(m, func)(w.sif)
            E.prove_eq('the parts of the name are returned', tuple(r), (
                S(FP), 'T', S(z3.String('selno')), 'FEM'))
        if not w.patterns:
            raise NOPE('no pattern')
        for p, fl, how in dict.fromkeys(w.patterns):
            if not isinstance(p, str):
                raise NOPE('pattern of another type')
            nameparts.obligations(E, p, fl, how)
        E.cover('returns')
    E.explore(path_of(body))
    return E


def tasks(pid, quick=True):
    single_ = [('T', 'FEM'), ('t', 'fem'), ('L', 'FEM'), ('R', 'SIF'),
               ('R', 'SIU'), ('r', 'siu'), ('R', 'Sif'), ('G', 'SIF'),
               ('g', 'siu')]
    out = []
    for l, x in single_:
        for h in (False, True):
            if quick and l == 'R' and x != 'SIF':
                continue
            if h and (l in 'Gg' or pid == 'C08' and l not in 'Rr') or \
                    not h and l in 'Rr':
                continue
            keep = ONLY[pid]
            out.append(Task('conversion of a %s file (.%s)%s' % (
                l, x, ', hierarchy' if h else ''), single, (l, x, h), keep))
    if pid == 'C07':
        for n in ('IDENT', 'HIERARCH'):
            out.append(Task('switches set by ' + n, switches, (n,),
                            of_switches))
    if pid == 'C08':
        for q in ('name that is not valid', 'SIN file',
                  'appending without a name', 'name of another type',
                  'sequence in memory'):
            out.append(Task('rejection: ' + q, rejected, (q,), c08))
        for kd in ('list', 'tuple'):
            for pk in ('none', 'text', 'sequence'):
                for nm in (True, False):
                    out.append(Task('%s of files, prefix %s, %s' % (
                        kd, pk, nm), sequence, (kd, pk, nm), c08))
        out.append(Task('names accepted by sif2hdf5', names,
                        (SIF, 'sif2hdf5'), c08))
        out.append(Task('names accepted by parse_sifname', names,
                        ('freesif/data/helpers.py', 'parse_sifname'), c08))
    return out


def of_switches(n):
    return n.startswith('ident') or 'superelement number' in n or \
        n.endswith('is set') or n.endswith('left alone')


def c06(n):
    return 'afresh' in n or 'earlier conversions' in n or 'is set for' in n


def c07(n):
    return not c06(n) and not n.endswith('the input files are closed')


def c08(n):
    return c07(n) and (', hierarchy/' not in n or 'first file: gr' in n or
                           'output' in n or 'in memory' in n)


ONLY = {'C06': c06, 'C07': c07, 'C08': c08}
