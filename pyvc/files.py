"""Contracts of the mapping that an opened file presents (C10).

The stored file has an arbitrary number of top-level groups with an arbitrary
number of sub-groups each; names, types and levels are arbitrary within what
a conversion stores (C07)."""
import z3
import tables
from . import core, closed, strs
from .core import Engine, wrap, Unsupported, sem
from .seq import SList, Seq, Map, Cat
from .report import Task

I = z3.IntSort()
ST = z3.StringSort()
NAME, SUB = z3.Function('name', I, ST), z3.Function('sub', I, I, ST)
COUNT = z3.Function('subgroups', I, I)
KIND = z3.Function('kind', I, I)            # 0 top, 1 first, 2 hydro
SKIND = z3.Function('subkind', I, I, I)     # 0 intermediate, 1 first
CLS = ('TopLevelData', 'FirstLevelData', 'HydroData', 'InterLevelData')
TRUSTED = [
    'HDF5: a group iterates over its sub-groups, each once; names of the '
    'groups within one group differ (so that no key is used twice)',
    'stored groups carry the types and levels that a conversion records '
    '(C07): structural top-level or first-level groups and hydrodynamic '
    'groups at the top, intermediate and first-level groups below',
    'the data classes are bound to the arguments of their constructors']


def S(e):
    return strs.SStr(e, 'str')


def choice(c, *v):
    e = z3.StringVal(v[-1])
    for j in range(len(v) - 2, -1, -1):
        e = z3.If(c == j, z3.StringVal(v[j]), e)
    return S(z3.simplify(e))


class G(object):
    """group k, or sub-group j of it"""

    def __init__(self, k, j=None):
        self.k, self.j = k, j

    @property
    def _v_name(self):
        return S(NAME(self.k) if self.j is None else SUB(self.k, self.j))

    @property
    def _v_pathname(self):
        p = z3.Concat(z3.StringVal('/'), NAME(self.k))
        if self.j is not None:
            p = z3.Concat(p, z3.StringVal('/'), SUB(self.k, self.j))
        return S(p)

    def _f_getattr(self, n):
        if self.j is None:
            c = KIND(self.k)
            if n == 'DATATYPE':
                return choice(c, 'STRUCTURAL', 'STRUCTURAL', 'HYDRODYNAMIC')
            if n == 'LEVEL':
                return choice(c, 'TOPLEVEL', 'FIRSTLEVEL', '')
        elif n == 'LEVEL':
            return choice(SKIND(self.k, self.j), 'INTERLEVEL', 'FIRSTLEVEL')
        elif n == 'DATATYPE':
            return 'STRUCTURAL'
        raise Unsupported('attribute %s of a group' % n)

    def _f_iter_nodes(self, classname=None):
        if classname != 'Group':
            raise Unsupported('nodes of any class')
        k = self.k
        if self.j is not None:
            return SList()
        return SList(Seq('list', (Map(COUNT(k), lambda j: G(k, j)),)))

    def subst(self, p):
        return G(z3.substitute(self.k, *p), None if self.j is None else
                 z3.substitute(self.j, *p))

    def exprs(self):
        return [self.k] + ([] if self.j is None else [self.j])

    def ite_with(self, c, o):
        if isinstance(o, G) and (self.j is None) == (o.j is None):
            return G(z3.If(c, self.k, o.k), None if self.j is None else
                     z3.If(c, self.j, o.j))
        raise Unsupported('merge of groups')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a group' % n)


class Obj(object):
    """data object: class, group, file, top-level object (its group)"""

    def __init__(self, cls, k, j, file, top):
        self.v = (cls, k, j, file, top)

    def subst(self, p):
        return Obj(*[z3.simplify(z3.substitute(x, *p)) for x in self.v])

    def exprs(self):
        return list(self.v)
    fields = exprs

    def ite_with(self, c, o):
        if not isinstance(o, Obj):
            raise Unsupported('merge of objects')
        return Obj(*[z3.simplify(z3.If(c, x, y))
                     for x, y in zip(self.v, o.v)])

    def eq_obligations(self, o):
        if not isinstance(o, Obj):
            return [([], z3.BoolVal(False))]
        return [([], x == y) for x, y in zip(self.v, o.v)]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a data object' % n)


Z = z3.IntVal


def constructor(m, cls, owner):
    def make(tbgroup, fileinstance=None, toplevel=None):
        g = tbgroup
        if not isinstance(g, G):
            raise Unsupported('group of a data object')
        if toplevel is not None and not isinstance(toplevel, Obj):
            raise Unsupported('top-level object')
        f = Z(1 if fileinstance is owner[0] else 0)
        top = Z(-1) if toplevel is None else z3.simplify(z3.If(
            z3.And(toplevel.v[2] == -1, toplevel.v[3] == 1), toplevel.v[1],
            Z(-2)))
        return Obj(Z(CLS.index(cls)), g.k, Z(-1) if g.j is None else g.j, f,
                   top)
    return make


def hydro(m, owner):
    c = constructor(m, 'HydroData', owner)

    def make(tbgroup, fileinstance=None):
        return c(tbgroup, fileinstance)
    return make


class Log(object):
    """the dictionary of data objects: keys are never repeated"""

    def __init__(self):
        self.log = SList()

    @property
    def born(self):         # items are only added
        return core.ENG.stack[-1]

    def __setitem__(self, k, v):
        self.log.append((k, v))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of the objects' % n)


class Root(object):
    def __init__(self, n):
        self.n = n

    def _f_iter_nodes(self, classname=None):
        if classname != 'Group':
            raise Unsupported('nodes of any class')
        return SList(Seq('list', (Map(self.n, lambda k: G(k)),)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of the root group' % n)


class TbFile(tables.File):
    """stub of an open HDF5 file"""

    def __init__(self, n):
        self.root = Root(n)
        self.filename = 'in-memory'

    def __del__(self):
        pass

    def __repr__(self):
        return 'file'
    __str__ = __repr__

    def get_node(self, w, *a):
        if w == '/' and not a:
            return self.root
        raise Unsupported('get_node')

    def iter_nodes(self, w, classname=None):
        if w == '/' or w is self.root:
            return self.root._f_iter_nodes(classname)
        if isinstance(w, G):
            return w._f_iter_nodes(classname)
        raise Unsupported('iter_nodes')


class Tb(object):
    """module tables"""
    File = tables.File

    def __init__(self, f):
        self.f, self.calls = f, []

    def open_file(self, *a, **k):
        self.calls.append((a, k))
        return self.f

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('tables.' + n)


def world(E):
    m = closed.files()
    n = E.int('groups').e
    E.assume(n >= 0)
    k, j = z3.Ints('k!g j!g')
    E.assume(z3.ForAll([k], z3.And(COUNT(k) >= 0, KIND(k) >= 0,
                                   KIND(k) <= 2)))
    E.assume(z3.ForAll([k, j], z3.And(SKIND(k, j) >= 0, SKIND(k, j) <= 1)))
    owner = [None]
    for c in CLS:
        if not hasattr(m, c):
            raise Unsupported('class ' + c)
        m.__dict__[c] = hydro(m, owner) if c == 'HydroData' else \
            constructor(m, c, owner)
    m.__dict__['_open_files'] = set()

    class Under(m.File):
        @property
        def _data(self):
            return self.__dict__['log']

        @_data.setter
        def _data(self, v):
            if isinstance(v, (dict, core_dict())) and not len(v):
                self.__dict__['log'] = Log()
            else:
                raise Unsupported('objects of the file')
    o = object.__new__(Under)
    owner[0] = o
    return m, o, n


def core_dict():
    from .seq import SDict
    return SDict


def want(n):
    def one(k):
        sub = Map(COUNT(k), lambda j: (
            S(z3.Concat(NAME(k), z3.StringVal('/'), SUB(k, j))),
            Obj(z3.If(SKIND(k, j) == 0, Z(3), Z(1)), k, j, Z(1), k)))
        return Seq('list', (((S(NAME(k)), Obj(KIND(k), k, Z(-1), Z(1), Z(
            -1))),), sub))
    return Seq('list', () if core.ENG.must(n == 0) else (Cat(n, one),))


def opening(how):
    E = Engine('File.__init__, ' + how)

    def body():
        m, o, n = world(E)
        f = TbFile(n)
        tbm = m.__dict__['tb'] = Tb(f)
        try:
            if how == 'name':
                m.File.__init__(o, 'dir/name.h5')
            else:
                m.File.__init__(o, f)
        except (AttributeError, TypeError, KeyError, NameError) as e:
            import os
            if os.environ.get('PYVC_DEBUG'):
                raise
            raise Unsupported('%r' % e)
        E.cover('returns')
        if how == 'name':
            import os
            E.prove('the named file is opened, once, for reading',
                    z3.BoolVal(len(tbm.calls) == 1 and os.path.abspath(
                        tbm.calls[0][0][0]) == os.path.abspath('dir/name.h5')
                        and (list(tbm.calls[0][0][1:]) + list(
                            tbm.calls[0][1].values())) in (['r'], [])))
        E.prove('the file is registered as open', z3.BoolVal(
            o in m.__dict__['_open_files'] and bool(o._isopen)))
        E.prove_eq('one object per group and sub-group, under its path, of '
                   'the class of its type and level, bound to the group, '
                   'the file and the top-level object', o._data.log.seq,
                   want(n))
    return E.explore(body)


class View(object):
    def __init__(self, what, items):
        self.what, self.list = what, items

    def __iter__(self):
        return iter(self.list)

    def __len__(self):
        return len(self.list)


class D(object):
    """any dictionary: whether it has the key and what it holds for it are
    given; its views are what they are"""

    def __init__(self, key, has, value):
        self.key, self.has, self.value = key, has, value
        self.views = {n: View(n, [object() for _ in range(3)])
                      for n in ('keys', 'values', 'items')}

    def known(self, k):
        if k is not self.key:
            raise Unsupported('another key')
        return self.has

    def __getitem__(self, k):
        if not self.known(k):
            raise KeyError(k)
        return self.value

    def get(self, k, d=None):
        return self.value if self.known(k) else d

    def __contains__(self, k):
        return self.known(k)

    def keys(self):
        return self.views['keys']

    def values(self):
        return self.views['values']

    def items(self):
        return self.views['items']

    def __iter__(self):
        return iter(self.views['keys'])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of the objects' % n)


def mapping():
    """the mapping methods are those of the dictionary of objects, for any
    dictionary and any key"""
    E = Engine('mapping methods')

    def body():
        m = closed.files()
        for has in (False, True):
            key, dflt, value = (closed.Any_() for _ in range(3))
            d = D(key, has, value)
            o = object.__new__(m.File)
            o.__dict__.update(_data=d, _isopen=True, filename='f',
                              _tbfile=None)

            def attempt(f, *a):
                try:
                    return f(*a)
                except KeyError:
                    return KeyError
                except (AttributeError, TypeError, closed.Touched) as e:
                    raise Unsupported('%r' % e)
            E.prove('indexing gives the object of the key or a KeyError',
                    z3.BoolVal(attempt(o.__getitem__, key) is (
                        value if has else KeyError)))
            E.prove('get gives the object of the key or None', z3.BoolVal(
                attempt(o.get, key) is (value if has else None)))
            E.prove('get gives the object of the key or the default',
                    z3.BoolVal(attempt(o.get, key, dflt) is (
                        value if has else dflt)))
            E.prove('membership is that of the keys', z3.BoolVal(
                attempt(o.__contains__, key) is has))
            for n in ('keys', 'values', 'items'):
                r = attempt(getattr(o, n))
                if not isinstance(r, View):
                    raise Unsupported('form of ' + n)
                E.prove('%s are those of the dictionary' % n,
                        z3.BoolVal(r is d.views[n]))
            it, w = attempt(lambda: list(o)), d.views['values'].list
            E.prove('iteration is over the values', z3.BoolVal(
                len(it) == len(w) and all(a is b for a, b in zip(it, w))))
        E.cover('end')
    return E.explore(body)


class Attrs(object):
    """group with arbitrary attributes"""

    def __init__(self, letter):
        self._v_name = closed.Any_()
        self.a = {'FILETYPE': letter}

    def _f_getattr(self, n):
        if n not in ('RECORDS', 'SELTYP', 'LEVEL', 'FILETYPE', 'DATATYPE',
                     'INDEX'):
            raise Unsupported('attribute ' + n)
        return self.a.setdefault(n, closed.Any_())

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a group' % n)


def constructors(cls):
    """the data object is bound to what its constructor gets"""
    E = Engine('constructor of ' + cls)

    def body():
        from . import stubs
        m = stubs.load('freesif/data/strucdata.py')
        c = getattr(m, cls)
        for letter in 'TR':
            for args in (1, 2, 3):
                g, f, top = Attrs(letter), closed.Any_(), closed.Any_()
                if args < 3:
                    top = None
                if args == 1:
                    continue
                try:
                    o = c(*(g, f, top)[:args])
                except (AttributeError, TypeError, closed.Touched) as e:
                    raise Unsupported('%r' % e)
                E.prove('bound to its group and name', z3.BoolVal(
                    o._tbgroup is g and o.name is g._v_name))
                E.prove('bound to its file', z3.BoolVal(o.file is f))
                E.prove('bound to its top-level object', z3.BoolVal(
                    o._toplevel is top))
                E.prove('open', z3.BoolVal(bool(o._isopen)))
                E.prove('bound to the stored types and records', z3.BoolVal(
                    o._seltyp is g.a['SELTYP'] and
                    o._filetype == letter and
                    o.rec_names is g.a['RECORDS'] and
                    o._level is g.a['LEVEL'] and
                    o._datatype is g.a['DATATYPE']))
                if cls == 'FirstLevelData' and letter == 'R':
                    E.prove('bound to the stored index', z3.BoolVal(
                        o._index is g.a['INDEX']))
        E.cover('end')
    return E.explore(body)


def tasks():
    return [Task('constructor of ' + c, constructors, (c,)) for c in (
        'TopLevelData', 'FirstLevelData', 'InterLevelData')] + _tasks()


def _tasks():
    return [Task('File.__init__, ' + h, opening, (h,))
            for h in ('name', 'object')] + \
        [Task('mapping methods', mapping, ())]
