"""Contracts of the open/closed state of files and data objects (C09).

Refusal: every operation is executed on a closed object with arguments about
which nothing is known: each is None, True, False or an object whose every
use (other than an identity test) is recorded.  All combinations are covered,
so the case analysis is complete: the operation has to end with the
closed-file error before it looks at an argument."""
import inspect
import itertools
import z3
from . import core, inst
from .core import Engine, wrap, Unsupported
from .seq import SList, Seq, Map, iexpr
from .report import Task

TRUSTED = [
    'opaque arguments: an operation can look at an argument only through '
    'its methods or by an identity test with None, True or False',
    'PyTables closes a file object when asked to (File.close of tables)']

DATA = {
    'FirstLevelData': (
        'get_setnames', 'get_nodes', 'get_nodenumbers', 'get_elements',
        'get_elementnumbers', 'get_noderesults', 'get_elementresults',
        'get_section_properties', 'get_shell_thicknesses',
        'get_resultcase_names'),
    'InterLevelData': ('get_setnames',),
    'TopLevelData': ('get_setnames', 'get_transformation'),
    'HydroData': (
        'get_bodyproperties', 'get_motion_raos', 'get_excitationforce_raos',
        'get_sectionforce_raos', 'get_meandrift', 'get_horiz_meandrift',
        'get_pressure_panel_ids', 'get_panel_pressures', 'get_bodymass',
        'get_addedmass', 'get_potentialdamping', 'get_viscousdamping',
        'get_hydrostatic_restoring', 'get_mooring_restoring',
        'get_angular_freqs', 'get_periods', 'get_timesteps', 'get_sections',
        'get_points', 'get_directions', 'get_fluidkinematics_raos',
        'get_matrix')}
FILE = ('__getitem__', 'get', 'keys', 'values', 'items', '__contains__',
        '__iter__')
WHERE = {'FirstLevelData': 'strucdata', 'InterLevelData': 'strucdata',
         'TopLevelData': 'strucdata', 'HydroData': 'hydrodata'}


ATTRS = ('name', 'rec_names', 'file', '_tbgroup', '_seltyp', '_level',
         '_filetype', '_datatype', '_toplevel', '_index', 'other', '_data',
         '_tbfile', 'filename')


class Touched(BaseException):
    pass


class Any_(object):
    """an argument about which nothing is known"""


def _touch(n):
    def f(self, *a, **k):
        raise Touched(n)
    return f


for _n in dir(int) + dir(list) + dir(dict) + dir(str) + [
        '__getattr__', '__fspath__', '__array__', '__call__', '__enter__',
        '__exit__', '__matmul__', '__imatmul__', '__next__', '__hash__',
        '__setattr__', '__delattr__', '__complex__', '__iadd__',
        '__array_interface__', '__array_ufunc__']:
    if _n.startswith('__') and _n not in (
            '__class__', '__new__', '__init__', '__getattribute__',
            '__init_subclass__', '__subclasshook__', '__dict__', '__doc__',
            '__del__', '__repr__', '__str__', '__format__', '__sizeof__',
            '__reduce__', '__reduce_ex__', '__getnewargs__', '__dir__',
            '__getstate__'):
        setattr(Any_, _n, _touch(_n))
Any_.__repr__ = lambda self: 'any'


def module(name):
    import importlib
    return importlib.import_module('freesif.data.' + name)


def files():
    """freesif.data.file run by the engine, with its global set of files"""
    from . import arrays
    return arrays.load('freesif/data/file.py')[0]


def closed_state(E, cls):
    """object of the class in the state that _close leaves"""
    o = object.__new__(cls)
    d = o.__dict__
    for n in ATTRS[:-3]:
        d[n] = Any_()
    d['_isopen'] = True
    o._close()
    return o


def attempts(f):
    """all combinations of kinds of arguments that the signature accepts"""
    ps = [p for p in inspect.signature(f).parameters.values()
          if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD,
                        p.KEYWORD_ONLY)]
    need = sum(p.default is p.empty for p in ps)
    ps = ps[:7]
    vals = [None, True, False, Any_()]
    for c in itertools.product(vals, repeat=len(ps)):
        yield (), {p.name: v for p, v in zip(ps, c)}
    for n in range(need, len(ps)):          # the defaults
        yield (), {p.name: vals[3] for p in ps[:n]}


def refuses(E, o, name, what):
    f = getattr(o, name, None)
    if f is None:
        return
    from freesif.exceptions import ClosedFileError
    bad, n = None, 0
    before = dict(o.__dict__)
    had = ATTRS
    for a, k in attempts(f):
        n += 1
        try:
            r = f(*a, **k)
            if inspect.isgenerator(r):
                next(r, None)
            bad = 'returns %s' % type(r).__name__
        except ClosedFileError:
            pass
        except Touched as e:
            raise Unsupported('%s looks at an argument (%s)' % (name, e))
        except AttributeError as e:
            if e.name is not None and e.name not in had:
                raise Unsupported('attribute %s of the object' % e.name)
            bad = 'AttributeError'
        except Exception as e:
            bad = '%s' % type(e).__name__
        if not bad and o.__dict__ != before:
            bad = 'changes the closed object'
        if bad:
            E.info = {'method': name, 'class': what, 'arguments': repr(k)}
            break
    E.prove('%s of a closed object is refused with the closed-file error '
            'before anything else%s' % (name, ': ' + bad if bad else ''),
            z3.BoolVal(not bad))


def tidy(E, o):
    """string forms and closing again, of a closed object"""
    before = dict(o.__dict__)
    for f in (str, repr):
        try:
            ok = 'closed' in f(o).lower()
        except Exception:
            ok = False
        E.prove('%s says that the object is closed' % f.__name__,
                z3.BoolVal(ok))
    try:
        ok = o.close() is None and o.__dict__ == before
    except Exception:
        ok = False
    E.prove('closing again does nothing', z3.BoolVal(ok))


def data(cls):
    E = Engine('closed ' + cls)
    E.on_refute = lambda E, m: getattr(E, 'info', None)

    def body():
        c = getattr(module(WHERE[cls]), cls)
        try:
            o = closed_state(E, c)
        except Exception as e:
            raise Unsupported('_close: %r' % e)
        E.prove('closed after _close', z3.BoolVal(
            'file' not in o.__dict__ and not o._isopen))
        for n in DATA[cls]:
            refuses(E, o, n, cls)
        refuses(E, o, '_get_record', cls)
        tidy(E, o)
        E.cover('end')
    return E.explore(body)


class Tb(object):
    """the HDF5 file"""

    def __init__(self, log):
        self.log = log

    def close(self):
        self.log.append(-1)


class Member(object):
    """data object k of a file, or file k of the open ones"""

    def __init__(self, log, k, leave=None):
        self.log, self.k, self.leave = log, k, leave

    def _close(self):
        self.log.append(wrap(self.k))

    def close(self):
        self.log.append(wrap(self.k))
        if self.leave is not None:
            self.leave.changed = True

    def subst(self, p):
        return Member(self.log, z3.substitute(self.k, *p), self.leave)


class Members(object):
    """symbolic collection of members: dict of data or set of files"""

    def __init__(self, E, base):
        self.log = SList()
        self.n = E.int(base).e
        E.assume(self.n >= 0)
        self.changed = False
        self.removed, self.added = [], []

    def seq(self, leave=None):
        if self.changed:
            raise Unsupported('iteration over a changed collection')
        return SList(Seq('list', (Map(self.n, lambda k: Member(
            self.log, k, leave)),)))

    def values(self):
        return self.seq()

    def items(self):
        m = self.log
        return SList(Seq('list', (Map(self.n, lambda k: (
            wrap(k), Member(m, k))),)))

    def as_seq(self):
        return self.seq(self).seq

    def remove(self, o):
        self.removed.append(o)
    discard = remove

    def add(self, o):
        self.added.append(o)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a collection' % n)


class FileSet(Members):
    """the set of open files: closing one changes it"""

    def as_seq(self):
        return self.seq(self).seq

    def loop(self, f):
        raise Unsupported('iteration over a set that closing changes')


def each_once(E, name, log, n, extra=0):
    """every member is closed, exactly once, in any order"""
    s = log.seq
    tail = ()
    parts = list(s.parts)
    if extra and parts and isinstance(parts[0], tuple):     # either order
        parts = parts[1:] + parts[:1]
    want = [Map(n, lambda k: wrap(k))]
    if extra:
        want.append((-1,))
    E.prove_eq(name, Seq('list', tuple(parts)), Seq('list', tuple(want)))


def file_close():
    E = Engine('File.close')

    def body():
        m = files()
        o = object.__new__(m.File)
        datas, opened = Members(E, 'objects'), Members(E, 'files')
        m.__dict__['_open_files'] = opened
        o.__dict__.update(_data=datas, _tbfile=Tb(datas.log),
                          filename='name', _isopen=True)
        try:
            r = o.close()
        except (AttributeError, TypeError) as e:
            raise Unsupported('%r' % e)
        E.cover('returns')
        each_once(E, 'every data object is closed once, and the HDF5 file once',
                  datas.log, datas.n, 1)
        E.prove('the file leaves the set of open files, no other does',
                z3.BoolVal(len(opened.removed) == 1 and
                           opened.removed[0] is o and not opened.added))
        E.prove('closed', z3.BoolVal(
            not o._isopen and '_data' not in o.__dict__ and
            '_tbfile' not in o.__dict__))
        real = module('file').File
        c = object.__new__(real)
        c.__dict__.update(o.__dict__)
        for n in FILE:
            refuses(E, c, n, 'File')
        tidy(E, c)
    return E.explore(body)


def data_close():
    E = Engine('SifData.close')

    def body():
        from freesif.data.sifdata import SifData

        class F(object):
            n = 0

            def close(self):
                self.n += 1
        for cls in ('SifData',):
            f = F()
            o = object.__new__(SifData)
            o.__dict__.update(_isopen=True, file=f)
            o.close()
            E.prove('closing a data object closes its file, once',
                    z3.BoolVal(f.n == 1))
            o = object.__new__(SifData)
            o.__dict__.update(_isopen=True, file=None)
            o.close()
            E.prove('a data object without a file is closed',
                    z3.BoolVal(not o._isopen))
        E.cover('end')
    return E.explore(body)


def all_files():
    E = Engine('close_all_files')

    def body():
        m = files()
        opened = FileSet(E, 'files')
        m.__dict__['_open_files'] = opened
        r = m.close_all_files()
        E.cover('returns')
        each_once(E, 'every open file is closed once', opened.log, opened.n)
        s = m.__dict__['_open_files']
        E.prove('no file is open afterwards', z3.BoolVal(
            s is opened or hasattr(s, '__len__') and len(s) == 0))
    return E.explore(body)


def tasks():
    return [Task('closed ' + c, data, (c,)) for c in DATA] + [
        Task('File.close', file_close, ()),
        Task('SifData.close', data_close, ()),
        Task('close_all_files', all_files, ())]
