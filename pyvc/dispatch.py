"""Contracts of general_parser and parse_file (C02, C07).

The file is a sequence of N records; nm(i) is the name of record i, H(i) its
header.  A header is always handed on with the file positioned right behind
it.  parse_file calls general_parser for a record exactly when its name is
wanted, skip_restofrecord exactly when it is not, in file order, up to the
end of the file; general_parser hands a record to the reader of its name and
skips only records without a reader.
"""
import z3
from . import core, inst, seq, shims, seqfile
from .core import SReal, Unsupported, PathEnd, wrap, sem
from .seq import iexpr, SList
from .strs import SStr

PARSERS = 'freesif/sequentialparser/parsers.py'
Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class HName(object):
    """name of record i (i < N)"""

    def __init__(self, w, i):
        self.w, self.i = w, z3.simplify(iexpr(i))

    @property
    def e(self):
        return self.w.nm(self.i)

    def __eq__(self, o):
        if isinstance(o, HName):
            return wrap(self.e == o.e)
        if o is None:
            return False
        if isinstance(o, str):
            return wrap(self.e == z3.IntVal(self.w.literal(o)))
        raise Unsupported('comparison of a record name')

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    def __bool__(self):
        return True

    def __hash__(self):
        raise Unsupported('hash of a record name')


class HRec(object):
    """numbers on the header of record i"""

    def __init__(self, w, i):
        self.w, self.i = w, z3.simplify(iexpr(i))

    def __getitem__(self, j):
        if not isinstance(j, int):
            raise Unsupported('part of a header')
        return SReal(self.w.h(self.i, z3.IntVal(j)))

    def __len__(self):
        return 4


class Recs(object):
    """the records of a file, and the contract of the file object"""

    def __init__(self, e, wanted=None):
        self.e = e
        self.N = z3.Const('N', Z)
        e.assume(self.N >= 1)
        self.nm = z3.Function('nm', Z, Z)
        self.h = z3.Function('h', Z, Z, R)
        self.known = z3.Function('known', Z, B)
        self.want = z3.Function('want', Z, B)
        self.i = -1
        self.obj, self.cell = self, 'i'
        e.tie = self
        e.track(self, 'i')
        self.lits = {}

    def literal(self, s):
        return self.lits.setdefault(s, 10**6 + len(self.lits))

    # the tie of loops
    def role(self, v):
        return {HName: 'name', HRec: 'rec'}.get(type(v))

    def make(self, role, i):
        i = iexpr(i)
        if self.e.decide(i == self.N):
            return None
        return HName(self, i) if role == 'name' else HRec(self, i)

    def tied(self, role, v, i):
        if v is None:
            return self.e.must(iexpr(i) == self.N)
        return self.role(v) == role and self.e.must(v.i == iexpr(i))

    def range(self, i0, i):
        return z3.And(iexpr(i0) <= iexpr(i), iexpr(i) <= self.N)

    def fresh(self, i0):
        i = self.e.fresh(Z, 'i')
        self.e.assume(self.range(i0, i))
        return wrap(i)

    def header(self):
        if self.e.decide(iexpr(self.i) < self.N):
            return HName(self, self.i), HRec(self, self.i)
        return None, None

    def need(self, name, c):
        if not self.e.prove(name, c):
            raise PathEnd()

    def current(self, what, name, rec):
        ok = isinstance(name, HName) and isinstance(rec, HRec)
        i = iexpr(self.i)
        self.need(what + ' is given the latest header', z3.And(
            name.i == i, rec.i == i, i < self.N) if ok
            else z3.BoolVal(False))
        return i

    # contract of the file
    def read_headerrec(self):
        self.need('the first header is read once', iexpr(self.i) == -1)
        self.i = 0
        return self.header()

    def skip_restofrecord(self, name, rec):
        i = self.current('skip_restofrecord', name, rec)
        self.on_skip(i)
        self.i = wrap(i + 1)
        return self.header()

    def on_skip(self, i):
        pass



class Only(object):
    def __init__(self, w):
        self.w = w

    def __contains__(self, x):
        if isinstance(x, HName):
            return self.w.e.decide(self.w.want(x.e))
        raise Unsupported('membership in the filter')

    def __bool__(self):
        return True


class Readers(object):
    def __init__(self, w, call):
        self.w, self.call = w, call

    def __contains__(self, x):
        if not isinstance(x, HName):
            raise Unsupported('membership in readers')
        return self.w.e.decide(self.w.known(x.e))

    def __getitem__(self, x):
        if x not in self:
            raise sem(KeyError(x))
        return lambda *a: self.call(x, *a)

    def get(self, x, d=None):
        return self[x] if x in self else d


def fresh_module(glob, mod):
    mod.__dict__.clear()
    mod.__dict__.update(glob)


def loaded():
    mod = inst.load(PARSERS)
    return mod, dict(mod.__dict__)


def guarded(e, what, f):
    """path whose exceptions are violations"""
    def path():
        try:
            f()
        except Exception as ex:
            if getattr(ex, 'semantic', False):
                e.fail(what + ': no exception', repr(ex)[:80])
                return
            raise
        e.cover(what)
    e.explore(path)


def parse(filtered):
    """parse_file: the loop over the records"""
    mod, glob = loaded()
    e = core.Engine('parse_file, ' + ('record filter' if filtered
                                      else 'all records'))
    out = object()

    class Done(Exception):
        pass

    class Out(object):
        def __init__(self, w):
            self.w = w

        def get_node(self, *a, **k):
            e.prove('the whole file is read', iexpr(self.w.i) == self.w.N)
            raise Done()

    def f():
        fresh_module(glob, mod)
        w = Recs(e)
        o = Out(w)

        def general_parser(name, rec, in_file, out_file):
            i = w.current('general_parser', name, rec)
            e.prove('general_parser is given the files', z3.BoolVal(
                in_file is w and out_file is o))
            if filtered:
                e.prove('only records of the filter are stored',
                        w.want(w.nm(i)))
            j = e.fresh(Z, 'j')     # a run of records of the name is read
            e.assume(z3.And(i < j, j <= w.N))
            w.i = wrap(j)
            return w.header()

        def on_skip(i):
            e.prove('records that are wanted are not skipped',
                    z3.Not(w.want(w.nm(i))) if filtered
                    else z3.BoolVal(False))
        w.on_skip = on_skip
        mod.general_parser = general_parser
        mod.get_path = lambda: 'x'
        try:
            if filtered:
                mod.parse_file(w, o, Only(w))
            else:
                mod.parse_file(w, o)
        except Done:
            return
        e.fail('the group of the superelement is looked up')
    guarded(e, 'parse_file', f)
    return e


def general():
    """general_parser: dispatch to the readers, unknown records"""
    mod, glob = loaded()
    e = core.Engine('general_parser')

    def f():
        fresh_module(glob, mod)
        w = Recs(e)
        i = z3.Const('i', Z)
        e.assume(z3.And(i >= 0, i < w.N))
        w.i = wrap(i)
        o, res = object(), (object(), object())
        calls = []
        e.assume(w.h(i, z3.IntVal(0)) >= 0)
        nm, rec = w.header()

        def call(key, *a):
            calls.append(1)
            e.prove('the reader of the record is called',
                    w.nm(i) == w.nm(key.i))
            e.prove('with the header', z3.BoolVal(
                len(a) == 4 and isinstance(a[0], HName) and
                isinstance(a[1], HRec) and a[2] is w and a[3] is o))
            w.current('the reader', a[0], a[1])
            return res

        def on_skip(j):
            e.prove('only records without a reader are skipped',
                    z3.Not(w.known(w.nm(j))))
        w.on_skip = on_skip
        mod.readers = Readers(w, call)
        mod.record_names = SList(['x'])
        r = mod.general_parser(nm, rec, w, o)
        if e.decide(w.known(w.nm(i))):
            e.prove('the result of the reader is handed on',
                    z3.BoolVal(r is res or isinstance(r, tuple) and
                               r == res))
            e.prove('the reader is called once', z3.BoolVal(
                len(calls) == 1))
            v = mod.record_names
            v = list(v) if isinstance(v, (SList, list)) else []
            e.prove('the record type is listed', z3.BoolVal(
                len(v) >= 2 and v[0] == 'x' and
                all(isinstance(x, HName) for x in v[1:])))
            for x in v[1:]:
                e.prove('the record type is listed', w.nm(x.i) == w.nm(i))
        else:
            e.prove('no reader is called', z3.BoolVal(not calls))
            k = iexpr(w.i)
            ok = isinstance(r, tuple) and len(r) == 2
            e.prove('the record is skipped', z3.And(k > i, z3.BoolVal(ok)))
            e.prove('the latest header is handed on', z3.BoolVal(
                ok and w.tied('name', r[0], w.i) and
                w.tied('rec', r[1], w.i)))
            v = mod.record_names
            e.prove('skipped types are not listed', z3.BoolVal(
                isinstance(v, (SList, list)) and list(v) == ['x']))
    guarded(e, 'general_parser', f)
    return e


def negative(cls):
    """general_parser: records with a negative first value"""
    fmod = inst.load(seqfile.FILES)
    fglob = dict(fmod.__dict__)
    mod, glob = loaded()
    e = core.Engine('%s, general_parser, negative first value' % cls)
    names = seqfile.state_names(e, fmod, fglob, cls, 't2')

    def f():
        fresh_module(glob, mod)
        t = seqfile.Case(e, fmod, fglob, cls, 'neg')
        seqfile.precondition(e, t.w, 'neg')
        nm, h = t.header()
        t.settle(names)
        t.o.read_floatrec = seqfile.contract_floatrec(t)

        class No(object):
            def __contains__(self, x):
                return True

            def __getitem__(self, x):
                e.fail('prologue records are not given to a reader')
                raise PathEnd()

            def get(self, x, d=None):
                return lambda *a: self[0]
        mod.readers = No()
        mod.record_names = SList([])
        r = mod.general_parser(nm, h, t.o, None)
        seqfile.landed(e, t, r, 'neg', names)
    guarded(e, 'general_parser', f)
    return e


TRUSTED = [
    'a reader consumes the run of records of its name and hands on the next '
    'header (bodies verified under C03)',
    'prologue records: a first value of -5 announces one more line or '
    'block, other negative values none',
]
