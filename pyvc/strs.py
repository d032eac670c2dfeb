"""Symbolic text (z3 strings with uninterpreted strip/decode)"""
import z3
from . import core, seq
from .core import Unsupported, wrap, sem

STRIP = z3.Function('strip', z3.StringSort(), z3.StringSort())
RSTRIP = z3.Function('rstrip', z3.StringSort(), z3.StringSort())
LSTRIP = z3.Function('lstrip', z3.StringSort(), z3.StringSort())


def sexpr(v):
    if isinstance(v, SStr):
        return v.e
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, bytes):
        return z3.StringVal(v.decode('latin-1'))
    return None


class SStr(object):
    """kind 'str' or 'bytes'"""

    def __init__(self, e, kind='str'):
        self.e, self.kind = e, kind

    def _same(self, o):
        k = o.kind if isinstance(o, SStr) else type(o).__name__
        if k != self.kind:
            raise sem(TypeError('%s and %s' % (self.kind, k)))

    def __add__(self, o):
        if sexpr(o) is None:
            return NotImplemented
        self._same(o)
        return SStr(z3.simplify(z3.Concat(self.e, sexpr(o))), self.kind)

    def __radd__(self, o):
        if sexpr(o) is None:
            return NotImplemented
        self._same(o)
        return SStr(z3.simplify(z3.Concat(sexpr(o), self.e)), self.kind)

    def strip(self, *a):
        if a:
            raise Unsupported('strip with characters')
        return SStr(STRIP(self.e), self.kind)

    def rstrip(self, *a):
        if a:
            raise Unsupported('rstrip with characters')
        return SStr(RSTRIP(self.e), self.kind)

    def lstrip(self, *a):
        if a:
            raise Unsupported('lstrip with characters')
        return SStr(LSTRIP(self.e), self.kind)

    def decode(self, *a):
        if self.kind != 'bytes':
            raise sem(AttributeError('decode'))
        return SStr(self.e, 'str')

    def encode(self, *a):
        if self.kind != 'str':
            raise sem(AttributeError('encode'))
        return SStr(self.e, 'bytes')

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        return wrap(z3.PrefixOf(sexpr(p), self.e))

    def endswith(self, p):
        return wrap(z3.SuffixOf(sexpr(p), self.e))

    def __contains__(self, p):
        return core.ENG.decide(z3.Contains(self.e, sexpr(p)))

    def sym_len(self):
        return wrap(z3.Length(self.e))

    def __len__(self):
        return core.ENG.concretize(z3.Length(self.e))

    def __bool__(self):
        return core.ENG.decide(z3.Length(self.e) > 0)

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1) and \
                all(x is None or isinstance(x, int) and x >= 0
                    for x in (i.start, i.stop)):
            a = i.start or 0
            n = z3.Length(self.e) - a if i.stop is None else \
                z3.IntVal(max(0, i.stop - a))
            return SStr(z3.simplify(z3.SubString(self.e, a, n)), self.kind)
        raise Unsupported('part of a symbolic text')

    def __eq__(self, o):
        e = sexpr(o)
        if e is None:
            return False
        k = o.kind if isinstance(o, SStr) else type(o).__name__
        if k != self.kind:
            return False
        return wrap(self.e == e)

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported('hash of a symbolic text')

    def sym_isinstance(self, c):
        if c in (str, bytes):
            return c.__name__ == self.kind
        return None if c is not object else True

    def sym_str(self):
        return self

    def lower(self):
        raise Unsupported('lower')
    upper = lower

    def subst(self, p):
        return SStr(z3.substitute(self.e, *p), self.kind)

    def ite_with(self, c, o):
        self._same(o)
        e = sexpr(o)
        return self if e.eq(self.e) else SStr(z3.If(c, self.e, e), self.kind)

    def eq_obligations(self, o):
        e = sexpr(o)
        if e is None:
            return [([], z3.BoolVal(False))]
        return [([], self.e == e)]

    def __repr__(self):
        return 'SStr(%s)' % self.e


def join(sep, it):
    """sep.join(it)"""
    from .loops import For
    L = For(it)
    st = {'v': ''}
    if seq.SList is not None and not isinstance(it, (list, tuple)):
        s = seq.Seq.of(it)
        if not s.concrete():
            if sep not in ('', b''):
                raise Unsupported('join')
            cur = ''
            g = For(s, (lambda: cur,), ('cur',))
            for x in g:
                if g.sym:
                    cur, = g.locals()
                cur = cur + x
            if g.sym:
                cur, = g.locals()
            return cur
        it = s.items()
    out = ''
    for j, x in enumerate(it):
        if j and sep:
            out = out + sep
        out = out + x if not (isinstance(out, str) and out == '') else x
    return out
