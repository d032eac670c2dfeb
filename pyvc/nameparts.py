"""Which names a regular expression accepts, decided by z3.

The pattern is read by the parser of the re module and translated to a z3
regular expression over the printable ASCII characters."""
import z3
from .core import Unsupported

try:
    import re._parser as sre
    import re._constants as C
except ImportError:
    import sre_parse as sre
    import sre_constants as C
LO, HI = 32, 126
I = 2


def ch(c, icase):
    s = {chr(c)}
    if icase:
        s |= {chr(c).lower(), chr(c).upper()}
    return s


def cls(s):
    """regular expression of a set of characters"""
    s = sorted(x for x in s if LO <= ord(x) <= HI)
    if not s:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    rs, a, b = [], s[0], s[0]
    for x in s[1:]:
        if ord(x) == ord(b) + 1:
            b = x
        else:
            rs.append(z3.Range(a, b))
            a = b = x
    rs.append(z3.Range(a, b))
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


ALL = {chr(c) for c in range(LO, HI + 1)}
CAT = {C.CATEGORY_WORD: {c for c in ALL if c.isalnum() or c == '_'},
       C.CATEGORY_DIGIT: set('0123456789'),
       C.CATEGORY_SPACE: {' '}}
for _a, _b in ((C.CATEGORY_NOT_WORD, C.CATEGORY_WORD),
               (C.CATEGORY_NOT_DIGIT, C.CATEGORY_DIGIT),
               (C.CATEGORY_NOT_SPACE, C.CATEGORY_SPACE)):
    CAT[_a] = ALL - CAT[_b]


def concat(rs):
    rs = [r for r in rs if r is not None]
    if not rs:
        return z3.Re('')
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def one(op, av, ic):
    if op is C.LITERAL:
        return cls(ch(av, ic))
    if op is C.NOT_LITERAL:
        return cls(ALL - ch(av, ic))
    if op is C.ANY:
        return cls(ALL)
    if op is C.IN:
        s, neg = set(), False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                s |= ch(a, ic)
            elif o is C.RANGE:
                for x in range(max(a[0], LO), min(a[1], HI) + 1):
                    s |= ch(x, ic)
            elif o is C.CATEGORY:
                s |= CAT[a]
            else:
                raise Unsupported('pattern: %s' % o)
        return cls(ALL - s if neg else s)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, p = av
        r = many(list(p), ic)
        if hi is C.MAXREPEAT or hi == C.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            return concat([r]*lo + [z3.Star(r)])
        return z3.Loop(r, lo, hi)
    if op is C.SUBPATTERN:
        if av[1] & ~I or av[2]:
            raise Unsupported('pattern: flags')
        return many(list(av[3]), ic or bool(av[1] & I))
    if op is C.BRANCH:
        return z3.Union(*[many(list(p), ic) for p in av[1]])
    raise Unsupported('pattern: %s' % op)


def many(items, ic):
    return concat([one(o, a, ic) for o, a in items])


class Parts(object):
    """total language, language of the named groups and of what follows"""

    def __init__(self, pattern, flags, how):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = sre.parse(pattern, flags)
        fl = p.state.flags
        if fl & ~(I | 32 | 256):
            raise Unsupported('pattern: flags')
        ic = bool(fl & I)
        items = list(p)
        while items and items[0][0] is C.AT and items[0][1] in (
                C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            items = items[1:]
        end = how == 'fullmatch'
        while items and items[-1][0] is C.AT and items[-1][1] in (
                C.AT_END, C.AT_END_STRING):
            items, end = items[:-1], True
        if any(o is C.AT for o, a in items):
            raise Unsupported('pattern: anchors')
        tail = [] if end else [z3.Star(cls(ALL))]
        self.total = concat([many(items, ic)] + tail)
        names = {v: k for k, v in p.state.groupdict.items()}
        self.group, self.after = {}, {}
        for j, (o, a) in enumerate(items):
            if o is C.SUBPATTERN and a[0] in names:
                self.group[names[a[0]]] = one(o, a, ic)
                self.after[names[a[0]]] = concat(
                    [many(items[j+1:], ic)] + tail)


SPEC = r'(?i)(?P<prefix>[\w-]*)(?P<letter>[rtgl])(?P<selno>[1-9][0-9]*)' \
    r'(H[1-9][0-9]*)?\.(?P<ext>si[fun]|fem)'


def obligations(E, pattern, flags, how):
    got, want = Parts(pattern, flags, how), Parts(SPEC, 0, 'fullmatch')
    s = z3.String('name')

    def same(what, a, b):
        E.prove(what, z3.InRe(s, a) == z3.InRe(s, b))
    same('exactly the interface file names are accepted', got.total,
         want.total)
    for g in ('prefix', 'letter', 'ext'):
        if g not in got.group:
            raise Unsupported('pattern without the group ' + g)
        same('what the group %s is' % g, got.group[g], want.group[g])
        same('what follows the group %s' % g, got.after[g], want.after[g])
    if 'selno' in got.group:
        same('what the group selno is', got.group['selno'],
             want.group['selno'])
    # there is one way to divide a name
    def lr(p):
        return z3.Concat(p.group['letter'], p.after['letter'])
    some = z3.Plus(cls(ALL))
    E.prove('a name is divided in one way', z3.Not(z3.InRe(
        s, z3.Intersect(lr(want), z3.Concat(some, lr(want))))))
