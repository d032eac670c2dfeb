"""Normal form of polynomials with square roots of positive numbers.

Used before the solver for equations between real terms; what it does not
normalise to 0 = 0 goes to the solver."""
from fractions import Fraction
import z3


class No(Exception):
    pass


def frac(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long()) if \
        z3.is_rational_value(e) else Fraction(e.as_long())


class Norm(object):
    def __init__(self, limit=20000):
        self.atoms, self.sq, self.limit = {}, {}, limit
        self.memo = {}

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = e
            if z3.is_app(e) and e.decl().name() == 'sqrt':
                a = z3.simplify(e.arg(0))
                if z3.is_rational_value(a) and frac(a) > 0:
                    self.sq[i] = frac(a)
        return {((i, 1),): Fraction(1)}

    def mulmono(self, m, n):
        d = dict(m)
        for i, k in n:
            d[i] = d.get(i, 0) + k
        c = Fraction(1)
        for i, s in self.sq.items():
            k = d.get(i, 0)
            if k > 1:
                c *= s**(k//2)
                d[i] = k % 2
        return tuple(sorted((i, k) for i, k in d.items() if k)), c

    def mul(self, a, b):
        if len(a)*len(b) > self.limit:
            raise No()
        r = {}
        for m, x in a.items():
            for n, y in b.items():
                q, c = self.mulmono(m, n)
                r[q] = r.get(q, 0) + x*y*c
        return {m: x for m, x in r.items() if x}

    def add(self, a, b, s=1):
        r = dict(a)
        for m, x in b.items():
            r[m] = r.get(m, 0) + s*x
        return {m: x for m, x in r.items() if x}

    def inv(self, b):
        if list(b) == [()]:
            return {(): 1/b[()]}
        # x + y*sqrt(s)
        ids = {i for m in b for i, _ in m}
        if len(ids) == 1 and list(ids)[0] in self.sq and all(
                len(m) < 2 for m in b):
            i = list(ids)[0]
            x, y = b.get((), Fraction(0)), b.get(((i, 1),), Fraction(0))
            q = x*x - self.sq[i]*y*y
            if q:
                return {m: c for m, c in (((), x/q), (((i, 1),), -y/q)) if c}
        raise No()

    def poly(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = (e, self._poly(e))
        return self.memo[k][1]

    def _poly(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = frac(e)
            return {(): f} if f else {}
        if z3.is_add(e):
            r = {}
            for x in e.children():
                r = self.add(r, self.poly(x))
            return r
        if z3.is_sub(e):
            c = e.children()
            r = self.poly(c[0])
            for x in c[1:]:
                r = self.add(r, self.poly(x), -1)
            return r
        if z3.is_mul(e):
            r = {(): Fraction(1)}
            for x in e.children():
                r = self.mul(r, self.poly(x))
            return r
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            return self.add({}, self.poly(e.arg(0)), -1)
        if z3.is_div(e):
            return self.mul(self.poly(e.arg(0)), self.inv(self.poly(
                e.arg(1))))
        if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_int_value(
                z3.simplify(e.arg(1))):
            n = z3.simplify(e.arg(1)).as_long()
            if 0 <= n <= 8:
                r = {(): Fraction(1)}
                for _ in range(n):
                    r = self.mul(r, self.poly(e.arg(0)))
                return r
        return self.atom(e)


def equal(c):
    """c is an equation of real terms that holds identically"""
    if not z3.is_eq(c) or not z3.is_real(c.arg(0)):
        return False
    n = Norm()
    try:
        return not n.add(n.poly(c.arg(0)), n.poly(c.arg(1)), -1)
    except No:
        return False
