"""Random records of every supported type (inputs of the bounded checks)."""
import numpy as np
from .records import SPECS, NNODES, TDNAMES, UNKNOWN_T1, UNKNOWN_T2
from .siffile import Rec

DEPENDS = {'GELREF1': ('GELMNT1',), 'RDIELCOR': ('RDPOINTS',)}
for _n in ('FORCES', 'STRAIN', 'STRESS'):
    DEPENDS['RV' + _n] = ('RDPOINTS', 'RD' + _n, 'RDRESREF')

LEN = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 31, 32, 33, 40)


class Gen(object):
    def __init__(self, rng, big=False):
        self.rng = rng
        self.eltyp = {}     # elno -> eltyp
        self.grid = {}      # icoref -> (nlay, nk, nj, ni)
        self.nsp = {}       # (ispalt, elno) -> nsp
        self.lenrec = {}    # (RVname, ir) -> n
        self.icompl = {}    # ires -> flag
        self.big = big

    # -- values
    def n(self, lo=0):
        """a length: zero, one, many; multiples of 4 and not"""
        r = self.rng
        if r.random() < .7:
            return max(lo, int(r.integers(0, 9)))
        return max(lo, int(r.choice(LEN)))

    def i(self, lo=1, hi=100000):
        return float(self.rng.integers(lo, hi))

    def f(self):
        r = self.rng
        k = r.integers(0, 8)
        if k == 0:
            return 0.
        if k == 1:
            return float(r.integers(-9, 10))
        if k == 2:
            return float(np.float32(r.normal()*10.**r.integers(-30, 30)))
        return float(np.float32(r.normal()*10.**r.integers(-3, 4)))

    def fs(self, n):
        return [self.f() for _ in range(n)]

    def is_(self, n):
        return [self.i() for _ in range(n)]

    def col(self, t):
        return self.i() if t == 'int32' else self.f()

    def text(self, maxlen, minlen=0):
        n = int(self.rng.integers(minlen, maxlen + 1))
        al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789' \
             ' _-.,:;/()=+*'
        s = ''.join(al[int(k)] for k in self.rng.integers(0, len(al), n))
        return s

    # -- records
    def make(self, name):
        s = SPECS[name]
        f = getattr(self, 'g_' + name, None)
        if f is None and s.kind == 'td':
            f = lambda: self.td(name)
        elif f is None and s.kind == 'text':
            f = lambda: self.dt(name)
        elif f is None:
            f = GENERIC.get(name)
            f = (lambda: self.std(name)) if f is None else \
                (lambda g=f: g(self, name))
        out = f()
        head, body = out[0], out[1]
        lines = out[2] if len(out) > 2 else ()
        if s.kind == 't2':      # NFIELD
            head[0] = 4. + len(body)
        return Rec(name, head, body, lines, s.kind, self.rng.random() < .7)

    def std(self, name):
        s = SPECS[name]
        v = [self.col(t) for _, t, _ in s.cols]
        if s.opt and self.rng.random() < .5:
            v = v[:-s.opt]
        v += [0.]*(4 - len(v))
        return v[:4], v[4:]

    def td(self, name):
        # a description may have one line; a name one line of <= 64 chars
        codnam = self.rng.choice([0, 100, 101, 132, 164])
        codtxt = self.rng.choice([0, 100, 164, 205, 330])
        lines = []
        for _ in range(int(codnam)//100):
            lines.append(self._line(56))
        for _ in range(int(codtxt)//100):
            lines.append(self._line(64))
        return [4., self.i(), float(codnam), float(codtxt)], [], lines

    def _line(self, n):
        k = self.rng.integers(0, 6)
        s = self.text(n - 16, 1).strip() or 'x'
        if k == 0:
            return ' '*8 + s
        if k == 1:
            return s + ' '*int(self.rng.integers(0, 8))
        if k == 2:   # looks like the header of some record
            return 'GNODE   ' + s
        if k == 3:
            return '        '
        return s

    def dt(self, name):
        n = self.n()
        lines = []
        for _ in range(n):
            k = self.rng.integers(0, 4)
            if k == 0:
                lines.append(('IEND    ' + self.text(40) + 'x'))
            elif k == 1:
                lines.append(' '*8 + self.text(60) + '.')
            else:
                lines.append(self.text(71) + '|')
        return [self.i(0, 9), self.i(0, 9), float(n), 72.], [], lines

    def g_IDENT(self):
        return [1., 1., 3., 0.], []

    def g_HIERARCH(self):
        n = self.n()
        return [8. + n] + self.is_(3), self.is_(3) + [float(n)] + self.is_(n)

    def g_GELMNT1(self):
        t = int(self.rng.choice(list(NNODES)))
        no = int(self.i(1, 60))
        self.eltyp[no] = t
        return [self.i(), float(no), float(t), self.i()], \
            self.is_(NNODES[t])

    def g_GELMNT2(self):
        n = self.n()
        return self.is_(4), self.fs(12) + [float(n)] + self.is_(n)

    def g_GELREF1(self):
        no = int(self.rng.choice(list(self.eltyp)))
        n = NNODES[self.eltyp[no]]
        b = self.is_(8)
        for k in (4, 5, 6, 7):
            if self.rng.random() < .5:
                b[k] = -1.
                b += self.is_(n)
        return [float(no)] + self.is_(3), b

    def g_GSETMEMB(self):
        n = self.n()
        return [5. + n] + self.is_(3), [self.i()] + self.is_(n)

    def g_SCONCEPT(self):
        if self.rng.random() < .6:
            a, b = self.n(), self.n()
            return [8. + a + b, self.i(), 7., self.i()], \
                [self.i(), float(a), float(b)] + self.is_(a + b)
        return [5., self.i(), 2., self.i()], [self.i()]

    def g_SCONMESH(self):
        n = self.n()
        return [5. + n, self.i(), 1., self.i()], [float(n)] + self.is_(n)

    def g_BNBCD(self):
        n = int(self.rng.integers(0, 8))
        v = [float(x) for x in self.rng.integers(0, 5, n)]
        h = v[:2] + [0.]*(2 - len(v[:2]))
        return [self.i(), float(n)] + h, v[2:]

    def g_BLDEP(self):
        n = int(self.rng.integers(0, 7))
        b = []
        for _ in range(n):
            b += [self.i(), self.i(), self.f(), 0.]
        return self.is_(3) + [float(n)], b

    def g_BEUSLO(self):
        n = self.n()
        c = float(self.rng.integers(0, 2))
        return [self.i(), self.i(), c, self.i()], \
            [self.i(), float(n), self.i(), self.i()] + \
            self.fs(n*(2 if c else 1))

    def g_BRIGAC(self):
        c = float(self.rng.integers(0, 2))
        return [self.i(), self.f(), c, self.f()], self.fs(16 if c else 10)

    def _xsuptran(self):
        return [18., self.i(), self.f(), self.f()], self.fs(14)
    g_HSUPTRAN = g_RSUPTRAN = _xsuptran

    def _rd(self, key):
        n = int(self.rng.integers(1, 12))
        ir = int(self.i(1, 5))
        self.lenrec[key, ir] = n
        v = self.is_(n)
        return [3. + n, float(ir), float(n), v[0]], v[1:]

    def g_RDFORCES(self):
        return self._rd('RVFORCES')

    def g_RDNODRES(self):
        return self._rd('RVNODRES')

    def g_RDSTRAIN(self):
        return self._rd('RVSTRAIN')

    def g_RDSTRESS(self):
        return self._rd('RVSTRESS')

    def g_RDELNFOR(self):
        return self._rd('RVELNFOR')

    def g_RDPOINTS(self):
        nk, nj, ni = [int(x) for x in self.rng.integers(0, 4, 3)]
        nk = max(nk, 1)
        if self.rng.random() < .15:
            ni = int(self.rng.integers(10, 14))
        icoref, alt, el = [int(self.i(1, 6)) for _ in range(3)]
        nlay, ntra = int(self.rng.integers(0, 4)), \
            int(self.rng.integers(0, 4))
        body, nsp = [], 0
        for _ in range(nk*nj*ni):
            if self.rng.random() < .6:
                nsp += 1
                body += [float(nsp)] + self.fs(3)
            else:
                body.append(float(self.rng.choice([-1., 0.])))
        self.grid[icoref] = (nlay, nk, nj, ni)
        self.nsp[alt, el] = nsp
        body += self.fs(9*ntra)
        return [9. + len(body), float(alt), float(el), float(icoref)], \
            [self.i(), float(nsp), nk*10000. + nj*100. + ni, float(ntra),
             float(nlay)] + body

    def g_RDIELCOR(self):
        c = int(self.rng.choice(list(self.grid)))
        nlay, nk, nj, ni = self.grid[c]
        v = self.fs(nk + nj + ni + 2*nlay)
        return [3. + len(v), float(c), self.i(), v[0]], v[1:]

    def g_RDRESREF(self):
        n = self.n()
        ires = int(self.i(1, 8))
        c = int(self.rng.integers(0, 2))
        self.icompl[ires] = c
        return [7. + 3*n, float(ires), self.i(), self.i()], \
            [self.i(), float(c), float(n)] + self.fs(3*n)

    def _cmb(self):
        n = self.n()
        return [4. + 3*n, self.i(), self.i(0, 2), float(n)], self.fs(3*n)
    g_RBLODCMB = g_RDRESCMB = _cmb

    def _nodres(self):
        n = int(self.rng.choice([6, 12, 3, 0, 1, 7]))
        return [5. + n] + self.is_(3), [self.i()] + self.fs(n)
    g_RVNODACC = g_RVNODDIS = g_RVNODVEL = _nodres

    def _elmres(self, key):
        alt, el = list(self.nsp)[int(self.rng.integers(0, len(self.nsp)))]
        irs = [ir for k, ir in self.lenrec if k == key]
        ir = int(self.rng.choice(irs))
        ires = int(self.rng.choice(list(self.icompl)))
        n = self.nsp[alt, el]*self.lenrec[key, ir]*(self.icompl[ires] + 1)
        return [5. + n, float(ires), float(el), float(alt)], \
            [float(ir)] + self.fs(n)

    def g_RVFORCES(self):
        return self._elmres('RVFORCES')

    def g_RVSTRAIN(self):
        return self._elmres('RVSTRAIN')

    def g_RVSTRESS(self):
        return self._elmres('RVSTRESS')

    def g_WBODCON(self):
        n = self.n()
        return [4. + 3*n, self.i(), self.i(), float(n)], self.fs(3*n)

    def g_WDRESREF(self):
        k = int(self.rng.integers(0, 4))
        n = int(self.rng.integers(0, 6))
        typs = list(self.rng.permutation([1, 2, 3]))[:k]
        b = []
        for t in typs:
            b += [float(t)] + self.fs(2*n)
        return [4. + len(b), self.i(), float(n), float(k)], b

    def g_WGLOBDEF(self):
        d = float(self.rng.integers(0, 2))
        return [4. + d, self.f(), self.f(), d], self.fs(int(d))

    def g_WBODY(self):
        return [32., self.i(), self.f(), self.f()], self.fs(28)

    def g_W1MATRIX(self):
        return [42.] + self.is_(3), self.is_(2) + self.fs(36)

    def _w1(self):
        c = float(self.rng.integers(0, 2))
        return [10. + 6*c, self.i(), self.i(), c], self.fs(12 if c else 6)
    g_W1EXFORC = g_W1MOTION = g_W2EXFDIF = g_W2EXFSUM = _w1

    def g_W1SFORCE(self):
        c = float(self.rng.integers(0, 2))
        return [11. + 6*c] + self.is_(3), [c] + self.fs(12 if c else 6)

    def g_W2HDRIFT(self):
        return [6.] + self.is_(2) + [self.f()], self.fs(2)

    def g_W2MDRIFT(self):
        return [9.] + self.is_(2) + [self.f()], self.fs(5)

    def g_WFKPOINT(self):
        return [5., self.i(), self.f(), self.f()], self.fs(1)

    def g_WFLUIDKN(self):
        c = float(self.rng.integers(0, 2))
        return [8. + 4*c] + self.is_(2) + [c], self.fs(8 if c else 4)

    def g_WSECTION(self):
        return [14.] + self.is_(3), [self.i()] + self.fs(9)

    def g_WSURFACE(self):
        n = self.n()
        c = int(self.rng.integers(0, 2))
        f = [int(x) for x in self.rng.integers(0, 2, 3)]
        per = 1 + sum(f)*(1 + c)
        return [8. + n*per] + self.is_(2) + [float(n)], \
            [float(c)] + [float(x) for x in f] + self.fs(n*per)

    def g_WINPUT(self):
        return [18., self.i(), self.f(), self.f()], self.fs(14)

    def g_W1PANPRE(self):
        c = float(self.rng.integers(0, 2))
        return [9. + c] + self.is_(3), [self.i(), c] + \
            self.fs(2 if c else 1) + self.is_(2)

    # -- records without a reader
    def unknown(self):
        r = self.rng
        if r.random() < .5:
            name = str(r.choice(UNKNOWN_T1))
            n = int(r.choice([0, 0, 4, 4, 8, 12, 40]))
            return Rec(name, [self.i()] + self.fs(3), self.fs(n), (), 't1')
        name = str(r.choice(UNKNOWN_T2))
        n = int(r.choice([0, 1, 4, 5, 31, 32, 33, 64, 70]))
        return Rec(name, [4. + n] + self.fs(3), self.fs(n), (), 't2')

    def negative(self, name):
        """prologue record announcing a run of records of one type"""
        if self.rng.random() < .5:
            return Rec(name, [-4., self.i(), self.i(), self.i()], (), (),
                       'neg')
        return Rec(name, [-5., self.i(), self.i(), self.i()], [self.i()], (),
                   'neg')

    def can(self, name):
        if name == 'GELREF1':
            return bool(self.eltyp)
        if name == 'RDIELCOR':
            return bool(self.grid)
        if name in ('RVFORCES', 'RVSTRAIN', 'RVSTRESS'):
            return bool(self.nsp) and bool(self.icompl) and \
                any(k == name for k, _ in self.lenrec)
        return True


GENERIC = {}

# (TDSCATTER: names on file have eight characters)
GENERAL_NAMES = [n for n in SPECS if len(n) <= 8 and
                 n not in ('IDENT', 'HIERARCH')]


def random_file(rng, names=None, nruns=8, maxrun=4, unknown=False, neg=False,
                cover=()):
    """IDENT, then runs of records, then IEND.  `cover`: names that must
    occur."""
    g = Gen(rng)
    names = list(names or GENERAL_NAMES)
    recs = [Rec('IDENT', (1., 1., 3., 0.))]
    todo = list(cover)
    # dependencies first
    order = []
    for n in todo:
        for d in DEPENDS.get(n, ()):
            order.append(d)
        order.append(n)
    k = 0
    while k < nruns or order:
        if order and (rng.random() < .6 or k >= nruns):
            n = order.pop(0)
        else:
            n = str(rng.choice(names))
            if not g.can(n):
                continue
        k += 1
        if unknown and rng.random() < .5:
            u = g.unknown()
            for _ in range(int(rng.integers(1, 4))):
                recs.append(u)
                u = g.unknown() if rng.random() < .5 else u
        if neg and SPECS[n].kind in ('t1', 't2') and rng.random() < .4 and \
                recs[-1].name != n:
            recs.append(g.negative(n))
        for _ in range(int(rng.integers(1, maxrun + 1))):
            recs.append(g.make(n))
    if unknown and rng.random() < .5:
        recs.append(g.unknown())
    recs.append(Rec('IEND', (0., 0., 0., 0.)))
    return recs
