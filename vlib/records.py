"""Specification of the SESAM interface file records, written from the record
definitions (not from the readers).  `decode(name, H, S, env, lines)` says what
one record means:

  H     the (up to four) values on the header line
  S     the numeric values that follow (a Stream)
  env   values remembered from earlier records of the same file
  lines the text lines that follow (text records)

It returns a Dec: column values in column order, companion arrays in order,
the number of body values used, and the updates to `env`.

The functions only use indexing, slicing, `rows`, `int_`, `cplx` and ordinary
conditionals, so the same text is used concretely (oracle of the bounded
checks) and symbolically (postcondition of the readers; pyvc supplies the
symbolic Stream and runs the conditionals path by path).
"""
import builtins

I, F, C = 'int32', 'float32', 'complex64'


class Dec(object):
    def __init__(self, row, comps=(), used=0, env=None):
        self.row, self.comps, self.used, self.env = \
            tuple(row), tuple(comps), used, env or {}


class Stream(tuple):
    """values following a header record (concrete)"""

    def rows(self, p, n, w):
        return tuple(tuple(self[p + i*w:p + i*w + w]) for i in range(n))

    def points(self, p, nk, nj, ni):
        """grid points: (id, x, y, z) if id > 0 else only the id"""
        out = []
        for _ in range(nk*nj*ni):
            if self[p] > 0:
                out.append(tuple(self[p:p+4]))
                p += 4
            else:
                p += 1
        return tuple(out), p

    def at0(self, i):
        """optional trailing value: zero when missing"""
        return self[i] if i < len(self) else 0.

    def refs(self, p, numtyp, n):
        """numtyp blocks (type, n pairs) -> dict type -> pairs"""
        d = {}
        for k in range(numtyp):
            q = p + k*(1 + 2*n)
            d[int(self[q])] = self.rows(q + 1, n, 2)
        return d, p + numtyp*(1 + 2*n)


def int_(x):
    return builtins.int(x)


def cplx(re, im):
    return complex(re, im)


def mat(v, n, m):
    return tuple(tuple(v[i*m:i*m+m]) for i in builtins.range(n))


# number of nodes per element type
NNODES = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}


class Spec(object):
    def __init__(self, name, kind, cols, decode, comps=(), opt=0):
        self.name = name
        self.kind = kind      # 't1' input record, 't2' results record,
                              # 'text', 'td'
        self.cols = cols      # [(column, type, shape)]
        self.comps = comps    # [(companion array, type, row shape)]
        self.decode = decode  # (H, S, env) -> Dec  /  (H, lines) -> Dec
        self.opt = opt


SPECS = {}


def _cols(s):
    out = []
    for w in s.split():
        shape = ()
        if '[' in w:
            w, sh = w[:-1].split('[')
            shape = tuple(int(x) for x in sh.split(','))
        n, t = w.split(':')
        out.append((n, {'i': I, 'f': F, 'c': C, 's': 'str'}[t], shape))
    return out


def spec(names, kind, cols, comps='', opt=0):
    def deco(f):
        for n in names.split():
            SPECS[n] = Spec(n, kind, _cols(cols), f, _cols(comps), opt)
        return f
    return deco


def _std(name, cols, opt=0):
    """fixed-length record: columns in file order, missing trailing = 0"""
    n = len(cols.split())

    def dec(H, S, env):
        k = n - 4 if n > 4 else 0
        m = k - opt
        row = tuple(H[:min(n, 4)]) + tuple(S[:m])
        row += tuple(S.at0(i) for i in builtins.range(m, k))
        return Dec(row, (), k)
    SPECS[name] = Spec(name, 't1', _cols(cols), dec, (), opt)


_std('GNODE', 'nodex:i nodeno:i ndof:i odof:i')
_std('GCOORD', 'nodeno:i xcoord:f ycoord:f zcoord:f')
_std('GECCEN', 'eccno:i ex:f ey:f ez:f')
_std('GUNIVEC', 'transno:i unix:f uniy:f uniz:f')
_std('GELTH', 'geono:i th:f nint:i')
_std('MISOSEL', 'matno:i young:f poiss:f rho:f damp:f alpha:f')
_std('BGRAV', 'llc:i empty1:f empty2:f opt:i gx:f gy:f gz:f')
_std('GBEAMG', 'geono:i void:f area:f ix:f iy:f iz:f iyz:f wxmin:f wymin:f '
     'wzmin:f shary:f sharz:f shceny:f shcenz:f sy:f sz:f')
_std('GBARM', 'geono:i hz:f bt:f bb:f sfy:f sfz:f nloby:i nlobz:i', 2)
_std('GBOX', 'geono:i hz:f ty:f t_b:f tt:f by:f sfy:i sfz:i nloby:i nlobz:i',
     2)
_std('GCHAN', 'geono:i hz:f ty:f by:f tz:f sfy:i sfz:i empty:i k:i nloby:i '
     'nlobz:i', 2)
_std('GCHANR', 'geono:i hz:f ty:f by:f tz:f sfy:i sfz:i empty:i k:i r:i '
     'nloby:i nlobz:i', 2)
_std('GDOBO', 'geono:i hz:f ty:f by:f tt:f t_b:f sfy:i sfz:i nloby:i nlobz:i',
     2)
_std('GIORH', 'geono:i hz:f ty:f bt:f tt:f bb:f t_b:f sfy:i sfz:i nlobyt:i '
     'nlobyb:i nlobz:i', 3)
_std('GIORHR', 'geono:i hz:f ty:f bt:f tt:f bb:f t_b:f sfy:i sfz:i rt:f rb:f '
     'nlobyt:i nlobyb:i nlobz:i', 3)
_std('GLSEC', 'geono:i hz:f ty:f by:f tz:f sfy:i sfz:i k:f nloby:i nlobz:i',
     2)
_std('GLSECR', 'geono:i hz:f ty:f by:f tz:f sfy:i sfz:i k:f r:f nloby:i '
     'nlobz:i', 2)
_std('GPIPE', 'geono:i di:f dy:f t:f sfy:i sfz:i ncir:i nrad:i', 2)
_std('GUSYI', 'geono:i hz:f ty:f bt:f b1:f tt:f bb:f b2:f t_b:f sfy:i sfz:i '
     'nlobyt:i nlobyb:i nlobz:i', 2)


@spec('IDENT', 't1', 'slevel:i seltyp:i selmod:i')
def _(H, S, env):
    return Dec(H[:3], (), 0)


@spec('HIERARCH', 't2', 'nfield:i ihref:i iselty:i indsel:i islevl:i itref:i '
      'ihpref:i nsub:i', 'ihsref:i')
def _(H, S, env):
    n = int_(S[3])
    return Dec(tuple(H) + tuple(S[:4]), (S[4:4+n],), 4 + n)


@spec('GELMNT1', 't1', 'elnox:i elno:i eltyp:i eltyad:i', 'nodin:i')
def _(H, S, env):
    n = env.nnodes(int_(H[2]))
    return Dec(H, (S[:n],), n, {('eltyp', int_(H[1])): int_(H[2])})


@spec('GELMNT2', 't1', 'subno:i slevel:i stype:i addno:i t:f[12] nnod:i',
      'nod:i')
def _(H, S, env):
    n = int_(S[12])
    return Dec(tuple(H) + (tuple(S[:12]), S[12]), (S[13:13+n],), 13 + n)


@spec('GELREF1', 't1', 'elno:i matno:i addno:i intno:i mintno:i strano:i '
      'streno:i strepono:i geono:i fixno:i eccno:i transno:i',
      'geono:i fixno:i eccno:i transno:i')
def _(H, S, env):
    n = env.nnodes(env['eltyp', int_(H[0])])
    p = 8
    comps = []
    for i in (4, 5, 6, 7):
        if S[i] == -1:
            comps.append(S[p:p+n])
            p = p + n
        else:
            comps.append(())
    return Dec(tuple(H) + tuple(S[:8]), comps, p)


@spec('GSETMEMB', 't2', 'nfield:i isref:i index:i istype:i isorig:i',
      'irmemb:i')
def _(H, S, env):
    n = int_(H[0]) - 5
    return Dec(tuple(H) + (S[0],), (S[1:1+n],), 1 + n)


@spec('SCONCEPT', 't2', 'nfield:i ircon:i scontype:i sconrole:i irparent:i '
      'npart:i njoin:i', 'irpart:i irjoin:i')
def _(H, S, env):
    if int_(H[2]) == 7:
        a, b = int_(S[1]), int_(S[2])
        return Dec(tuple(H) + tuple(S[:3]), (S[3:3+a], S[3+a:3+a+b]),
                   3 + a + b)
    return Dec(tuple(H) + (S[0], 0., 0.), ((), ()), 1)


@spec('SCONMESH', 't2', 'nfield:i ircon:i numrep:i typrep:i nferep:i',
      'irferep:i')
def _(H, S, env):
    n = int_(S[0])
    return Dec(tuple(H) + (S[0],), (S[1:1+n],), 1 + n)


@spec('BNBCD', 't1', 'nodeno:i ndof:i', 'fix:i')
def _(H, S, env):
    n = int_(H[1])
    if n < 3:
        if n < 1:
            return Dec(H[:2], ((),), 0)
        if n < 2:
            return Dec(H[:2], (H[2:3],), 0)
        return Dec(H[:2], (H[2:4],), 0)
    return Dec(H[:2], (tuple(H[2:4]) + S[:n-2],), n - 2)


@spec('BLDEP', 't1', 'nodeno:i cnod:i ndof:i ndep:i', 'deps:f[3]')
def _(H, S, env):
    n = int_(H[3])   # one line of four values per dependency, three used
    return Dec(H, (tuple_map(n, lambda i: tuple(S[4*i:4*i+3]), S),), 4*n)


def tuple_map(n, f, S):
    m = getattr(S, 'map', None)
    if m is not None:
        return m(n, f)
    return tuple(f(i) for i in builtins.range(n))


@spec('BEUSLO', 't1', 'llc:i lotyp:i complx:i layer:i elno:i ndof:i intno:i '
      'side:i', 'rload:f iload:f')
def _(H, S, env):
    n = int_(S[1])
    if H[2] != 0:
        return Dec(tuple(H) + tuple(S[:4]), (S[4:4+n], S[4+n:4+n+n]),
                   4 + n + n)
    return Dec(tuple(H) + tuple(S[:4]), (S[4:4+n], ()), 4 + n)


@spec('BRIGAC', 't1', 'llc:i empty1:f complx:i empty2:f xcoord:f ycoord:f '
      'zcoord:f empty3:f raccl1:f raccl2:f raccl3:f raccl4:f raccl5:f '
      'raccl6:f iaccl1:f iaccl2:f iaccl3:f iaccl4:f iaccl5:f iaccl6:f')
def _(H, S, env):
    if H[2] != 0:
        return Dec(tuple(H) + tuple(S[:16]), (), 16)
    return Dec(tuple(H) + tuple(S[:10]) + (0.,)*6, (), 10)


@spec('HSUPTRAN RSUPTRAN', 't2', 'nfield:i itref:i t:f[4,4]')
def _(H, S, env):
    return Dec(tuple(H[:2]) + (mat(tuple(H[2:4]) + tuple(S[:14]), 4, 4),), (),
               14)


def _compdef(H, S, env, key):
    n = int_(H[2])
    return Dec(H[:3], (tuple(H[3:4]) + S[:n-1],), n - 1,
               {('lenrec', key, int_(H[1])): n})


def _mk(key):
    return lambda H, S, env: _compdef(H, S, env, key)


for _n in ('FORCES', 'NODRES', 'STRAIN', 'STRESS', 'ELNFOR'):
    spec('RD' + _n, 't2', 'nfield:i ir:i lenrec:i', 'icomp:i')(_mk('RV' + _n))


@spec('RDPOINTS', 't2', 'nfield:i ispalt:i iielno:i icoref:i ieltyp:i nsp:i '
      'ijkdim:i nsptra:i nlay:i', 'respoint:f[4] xform:f[3,3]')
def _(H, S, env):
    ijk, ntra, nlay = int_(S[2]), int_(S[3]), int_(S[4])
    nk, nj, ni = ijk // 10000, ijk % 10000 // 100, ijk % 100
    pts, p = S.points(5, nk, nj, ni)
    xf = tuple_map(ntra, lambda i: mat(tuple(S[p + 9*i:p + 9*i + 9]), 3, 3),
                   S)
    return Dec(tuple(H) + tuple(S[:5]), (pts, xf), p + 9*ntra,
               {('grid', int_(H[3])): (nlay, nk, nj, ni),
                ('nsp', int_(H[1]), int_(H[2])): int_(S[1])})


@spec('RDIELCOR', 't2', 'nfield:i icoref:i igrid:i',
      'gamma:f beta:f alpha:f layers:f[2]')
def _(H, S, env):
    nlay, nk, nj, ni = env['grid', int_(H[1])]
    if nk >= 1:
        gamma, p = tuple(H[3:4]) + S[:nk-1], nk - 1
    else:
        gamma, p = (), 0
    return Dec(H[:3], (gamma, S[p:p+nj], S[p+nj:p+nj+ni],
                       S.rows(p + nj + ni, nlay, 2)), p + nj + ni + 2*nlay)


@spec('RDRESREF', 't2', 'nfield:i ires:i irno:i ieres:i icalty:i icompl:i '
      'numtyp:i', 'reftyps:f[3]')
def _(H, S, env):
    n = int_(S[2])
    return Dec(tuple(H) + tuple(S[:3]), (S.rows(3, n, 3),), 3 + 3*n,
               {('icompl', int_(H[1])): int_(S[1])})


def _cmb(H, S, env):
    n = int_(H[3])
    return Dec(H, (S.rows(0, n, 3),), 3*n)


spec('RBLODCMB', 't2', 'nfield:i ires:i icompl:i nblc:i', 'blcs:f[3]')(_cmb)
spec('RDRESCMB', 't2', 'nfield:i ires:i icompl:i nblc:i', 'rcs:f[3]')(_cmb)


def _nodres(H, S, env):
    n = int_(H[0]) - 5
    return Dec(tuple(H) + (S[0],), (S[1:1+n],), 1 + n)


for _n, _c in (('ACC', 'acc'), ('DIS', 'dis'), ('VEL', 'vel')):
    spec('RVNOD' + _n, 't2', 'nfield:i ires:i iinod:i irdva:i itrans:i',
         _c + ':f')(_nodres)


def _elmres(key):
    def dec(H, S, env):
        n = env['nsp', int_(H[3]), int_(H[2])] * \
            env['lenrec', key, int_(S[0])] * (env['icompl', int_(H[1])] + 1)
        return Dec(tuple(H) + (S[0],), (S[1:1+n],), 1 + n)
    return dec


for _n, _c in (('FORCES', 'force'), ('STRAIN', 'strain'),
               ('STRESS', 'stress')):
    spec('RV' + _n, 't2', 'nfield:i ires:i iielno:i ispalt:i ir:i',
         _c + ':f')(_elmres('RV' + _n))


@spec('WBODCON', 't2', 'nfield:i ibcond:i ibody:i numcon:i', 'refcond:f[3]')
def _(H, S, env):
    n = int_(H[3])
    return Dec(H, (S.rows(0, n, 3),), 3*n)


@spec('WDRESREF', 't2', 'nfield:i iwres:i nresrf:i numtyp:i',
      'dir:f[2] freq:f[2] time:f[2]')
def _(H, S, env):
    d, p = S.refs(0, int_(H[3]), int_(H[2]))
    return Dec(H, tuple(d.get(k, ()) for k in (1, 2, 3)), p)


@spec('WGLOBDEF', 't2', 'nfield:i g:f ro:f idepth:i depth:f')
def _(H, S, env):
    if int_(H[3]) != 0:
        return Dec(tuple(H) + (S[0],), (), 1)
    return Dec(tuple(H) + (1.,), (), 0)


@spec('WBODY', 't2', 'nfield:i ibcond:i clenb:f bmass:f wsarea:f wparea:f '
      'vol:f xcg:f ycg:f zcg:f xcb:f ycb:f zcb:f xrb:f yrb:f zrb:f t:f[4,4]')
def _(H, S, env):
    return Dec(tuple(H) + tuple(S[:12]) + (mat(S[12:28], 4, 4),), (), 28)


@spec('W1MATRIX', 't2', 'nfield:i imatrx:i ibconi:i ibconj:i iwres:i imtyp:i '
      'hmat:f[6,6]')
def _(H, S, env):
    return Dec(tuple(H) + tuple(S[:2]) + (mat(S[2:38], 6, 6),), (), 38)


def _cdata(S, p, n, flag):
    """n components, complex (re, im pairs) or real"""
    if flag:
        return tuple(cplx(S[p+2*i], S[p+2*i+1])
                     for i in builtins.range(n)), p + 2*n
    return tuple(S[p:p+n]), p + n


@spec('W1EXFORC W1MOTION W2EXFDIF W2EXFSUM', 't2', 'nfield:i ibcond:i '
      'iwres:i icompl:i data:c[6]')
def _(H, S, env):
    d, p = _cdata(S, 0, 6, int_(H[3]) != 0)
    return Dec(tuple(H) + (d,), (), p)


@spec('W1SFORCE', 't2', 'nfield:i ibcond:i isect:i iwres:i icompl:i data:c[6]')
def _(H, S, env):
    d, p = _cdata(S, 1, 6, int_(S[0]) != 0)
    return Dec(tuple(H) + (S[0], d), (), p)


@spec('W2HDRIFT', 't2', 'nfield:i ibcond:i iwres:i shfor:f[3]')
def _(H, S, env):
    return Dec(tuple(H[:3]) + (tuple(H[3:4]) + tuple(S[:2]),), (), 2)


@spec('W2MDRIFT', 't2', 'nfield:i ibcond:i iwres:i smfor:f[6]')
def _(H, S, env):
    return Dec(tuple(H[:3]) + (tuple(H[3:4]) + tuple(S[:5]),), (), 5)


@spec('WFKPOINT', 't2', 'nfield:i ifkpnt:i fkpnt:f[3]')
def _(H, S, env):
    return Dec(tuple(H[:2]) + (tuple(H[2:4]) + (S[0],),), (), 1)


@spec('WFLUIDKN', 't2', 'nfield:i iwres:i ifkpnt:i icompl:i p:c v:c[3]')
def _(H, S, env):
    c = int_(H[3]) != 0
    p, q = _cdata(S, 0, 1, c)
    v, q = _cdata(S, q, 3, c)
    return Dec(tuple(H) + (p[0], v), (), q)


@spec('WSECTION', 't2', 'nfield:i ibody:i isect:i isecty:i secusr:i p1:f[3] '
      'p2:f[3] p3:f[3]')
def _(H, S, env):
    return Dec(tuple(H) + (S[0], tuple(S[1:4]), tuple(S[4:7]),
                           tuple(S[7:10])), (), 10)


def _surface(H, S, env):
    n = int_(H[0]) - 8
    comps = [S[1] != 0, S[2] != 0, S[3] != 0]
    cplxflag = S[0] != 0
    per = 1
    for c in comps:
        if c:
            per += 2 if cplxflag else 1

    def node(i):
        q = 4 + i*per
        r = (S[q],)
        q += 1
        for c in comps:
            if not c:
                r += (0.,)
            elif cplxflag:
                r += (cplx(S[q], S[q+1]),)
                q += 2
            else:
                r += (S[q],)
                q += 1
        return r
    return Dec(tuple(H) + tuple(S[:4]), (tuple_map(n // per, node, S),),
               4 + n)


spec('WSURFACE', 't2', 'nfield:i iwres:i indxwr:i nnode:i icompl:i icompx:i '
     'icompy:i icompz:i', 'zelev:c[4]')(_surface)


@spec('WINPUT', 't2', 'nfield:i ibcond:i t:f[4,4]')
def _(H, S, env):
    return Dec(tuple(H[:2]) + (mat(tuple(H[2:4]) + tuple(S[:14]), 4, 4),), (),
               14)


@spec('W1PANPRE', 't2', 'nfield:i ibcond:i iwres:i ippan:i isymm1:i icompl:i '
      'p:c ipan:i isymm2:i')
def _(H, S, env):
    p, q = _cdata(S, 2, 1, int_(S[1]) != 0)
    return Dec(tuple(H) + (S[0], S[1], p[0], S[q], S[q+1]), (), q + 2)


# ---- records with text lines ---------------------------------------------- #

def _text(H, lines):
    return Dec(H, (tuple(lines),), 0)


for _n in ('DATE', 'TEXT'):
    SPECS[_n] = Spec(_n, 'text', _cols('type:i subtype:i nrecs:i nbyte:i'),
                     _text, [('recs', 'S72', ())])


def _td(H, lines):
    k = int_(H[2]) // 100
    name = ''.join(l.strip() for l in lines[:k])
    return Dec(tuple(H) + (name,), (tuple(l.strip() for l in lines[k:]),), 0)


TDNAMES = ('TDMATER', 'TDSECT', 'TDSETNAM', 'TDSUPNAM', 'TSLAYER', 'TDSCONC',
           'TDLOAD', 'TDRESREF', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER')
for _n in TDNAMES:
    SPECS[_n] = Spec(_n, 'td', _cols('nfield:i idno:i codnam:i codtxt:i '
                                     'name:s'), _td, [('text', 'S64', ())])


class Env(dict):
    """concrete environment"""

    def nnodes(self, eltyp):
        return NNODES[eltyp]

    def __missing__(self, key):
        if key[0] == 'grid':
            # standard grids when no RDPOINTS record has been given
            return {15: (0, 1, 1, 3), 24: (0, 2, 3, 3)}[key[1]]
        raise KeyError(key)


# names of records in the interface file format without a reader here
UNKNOWN_T1 = ('BNLOAD', 'BELOAD1', 'BELLO2', 'BNDISPL', 'MORSMEL', 'GSLAYER',
              'AMATRIX', 'BNMASS', 'MGSPRNG', 'BEISTE', 'BNTEMP')
UNKNOWN_T2 = ('RVNODREA', 'RDNODREA', 'RDNODBOC', 'RDTRANS', 'RSUMMASS',
              'RSUMREAC', 'RVABSCIS', 'RVORDINA', 'RDSERIES', 'WSCATTER',
              'W2FLUDIF', 'WGRESPON', 'SPROSELE', 'SCONPLIS', 'SPROSEGM')
