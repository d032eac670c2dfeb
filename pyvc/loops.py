"""Loops of a symbolic number of rounds.

A `for` loop over a sequence of symbolic length n is not unrolled.  The state
the body can change (local variables it assigns, lists, dictionaries and
other registered cells) is described by a closed form in the round number k:
unchanged, v0 + c*k, a list with the values appended in rounds 0..k-1, a
recursively defined value, or "overwritten in every round".  The forms are
guessed from round 0 and then checked to be inductive: the body is run on all
its paths from the closed form at an arbitrary k, 0 <= k < n, and has to end
in the closed form at k+1.  Forms that are not inductive are weakened until
they are; a weakened cell may not be used (Poison).
"""
import numpy as np
import z3
from . import core, seq
from .core import (Unsupported, PathEnd, Poison, SNum, wrap, subst, ite, veq,
                   expr, arith, numval, mentions)
from .seq import Seq, SList, Map, Filt, SRange, hashname


class Unbound(object):
    pass


UNBOUND = Unbound()


def same(a, b):
    """syntactically the same value"""
    if a is b:
        return True
    if isinstance(a, SList):
        a = a.seq
    if isinstance(b, SList):
        b = b.seq
    if isinstance(a, (core.SNum, core.SBool, core.SAny)):
        return isinstance(b, (core.SNum, core.SBool, core.SAny)) and \
            z3.simplify(a.e).eq(z3.simplify(b.e))
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Seq):
        return isinstance(b, Seq) and len(a.parts) == len(b.parts) and \
            all(same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, z3.ExprRef):
        return isinstance(b, z3.ExprRef) and (
            a.eq(b) or z3.simplify(a).eq(z3.simplify(b)))
    if type(a) is type(b) and type(a).__name__ == 'SStr':
        return z3.simplify(a.e).eq(z3.simplify(b.e))
    if type(a) is type(b) and hasattr(type(a), 'eq_obligations') and \
            hasattr(type(a), 'fields'):
        return all(same(x, y) for x, y in zip(a.fields(), b.fields()))
    if type(a) == type(b) and isinstance(a, (int, float, str, bytes, bool,
                                             complex)):
        return a == b
    return False


class Opaque(object):
    """part of a list about which nothing is known"""

    @property
    def n(self):
        raise Unsupported('list under construction')

    def length(self):
        raise Unsupported('list under construction')

    def subst(self, p):
        return self

    def at(self, i):
        raise Unsupported('list under construction')


def is_num(v):
    return isinstance(v, SNum) or numval(v) is not None and \
        not isinstance(v, bool)


def is_str(v):
    from .strs import SStr
    return isinstance(v, (SStr, str))


def struct_num(v):
    """(number inside, function rebuilding the value) of a structured value"""
    f = getattr(type(v), 'vc_num', None)
    return None if f is None else f(v)


def anyexpr(v):
    if is_str(v):
        from .strs import sexpr
        return sexpr(v)
    return arith(v)


def rewrap(e, like):
    if is_str(like):
        from .strs import SStr
        return SStr(e, getattr(like, 'kind', 'str'))
    return wrap(e)


def seqval(v):
    """Seq of a sequence value, else None"""
    if isinstance(v, Seq):
        return v
    if isinstance(v, tuple):
        return Seq('tuple', (v,))
    return None


def parts_tail(before, after):
    """parts of `after` beyond `before`, or None"""
    b, a = before.parts, after.parts
    if len(a) < len(b):
        return None
    for i, p in enumerate(b):
        q = a[i]
        if isinstance(p, tuple) and isinstance(q, tuple):
            if i == len(b) - 1:
                if len(q) < len(p) or not all(same(x, y) for x, y in
                                              zip(p, q)):
                    return None
                rest = q[len(p):]
                return ((rest,) if rest else ()) + a[i+1:]
            if not same(p, q):
                return None
        elif p is not q and not (
                isinstance(p, Map) and isinstance(q, Map) and p.f is q.f
                and p.n.eq(q.n)):
            return None
    return a[len(b):]


def fixst(v, fix):
    """subst in the state of a cell"""
    if isinstance(v, (Unbound, Poison)):
        return v
    return subst(v, fix)


class For(object):
    sym = False

    ran = False

    def __init__(self, it, getters=(), names=()):
        self.it, self.getters, self.names = it, getters, names
        self.mode = None

    def last_element(self):
        n, elem, pred = self.ran
        if pred is not None:
            p = Poison('the variable of a filtered loop')
            e = elem(z3.IntVal(0))
            return tuple(p for _ in e) if isinstance(e, tuple) else p
        return elem(z3.simplify(n - 1))

    # -- state
    def read(self):
        out = []
        for g in self.getters:
            try:
                out.append(g())
            except NameError:
                out.append(UNBOUND)
        for h in self.heap:
            out.append(h.get_state())
        return out

    def apply(self, st):
        n = len(self.getters)
        self.cur = tuple(Poison('%s, unbound or overwritten in a loop' % nm)
                         if v is UNBOUND or isinstance(v, Poison) else v
                         for nm, v in zip(self.names, st[:n]))
        for h, v in zip(self.heap, st[n:]):
            h.set_state(v)

    def locals(self):
        return self.cur

    def pruned(self):
        """the path ended in the body; -> it ends here altogether"""
        if not self.exploring:
            return True
        E = core.ENG
        while len(E.stack) > self.depth:
            E.leave()
        while len(E.levels) > self.level:
            E.pop_level()
        self.dead = True
        return False

    def mark(self):
        E = core.ENG
        self.depth, self.level = len(E.stack), len(E.levels)
        self.exploring, self.dead = True, False

    exploring = False

    # -- leaving early
    def brk(self):
        if not self.sym or self.mode == 'exit':
            self.sym = False
            return True
        if self.mode is None:
            return True
        self.exited = True
        return False

    def __iter__(self):
        it = self.it
        if isinstance(it, SRange):
            it = it.as_seq()
        if isinstance(it, SList):
            it = it.seq
        if hasattr(it, 'as_seq') and not isinstance(it, Seq):
            it = it.as_seq()
        if not isinstance(it, Seq):
            return iter(it) if not hasattr(it, 'loop') else it.loop(self)
        if it.concrete():
            return iter(it.items())
        if len(it.parts) == 1 and isinstance(it.parts[0], Filt):
            return self.filtered(it.parts[0])
        n = z3.simplify(it.length())
        if not z3.is_int_value(n):
            n = core.ENG.known(n)
        if z3.is_int_value(n):
            return iter([it.at(j) for j in range(n.as_long())])
        return self.symbolic(n, it.at, None)

    def filtered(self, f):
        return self.symbolic(f.n, f.v, f.p)

    def explore(self, k, elem, state, hyps, check):
        E = core.ENG
        self.results = []
        E.enter()
        hl = len(E.heap)
        while True:
            E.nested_start()
            for h in hyps:
                E.assume(h)
            base = len(E.pc)
            del E.heap[hl:]
            self.apply(state)
            self.exited = False
            ok = True
            if self.pred is not None:
                ok = E.decide(self.pred(k))
            self.mark()
            if ok:
                yield elem(k)
            self.exploring = False
            if self.dead:
                if not E.nested_next():
                    break
                continue
            st = self.read()
            r = (z3.And(*E.pc[base:]) if len(E.pc) > base
                 else z3.BoolVal(True), st, self.exited)
            self.results.append(r)
            if check:
                check(r)
            if not E.nested_next():
                break
        E.leave()
        del E.heap[hl:]

    def symbolic(self, n, elem, pred):
        E = core.ENG
        self.sym = True
        self.mode = 'probe'
        self.n0 = E.n
        self.pred = pred
        self.heap = list(E.heap)
        st0 = self.read()
        if E.decide(n <= 0):
            self.apply(st0)
            return
        yield from self.explore(z3.IntVal(0), elem, st0, [], None)
        form = []
        for j, v in enumerate(st0):
            form.append(self.guess(v, [r[1][j] for r in self.results
                                       if not r[2]], st0, j))
        for attempt in range(12):
            k = E.fresh(z3.IntSort(), 'k')
            hyps = [k >= 0, k < n]
            at_k = self.close_all(form, st0, k)
            bad = {}
            obs0 = len(E.obs)

            def check(r):
                if r[2]:
                    return
                for j, f in enumerate(form):
                    w = self.inductive(f, st0[j], at_k[j], r[1][j], k,
                                       r[1])
                    if w:
                        bad[j] = w
            yield from self.explore(k, elem, at_k, hyps, check)
            if not bad:
                break
            del E.obs[obs0:]
            for j, w in bad.items():
                form[j] = w
        else:
            raise Unsupported('no inductive form for a loop')
        res = self.results
        exits = any(r[2] for r in res)
        if exits:
            cex = z3.Or(*[r[0] for r in res if r[2]])
            for f, v in zip(form, at_k):
                if f[0] == 'rec' and mentions(cex, anyexpr(v)):
                    raise Unsupported('exit that depends on a recurrence')

        def noexit(m):
            # in no round 0..m-1 the exit was taken
            j = z3.Int('j!exit')
            E.assume(z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < m),
                z3.Not(z3.substitute(cex, (k, j))))))
        if exits and not E.decide(E.fresh(z3.BoolSort(), 'through')):
            k2 = E.fresh(z3.IntSort(), 'k')
            E.assume(k2 >= 0)
            E.assume(k2 < n)
            noexit(k2)
            self.apply(self.close_all(form, st0, k2))
            self.mode = 'exit'
            if pred is not None:
                E.assume(pred(k2))
            yield elem(k2)
            raise PathEnd()
        if exits:
            noexit(n)
        go = [r for r in res if not r[2]]
        for r in go:
            for f, v in zip(form, r[1]):
                if f[0] not in ('const', 'slice', 'anybool', 'slinear'):
                    self.nofresh(v, k)
            if any(f[0] in ('rec', 'acc', 'last') for f in form):
                self.nofresh(r[0], k)
        self.ran = (n, elem, pred)
        fix, finals = [], {}
        for j, f in enumerate(form):
            if f[0] == 'rec':
                F, v = self.recfun(st0[j], [(r[0], r[1][j]) for r in go],
                                   at_k[j], k, n)
                finals[j] = rewrap(F(v, n), st0[j])
                fix.append((anyexpr(at_k[j]), F(v, k)))
        if fix:
            go = [(subst(r[0], fix), [fixst(x, fix) for x in r[1]], r[2])
                  for r in go]
            at_k = [fixst(x, fix) for x in at_k]
        self.apply(self.finals(form, st0, n, k, go, at_k, finals))

    def finals(self, form, st0, n, k, go, at_k, finals):
        out = [None]*len(st0)
        for j, (f, v) in enumerate(zip(form, st0)):
            if f[0] == 'rec':
                out[j] = finals[j]
            elif f[0] not in ('slice', 'tied'):
                out[j] = self.final(f, v, n, k, [(r[0], r[1][j])
                                                 for r in go], at_k[j])
        for j, (f, v) in enumerate(zip(form, st0)):
            if f[0] in ('slice', 'tied'):
                out[j] = self.closed(f, v, n, j, cells=out)
        return out

    def close_all(self, form, st0, k):
        out = [None]*len(st0)
        for j, f in enumerate(form):
            if f[0] not in ('slice', 'tied'):
                out[j] = self.closed(f, st0[j], k, j)
        for j, f in enumerate(form):
            if f[0] in ('slice', 'tied'):
                out[j] = self.closed(f, st0[j], k, j, cells=out)
        return out

    def recfun(self, v0, res, at, k, n):
        """the recursively defined function of a 'rec' cell"""
        step = None
        for c, a in res:
            e = anyexpr(a)
            step = e if step is None else z3.If(c, *core.same_sort(e, step))
        cur = anyexpr(at)
        h = z3.Const('cur!rec', cur.sort())
        kk = z3.Int('k!rec')
        step = z3.simplify(z3.substitute(step, (cur, h), (k, kk)))
        v = anyexpr(v0)
        if z3.is_int(v) and z3.is_real(step):
            raise Unsupported('sum of reals starting from an integer')
        name = 'rec<%s>' % hashname(step)
        F = z3.Function(name, v.sort(), z3.IntSort(), step.sort())
        core.ENG.recs[name] = (F, step, h, kk)
        return F, v

    def nofresh(self, v, k):
        """a value invented in one round does not stand for the others"""
        st = [v]
        while st:
            x = st.pop()
            if isinstance(x, (Poison, Unbound)):
                continue
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, Seq):
                st.extend(x.parts)
            elif isinstance(x, (SList, seq.SSet)):
                st.append(x.get_state())
            elif isinstance(x, Map):
                st += [x.n, x.f(z3.Int('k!any'))]
            elif isinstance(x, Filt):
                st += [x.n, x.p(z3.Int('k!any')), x.v(z3.Int('k!any'))]
            elif isinstance(x, seq.Cat):
                st += [x.n, x.f(z3.Int('k!any'))]
            elif isinstance(x, core.Cplx):
                st += [x.real, x.imag]
            elif isinstance(x, np.ndarray):
                st += list(x.flat)
            elif hasattr(type(x), 'exprs'):
                st += list(x.exprs())
            elif isinstance(x, vec_row()):
                st.append(x.i)
            elif hasattr(x, 'e') and isinstance(x.e, z3.ExprRef):
                st.append(x.e)
            elif isinstance(x, z3.ExprRef):
                for c in consts(x):
                    nm = c.decl().name().rsplit('!', 1)
                    if len(nm) == 2 and nm[1].isdigit() and \
                            int(nm[1]) > self.n0 and not c.eq(k):
                        raise Unsupported('value invented in a loop: %s' % c)

    # -- forms
    def guess(self, v0, after, st0=None, j=None):
        if not after:
            return ('const',)
        if all(same(v0, a) for a in after):
            return ('const',)
        if any(isinstance(a, (Poison, Unbound)) for a in [v0] + after):
            return ('last',)
        f = self.guess_slice(v0, st0, j)
        if f is not None:
            return f
        if struct_num(v0) is not None:
            if any(type(a) is not type(v0) for a in after):
                return ('last',)
            ds = [z3.simplify(struct_num(a)[0] - struct_num(v0)[0])
                  for a in after]
            if all(d.eq(ds[0]) for d in ds):
                return ('slinear', ds[0])
            return ('last',)
        if isinstance(v0, (bool, core.SBool)) and all(
                isinstance(a, (bool, core.SBool)) for a in after):
            return ('anybool',)
        if is_num(v0) and all(is_num(a) for a in after):
            ds = [z3.simplify(arith(a) - arith(v0)) for a in after]
            if all(d.eq(ds[0]) for d in ds):
                return ('linear', ds[0])
            return ('rec', seq.next_id())
        if is_str(v0) and all(is_str(a) for a in after):
            return ('rec', seq.next_id())
        s0 = seqval(v0)
        if s0 is not None:
            tails = [parts_tail(s0, seqval(a)) if seqval(a) is not None
                     else None for a in after]
            if all(t is not None for t in tails):
                return ('acc',)
        return ('last',)

    def guess_slice(self, v0, st0, j):
        """the slice of a stream up to the place of reading (a cell)"""
        s0 = seqval(v0)
        if s0 is None or len(s0.parts) > 1 or s0.parts and not isinstance(
                s0.parts[0], seq.Slice):
            return None
        for i, x in enumerate(st0):
            pos = getattr(core.ENG, 'place', None)
            if pos is None or i < len(self.getters):
                continue
            h = self.heap[i - len(self.getters)]
            if not isinstance(h, core.AttrCell) or \
                    h.obj is not pos.obj or \
                    h.name != pos.cell:
                continue
            here = z3.simplify(pos.at(x))
            if s0.parts and not core.ENG.must(s0.parts[0].end() == here):
                return None
            tails = [seqval(r[1][j]) for r in self.results
                     if not r[2]]
            a = s0.parts[0].a if s0.parts else here
            for t, r in zip(tails, [r for r in self.results if not r[2]]):
                if t is None or len(t.parts) != 1 or not isinstance(
                        t.parts[0], seq.Slice) or not core.ENG.must(
                            z3.And(t.parts[0].a == a)):
                    return None
            stream = tails[0].parts[0].stream
            return ('slice', i, a, stream, s0.kind)
        return None

    def closed(self, f, v0, k, j, res=None, kk=None, cells=None):
        if f[0] == 'tied':
            return f[2].make(f[3], cells[f[1]])
        if f[0] == 'free':
            return core.ENG.tie.fresh(v0)
        if f[0] == 'slice':
            end = core.ENG.place.at(cells[f[1]])
            return Seq(f[4], (seq.Slice(f[3], f[2], z3.simplify(
                end - f[2])),))
        if f[0] == 'slinear':
            e, mk = struct_num(v0)
            return mk(z3.simplify(e + f[1]*k))
        if f[0] == 'anybool':
            return core.SBool(core.ENG.fresh(z3.BoolSort(), 'flag'))
        if f[0] == 'const':
            return v0
        if f[0] == 'linear':
            return wrap(arith(v0) + f[1]*k)
        if f[0] == 'rec':
            a = anyexpr(v0)
            return rewrap(z3.Function('rec?%d' % f[1], z3.IntSort(),
                                      a.sort())(k), v0)
        if f[0] == 'acc':
            s0 = seqval(v0)
            return Seq(s0.kind, s0.parts + (Opaque(),))
        return Poison('a variable overwritten in a loop')

    def inductive(self, f, v0, at, after, k, st=None):
        """None if the form is preserved, else a weaker form"""
        E = core.ENG
        if f[0] == 'tied':
            c = st[f[1]]
            ok = not isinstance(c, (Poison, Unbound)) and \
                f[2].tied(f[3], after, c)
            return None if ok else ('last',)
        if f[0] == 'free':
            ok = not isinstance(after, (Poison, Unbound)) and \
                E.must(E.tie.range(v0, after))
            return None if ok else ('last',)
        if f[0] == 'slice':
            s, t = seqval(after), st[f[1]]
            if s is None or isinstance(t, (Poison, Unbound)):
                return ('last',)
            end = E.place.at(t)
            ok = len(s.parts) == 1 and isinstance(s.parts[0], seq.Slice) \
                and s.parts[0].stream is f[3] and E.must(z3.And(
                    s.parts[0].a == f[2], s.parts[0].end() == end)) or \
                not s.parts and E.must(end == f[2])
            return None if ok else ('last',)
        if f[0] == 'slinear':
            if type(after) is type(v0):
                want = struct_num(v0)[0] + f[1]*(k + 1)
                if E.must(struct_num(after)[0] == want):
                    return None
            return ('last',)
        if f[0] == 'anybool':
            return None if isinstance(after, (bool, core.SBool)) else \
                ('last',)
        if f[0] == 'const':
            if same(at, after):
                return None
            if isinstance(after, (Poison, Unbound)):
                return ('last',)
            if isinstance(at, SNum) and is_num(after):
                if E.must(z3.simplify(arith(at) == arith(after))):
                    return None
            return ('last',)
        if isinstance(after, (Poison, Unbound)):
            return None if f[0] == 'last' else ('last',)
        if f[0] == 'linear':
            if is_num(after):
                want = arith(v0) + f[1]*(k + 1)
                a, b = core.same_sort(arith(after), want)
                if E.must(a == b, True):
                    return None
                return ('rec', seq.next_id())
            return ('last',)
        if f[0] == 'rec':
            ok = is_num(after) if is_num(v0) else is_str(after)
            return None if ok else ('last',)
        if f[0] == 'acc':
            if seqval(after) is not None and \
                    parts_tail(seqval(at), seqval(after)) is not None:
                return None
            return ('last',)
        return None

    def final(self, f, v0, n, k, res, at):
        if f[0] in ('const', 'linear', 'slinear', 'anybool', 'free'):
            return self.closed(f, v0, n, None)
        if f[0] == 'acc':
            s0, at = seqval(v0), seqval(at)
            tails = [(c, parts_tail(at, seqval(a))) for c, a in res]
            return Seq(s0.kind, s0.parts + self.accumulate(tails, n, k))
        try:
            v = None
            for c, a in res:
                if isinstance(a, (Poison, Unbound)):
                    raise Unsupported('')
                v = a if v is None else ite(c, a, v)
            return subst(v, [(k, z3.simplify(n - 1))])
        except (Unsupported, z3.Z3Exception):
            return Poison('a variable overwritten in a loop')

    def accumulate(self, tails, n, k):
        vals = []
        full = [(c, t) for c, t in tails if t]
        if len(full) == 1 and len(tails) > 1 and all(
                isinstance(p, (Map, Filt, seq.Cat)) for p in full[0][1]):
            # nothing is appended in the other cases: lengths 0 there
            c, t = full[0]
            t = tuple((Map if isinstance(p, Map) else type(p))(*((z3.If(c, p.n, 0),) + (
                (p.p, p.v) if isinstance(p, Filt) else (p.f,))))
                for p in t)
            return (seq.Cat(n, lambda i: seq.Seq('list', t).subst(
                [(k, i)])),)
        t = self.merged(tails) if len(tails) > 1 else None
        if t is not None:
            return (seq.Cat(n, lambda i: seq.Seq('list', t).subst(
                [(k, i)])),)
        for c, t in tails:
            x = []
            for p in t:
                if isinstance(p, (Filt, seq.Cat)):
                    if len(tails) == 1:
                        return (seq.Cat(n, lambda i: seq.Seq(
                            'list', t).subst([(k, i)])),)
                    raise Unsupported('nested conditional extension')
                if not isinstance(p, tuple):
                    m = z3.simplify(p.length())
                    if not z3.is_int_value(m):
                        if len(tails) == 1 and len(t) == 1 and isinstance(
                                p, Map) and not any(
                                    y.eq(k) for y in consts(m)):
                            return self.flat(p, m, n, k)
                        if len(tails) == 1:
                            return (seq.Cat(n, lambda i: seq.Seq(
                                'list', t).subst([(k, i)])),)
                        raise Unsupported('extension by a symbolic number '
                                          'of values in a loop')
                    p = tuple(p.at(z3.IntVal(j))
                              for j in range(m.as_long()))
                x += list(p)
            vals.append((c, tuple(x)))
        lens = {len(x) for _, x in vals}
        if len(lens) == 1:
            m = lens.pop()
            if m == 0:
                return ()
            v = None
            for c, x in vals:
                v = x if v is None else ite(c, x, v)
            if m == 1:
                return (Map(n, lambda i: subst(v[0], [(k, i)])),)

            def get(i):
                q = z3.simplify(i/m)
                r = z3.simplify(i % m)
                y = subst(v, [(k, q)])
                z = y[-1]
                for j in range(m - 2, -1, -1):
                    z = ite(z3.simplify(r == j), y[j], z)
                return z
            return (Map(n*m, get),)
        if lens == {0, 1}:
            p = z3.Or(*[c for c, x in vals if x])
            v = None
            for c, x in vals:
                if x:
                    v = x[0] if v is None else ite(c, x[0], v)
            return (Filt(n, lambda i: z3.substitute(p, (k, i)),
                         lambda i: subst(v, [(k, i)])),)
        raise Unsupported('varying numbers of values appended in a loop')

    def merged(self, tails):
        """one tail for tails of the same structure, parts of symbolic
        length included"""
        size = max(len(t) for _, t in tails)
        if not any(type(p) is Map for _, t in tails for p in t):
            return None
        tails = sorted(tails, key=lambda x: -len(x[1]))
        out = list(tails[0][1])
        for c, t in tails[1:]:
            t = list(t)
            if len(t) < size:       # parts of symbolic length may be empty
                w, t = t, []
                for q in out:
                    if w and type(w[0]) is type(q):
                        t.append(w.pop(0))
                    elif type(q) is Map:
                        t.append(Map(z3.IntVal(0), q.f))
                    else:
                        return None
                if w:
                    return None
            for j, p in enumerate(t):
                q = out[j]
                if type(p) is not type(q):
                    return None
                if isinstance(p, tuple):
                    if len(p) != len(q):
                        return None
                    out[j] = tuple(ite(c, x, y) for x, y in zip(p, q))
                elif type(p) is Map:
                    n = p.n if p.n.eq(q.n) else z3.simplify(z3.If(c, p.n,
                                                                  q.n))
                    out[j] = q if p.f is q.f and n is q.n else Map(
                        n, q.f if p.f is q.f else
                        lambda i, c=c, p=p, q=q: ite(c, p.f(i), q.f(i)))
                else:
                    return None
        return tuple(out)

    def flat(self, p, m, n, k):
        if any(x.eq(k) for x in consts(m)):
            raise Unsupported('extension by a varying number of values')

        return (seq.Grid(n, m, lambda i, j: subst(p.at(j), [(k, i)])),)


def consts(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


class While(For):
    """while loop: cut by the invariant the contract supplies (policy), or by
    inferred closed forms as for `for` loops when its test is symbolic;
    otherwise its rounds are run one by one"""
    LIMIT = 40

    def __init__(self, getters, names, where='', test=None, forever=False):
        For.__init__(self, None, getters, names)
        self.forever = forever
        self.where, self.testf = where, test
        self.count = 0
        E = core.ENG
        self.policy = E.while_policy(self) if E is not None and \
            E.while_policy else None
        self.cur = None
        self.gen = None
        self.heap = []

    def read(self):
        if self.policy is not None:
            out = []
            for g in self.getters:
                try:
                    out.append(g())
                except NameError:
                    out.append(UNBOUND)
            return out
        return For.read(self)

    def head(self):
        self.count += 1
        E = core.ENG
        if self.policy is not None:
            r = self.policy.head(self)
            if r is None:
                return False
            self.cur = tuple(Poison(nm + ', carried between rounds')
                             if v is UNBOUND else v
                             for nm, v in zip(self.names, r))
            return True
        if E is None:
            return False
        if self.gen is None:
            if self.count > 1:
                if self.count > self.LIMIT and E.stack[0].depth:
                    raise Unsupported('loop without an invariant')
                return False
            self.heap = list(E.heap)
            if not self.symbolic_test():
                return False
            self.gen = self.rounds()
        try:
            next(self.gen)
        except StopIteration:
            self.mode = 'done'
            return True
        return True

    def symbolic_test(self):
        """the test depends on symbolic values (evaluated and undone)"""
        E = core.ENG
        self.sym = True
        st = self.read()
        if self.forever:
            return True
        if E.tie is not None and any(E.tie.role(v) is not None
                                     for v in st[:len(self.getters)]):
            return True
        E.enter()
        E.nested_start()
        obs = len(E.obs)
        try:
            bool(self.testf())
            d = E.stack[-1].depth > 0
        except core.Infeasible:
            d = True
        except Exception:
            d = False
        E.pop_level()
        E.leave()
        del E.obs[obs:]
        for h, v in zip(self.heap, st[len(self.getters):]):
            h.set_state(v)
        self.sym = d
        return d

    def cond(self):
        """the test of this round; -> run the body"""
        if self.gen is None:
            return bool(self.testf())
        if self.mode == 'done':
            return False
        if self.mode == 'before' and self.forever:
            return True
        if self.mode == 'before':       # the test held one round earlier
            # (strong induction: what it needs was proved there)
            E = core.ENG
            E.assuming += 1
            try:
                self.held = bool(self.testf())
            except (core.Infeasible, PathEnd):
                self.held = False
            finally:
                E.assuming -= 1
            return False
        c = bool(self.testf())
        if self.mode == 'explore':
            self.skip = not c
            return c
        if self.mode == 'exit':
            if not c:
                raise PathEnd()
            return True
        if c:                           # mode 'last'
            raise core.Infeasible()
        return False

    def stop(self):
        """after a test that fails: leave the loop?"""
        if self.gen is None or self.mode in ('last', 'done'):
            self.sym = False
            return True
        return False

    def brk(self):
        if self.gen is None or self.mode in ('exit', 'done'):
            self.sym = False
            return True
        self.exited = True
        return False

    def before(self, form, st0, k):
        """states of round k: the test held in round k-1"""
        self.held = True
        if core.ENG.decide(k > 0):
            self.apply(self.close_all(form, st0, z3.simplify(k - 1)))
            self.mode = 'before'
            if not self.forever:
                yield
                return
            E = core.ENG        # .. and it was not left in that round
            E.assuming += 1
            self.exited = False
            self.mark()
            yield
            E.assuming -= 1
            self.exploring = False
            self.held = not self.dead and not self.exited

    def explore(self, k, form, st0, state, hyps, check):
        E = core.ENG
        self.results = []
        E.enter()
        hl = len(E.heap)
        while True:
            E.nested_start()
            for h in hyps:
                E.assume(h)
            base = len(E.pc)
            del E.heap[hl:]
            self.held = True
            if form is not None:
                yield from self.before(form, st0, k)
            if self.held:
                self.apply(state)
                self.exited = self.skip = False
                self.mode = 'explore'
                self.mark()
                yield
                self.exploring = False
                if self.dead:
                    if not E.nested_next():
                        break
                    continue
                r = (z3.And(*E.pc[base:]) if len(E.pc) > base
                     else z3.BoolVal(True), self.read(), self.exited)
                if not self.skip:
                    self.results.append(r)
                    if check:
                        check(r)
            if not E.nested_next():
                break
        E.leave()
        del E.heap[hl:]

    def rounds(self):
        E = core.ENG
        self.n0, self.pred = E.n, None
        st0 = self.read()
        self.skip = False
        yield from self.explore(z3.IntVal(0), None, st0, st0, [], None)
        form = self.forms(st0)
        k = None
        for attempt in range(12):
            k = E.fresh(z3.IntSort(), 'k')
            at_k = self.close_all(form, st0, k)
            bad = {}
            obs0 = len(E.obs)

            def check(r):
                if r[2]:
                    return
                for j, f in enumerate(form):
                    w = self.inductive(f, st0[j], at_k[j], r[1][j], k, r[1])
                    if w:
                        bad[j] = w
            yield from self.explore(k, form, st0, at_k, [k >= 0], check)
            if not bad:
                break
            del E.obs[obs0:]
            for j, w in bad.items():
                form[j] = w
        else:
            raise Unsupported('no inductive form for a loop')
        for f in form:
            if f[0] in ('acc', 'rec'):
                raise Unsupported('value accumulated in a while loop')
        res = self.results
        if any(r[2] for r in res) and not E.decide(E.fresh(z3.BoolSort(),
                                                           'through')):
            k2 = E.fresh(z3.IntSort(), 'k')
            E.assume(k2 >= 0)
            yield from self.before(form, st0, k2)
            if not self.held:
                raise core.Infeasible()
            self.apply(self.close_all(form, st0, k2))
            self.mode = 'exit'
            yield
            raise PathEnd()
        n = E.fresh(z3.IntSort(), 'rounds')
        E.assume(n >= 0)
        if E.decide(n > 0):
            yield from self.before(form, st0, n)
            if not self.held:
                raise core.Infeasible()
            go = [r for r in res if not r[2]]
            self.apply(self.finals(form, st0, n, k, go, at_k, {}))
        else:
            self.apply(st0)
        self.mode = 'last'
        yield           # the test fails here
        raise core.Infeasible()

    def forms(self, st0):
        form = [self.guess(v, [r[1][j] for r in self.results if not r[2]],
                           st0, j) for j, v in enumerate(st0)]
        tie = core.ENG.tie
        if tie is None:
            return form
        n = len(self.getters)
        for j, h in enumerate(self.heap):
            if isinstance(h, core.AttrCell) and h.obj is tie.obj and \
                    h.name == tie.cell:
                # values determined by the place of reading
                c = n + j
                if form[c][0] != 'const':
                    form[c] = ('free',)
                for i, v in enumerate(st0):
                    vs = [(v, st0)] + [(r[1][i], r[1]) for r in self.results
                                       if not r[2]]
                    if i != c and form[i][0] != 'const' and all(
                            tie.role(x) is not None and
                            tie.role(x) == tie.role(v) or x is None
                            for x, _ in vs) and tie.role(v) is not None:
                        form[i] = ('tied', c, tie, tie.role(v))
        return form


def comp(kind, it, elt, cond=None):
    """comprehension"""
    L = For(it)
    out = SList()
    for v in L:
        if cond is None or cond(v):
            out.append(elt(v))
    if kind == 'set':
        return seq.SSet(out)
    if kind == 'dict':
        from . import vec
        d = vec.dict_of(out)
        return seq.SDict(out) if d is None else d
    return out


def vec_row():
    from . import vec
    return vec.Row
