"""Mechanical instrumentation of the real source.

Changes made to the program text (nothing else):
 * `for`/`while` loops report to loops.For / loops.While at the head and the
   end of each round; break/return/raise inside a `for` report leaving;
 * comprehensions and generator expressions over one iterable become calls of
   loops.comp (evaluated at once, in order);
 * list and dict displays build SList / SDict;
 * loop bodies are guarded against the engine's own end-of-path signals;
 * `raise E` marks E as raised by the program;
 * in mode 'real' float literals become exact rationals.
Builtins that need it (len, int, range, isinstance, ...) are replaced by
versions that also accept symbolic values.
"""
import ast
import copy
import os
import sys
import types
import builtins
from . import core, seq, loops
from .core import Unsupported

REPO = os.environ.get('FREESIF_REPO', '/repo')


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []
        self.skip = set()

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        for b in n.body:
            self.visit(b)


def assigned(nodes):
    v = Assigned()
    for n in nodes:
        v.visit(n)
    return [n for n in v.names if not n.startswith('__loop')]


def clone(e):
    e = copy.deepcopy(e)
    for x in ast.walk(e):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return e


def simple(e):
    """names and attributes only: may be evaluated twice"""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class Tr(ast.NodeTransformer):
    def __init__(self, real=False):
        self.n = 0
        self.loopstack = [[]]
        self.real = real
        self.cls = 0
        self.depth = 0

    def name(self, base='__loop'):
        self.n += 1
        return '%s%d' % (base, self.n)

    def visit_FunctionDef(self, n):
        self.loopstack.append([])
        c, self.cls = self.cls, 0
        self.depth += 1
        n = self.generic_visit(n)
        self.depth -= 1
        self.loopstack.pop()
        self.cls = c
        return n

    def visit_Lambda(self, n):
        self.loopstack.append([])
        n = self.generic_visit(n)
        self.loopstack.pop()
        return n

    def visit_ClassDef(self, n):
        self.loopstack.append([])
        self.cls += 1
        n = self.generic_visit(n)
        self.cls -= 1
        self.loopstack.pop()
        return n

    def getters(self, names):
        g = ast.Tuple([ast.Lambda(
            ast.arguments([], [], None, [], [], None, []),
            ast.Name(x, ast.Load())) for x in names], ast.Load())
        nm = ast.Tuple([ast.Constant(x) for x in names], ast.Load())
        return g, nm

    def setter(self, L, names):
        return ast.Assign(
            [ast.Tuple([ast.Name(x, ast.Store()) for x in names],
                       ast.Store())],
            ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'locals',
                                   ast.Load()), [], []))

    def visit_For(self, n):
        L = self.name()
        names = assigned(n.body)
        tnames = assigned([n.target])
        after = names + [x for x in tnames if x not in names]
        it = self.visit(n.iter)
        self.loopstack[-1].append(('for', L))
        body = []
        for b in n.body:
            r = self.visit(b)
            body += r if isinstance(r, list) else [r]
        self.loopstack[-1].pop()
        orelse = []
        for b in n.orelse:
            r = self.visit(b)
            orelse += r if isinstance(r, list) else [r]
        if self.cls and len(self.loopstack[-1]) == 0 and False:
            return n
        g, nm = self.getters(names)
        create = ast.Assign([ast.Name(L, ast.Store())], ast.Call(
            ast.Attribute(ast.Name('__vc__', ast.Load()), 'For', ast.Load()),
            [it, g, nm], []))
        sym = lambda: ast.Attribute(ast.Name(L, ast.Load()), 'sym',
                                    ast.Load())
        head = [ast.If(sym(), [self.setter(L, names)], [])] if names else []
        loop = ast.For(n.target, ast.Name(L, ast.Load()),
                       head + [self.guard(L, body)], orelse, None)
        tail = [ast.If(sym(), [self.setter(L, names)], [])] if names else []
        tail.append(ast.If(
            ast.Attribute(ast.Name(L, ast.Load()), 'ran', ast.Load()),
            [ast.Assign([copy.deepcopy(n.target)],
                        ast.Call(ast.Attribute(ast.Name(L, ast.Load()),
                                               'last_element', ast.Load()),
                                 [], []))], []))
        return [create, loop] + tail

    def visit_While(self, n):
        if n.orelse:
            self.loopstack[-1].append(('plain', None))
            n = self.generic_visit(n)
            self.loopstack[-1].pop()
            return n
        L = self.name()
        names = assigned(n.body)
        g, nm = self.getters(names)
        test = self.visit(n.test)
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            self.loopstack[-1].append(('plain', None))
            n = self.generic_visit(n)
            self.loopstack[-1].pop()
            return n
        self.loopstack[-1].append(('while', L))
        body = []
        for b in n.body:
            r = self.visit(b)
            body += r if isinstance(r, list) else [r]
        self.loopstack[-1].pop()
        create = ast.Assign([ast.Name(L, ast.Store())], ast.Call(
            ast.Attribute(ast.Name('__vc__', ast.Load()), 'While',
                          ast.Load()), [g, nm, ast.Constant(n.lineno),
                                        ast.Lambda(ast.arguments(
                                            [], [], None, [], [], None, []),
                                            test),
                          ast.Constant(isinstance(n.test, ast.Constant) and
                                       bool(n.test.value))], []))
        call = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'head',
                                      ast.Load()), [], [])
        head = ast.If(call, [self.setter(L, names)] if names
                      else [ast.Pass()], [])
        def meth(m):
            return ast.Call(ast.Attribute(ast.Name(L, ast.Load()), m,
                                          ast.Load()), [], [])
        stop = ast.If(ast.UnaryOp(ast.Not(), meth('cond')),
                      [ast.If(meth('stop'), [ast.Break()], []),
                       ast.Continue()], [])
        return [create, ast.While(ast.Constant(True),
                                  [head, self.guard(L, [stop] + body)],
                                  [])]

    def guard(self, L, body):
        """a path that ends in the body ends this round only"""
        def attr(a, b):
            return ast.Attribute(ast.Name(a, ast.Load()), b, ast.Load())
        return ast.Try(body, [ast.ExceptHandler(
            attr('__vc__', 'Prune'), None, [ast.If(
                ast.Call(attr(L, 'pruned'), [], []), [ast.Raise()], [])])],
            [], [])

    def leave(self, stmt):
        ls = self.loopstack[-1]
        fors = [L for k, L in ls]
        if isinstance(stmt, ast.Break):
            if not ls:
                return stmt
            if ls[-1][0] == 'plain':
                return stmt
            fors = fors[-1:]
        fors = [L for L in fors if L is not None]
        if not fors:
            return stmt
        if len(ls) > 1 and not isinstance(stmt, ast.Break):
            # leaving several loops at once
            # (breaks concern the innermost loop only)
            calls = [ast.Expr(ast.Call(ast.Attribute(ast.Name(
                '__vc__', ast.Load()), 'leave_loop', ast.Load()),
                [ast.Name(L, ast.Load())], [])) for L in fors]
            return calls + [stmt]
        test = ast.Call(ast.Attribute(ast.Name(fors[-1], ast.Load()), 'brk',
                                      ast.Load()), [], [])
        return [ast.If(test, [stmt], []), ast.Continue()]

    def visit_Break(self, n):
        return self.leave(n)

    def visit_Return(self, n):
        return self.leave(self.generic_visit(n))

    def visit_Raise(self, n):
        n = self.generic_visit(n)
        if n.exc is not None:
            n.exc = ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                           'exc', ast.Load()), [n.exc], [])
        return self.leave(n)

    def comp(self, kind, n, elt):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await))
               for x in ast.walk(n)):
            return self.generic_visit(n)
        g = n.generators[0]
        it = self.visit(g.iter)
        elt = self.visit(elt)
        conds = [self.visit(c) for c in g.ifs]

        def lam(body):
            if isinstance(g.target, ast.Name):
                a = ast.arguments([], [ast.arg(g.target.id)], None, [], [],
                                  None, [])
                return ast.Lambda(a, body)
            names = []
            ok = isinstance(g.target, (ast.Tuple, ast.List)) and all(
                isinstance(e, ast.Name) for e in g.target.elts)
            if not ok:
                return None
            names = [ast.arg(e.id) for e in g.target.elts]
            inner = ast.Lambda(ast.arguments([], names, None, [], [], None,
                                             []), body)
            t = ast.arg('__t')
            return ast.Lambda(
                ast.arguments([], [t], None, [], [], None, []),
                ast.Call(inner, [ast.Starred(ast.Name('__t', ast.Load()),
                                             ast.Load())], []))
        f = lam(elt)
        if f is None:
            return n
        args = [ast.Constant(kind), it, f]
        if conds:
            c = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
            args.append(lam(c))
        return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'comp',
                                      ast.Load()), args, [])

    def visit_ListComp(self, n):
        return self.comp('list', n, n.elt)

    def visit_GeneratorExp(self, n):
        return self.comp('gen', n, n.elt)

    def visit_SetComp(self, n):
        return self.comp('set', n, n.elt)

    def visit_DictComp(self, n):
        return self.comp('dict', n, ast.Tuple([n.key, n.value], ast.Load()))

    def visit_List(self, n):
        n = self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                      'mklist', ast.Load()), [n], [])

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        items = ast.Tuple([ast.Tuple([k, v], ast.Load())
                           for k, v in zip(n.keys, n.values)], ast.Load())
        return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                      'mkdict', ast.Load()), [items], [])

    def visit_Set(self, n):
        n = self.generic_visit(n)
        return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                      'mkset', ast.Load()),
                        [ast.Tuple(n.elts, ast.Load())], [])

    def visit_Constant(self, n):
        if self.real and isinstance(n.value, float):
            return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                          'flt', ast.Load()),
                            [ast.Constant(repr(n.value))], [])
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and \
                len(n.args) == 1 and not n.keywords and \
                not isinstance(n.args[0], ast.Starred):
            return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                          'join', ast.Load()),
                            [f.value, n.args[0]], [])
        if isinstance(f, ast.Attribute) and f.attr == 'format':
            return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                          'format', ast.Load()),
                            [f.value] + n.args, n.keywords)
        return n

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                          'mod', ast.Load()),
                            [n.left, n.right], [])
        return n

    # stores are announced first, so that a store the loop rules do not
    # follow is refused
    def stores(self, targets):
        out = []
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and \
                        isinstance(x.ctx, (ast.Store, ast.Del)):
                    a = [clone(x.value)]
                    if isinstance(x, ast.Attribute):
                        a.append(ast.Constant(x.attr))
                    if not simple(x.value):
                        a[0] = ast.Constant(None)
                    out.append(ast.Expr(ast.Call(ast.Attribute(
                        ast.Name('__vc__', ast.Load()), 'store',
                        ast.Load()), a, [])))
        return out

    def visit_Assign(self, n):
        n = self.generic_visit(n)
        return self.stores(n.targets) + [n] if self.infunc() else n

    def visit_Delete(self, n):
        n = self.generic_visit(n)
        return self.stores(n.targets) + [n] if self.infunc() else n

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if not self.infunc():
            return n
        pre = self.stores([n.target])
        if isinstance(n.target, ast.Name):
            pre.append(ast.Expr(ast.Call(ast.Attribute(ast.Name(
                '__vc__', ast.Load()), 'aug', ast.Load()),
                [ast.Name(n.target.id, ast.Load())], [])))
        return pre + [n]

    def infunc(self):
        return self.depth > 0

    def visit_JoinedStr(self, n):
        n = self.generic_visit(n)
        fs = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                # a nested specification stays an ordinary f-string
                fs.append(ast.Tuple([v.value, ast.Constant(v.conversion),
                                     v.format_spec or ast.Constant('')],
                                    ast.Load()))
            else:
                fs.append(v)
        return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()),
                                      'joined', ast.Load()), fs, [])


class VC(object):
    """what the instrumented text calls"""
    For, While = loops.For, loops.While
    Prune = (core.PathEnd, core.Infeasible)
    comp = staticmethod(loops.comp)

    @staticmethod
    def store(obj, attr=None):
        """an item or attribute is about to be assigned"""
        E = core.ENG
        if E is None or len(E.stack) < 2:
            return
        if getattr(obj, 'born', None) is E.stack[-1]:
            return          # made in this iteration
        if attr is None:
            if any(h is obj for h in E.heap):
                return
        elif any(isinstance(h, core.AttrCell) and h.obj is obj and
                 h.name == attr for h in E.heap):
            return
        raise Unsupported('assignment to %s of %s in a symbolic loop' % (
            attr or 'an item', type(obj).__name__))

    @staticmethod
    def aug(v):
        E = core.ENG
        if E is not None and len(E.stack) > 1 and \
                isinstance(v, (list, dict, set, bytearray)) or \
                type(v).__name__ == 'ndarray' and E is not None and \
                len(E.stack) > 1:
            raise Unsupported('in-place operation in a symbolic loop')

    @staticmethod
    def join(sep, it):
        if core.ENG is not None and isinstance(sep, (str, bytes)):
            from . import strs
            return strs.join(sep, it)
        return sep.join(it)

    @staticmethod
    def leave_loop(L):
        if L.sym:
            raise Unsupported('leaving several loops at once')

    @staticmethod
    def exc(e):
        if isinstance(e, type):
            e = e()
        try:
            e.semantic = True
        except Exception:
            pass
        return e

    # -- formatting: pieces are put together when a text is symbolic
    @staticmethod
    def symbolic(a):
        from . import strs
        return isinstance(a, strs.SStr)

    @staticmethod
    def piece(a):
        from . import shims
        return shims.str_(a)

    @classmethod
    def put(cls, parts):
        out = None
        for p in parts:
            if isinstance(p, tuple):
                a, conv, spec = p
                if conv not in (-1, 115, None, 's') or spec not in (
                        '', 's', 'd'):
                    raise core.Unsupported('format of a symbolic text')
                p = cls.piece(a)
            if isinstance(p, str) and p == '':
                continue
            out = p if out is None else out + p
        return '' if out is None else out

    @classmethod
    def joined(cls, *parts):
        if not any(isinstance(p, tuple) and cls.symbolic(p[0])
                   for p in parts):
            conv = {-1: lambda x: x, 115: lambda x: cls.native(str, x),
                    114: lambda x: cls.native(repr, x),
                    97: lambda x: ascii(x)}
            return ''.join(p if isinstance(p, str) else format(
                conv[p[1]](p[0]), p[2]) for p in parts)
        return cls.put(parts)

    @staticmethod
    def native(f, x):
        return f(x)

    @classmethod
    def format(cls, fmt, *a, **k):
        if not isinstance(fmt, str) or not any(
                cls.symbolic(x) for x in list(a) + list(k.values())):
            return fmt.format(*a, **k)
        import string
        parts, n = [], 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            parts.append(lit)
            if field is None:
                continue
            if field == '':
                field, n = str(n), n + 1
            if field.isdigit():
                if int(field) >= len(a):
                    raise core.sem(IndexError('format'))
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                raise core.Unsupported('format field %r' % field)
            parts.append((v, conv, spec))
        return cls.put(parts)

    @classmethod
    def mod(cls, x, y):
        ys = list(y.values()) if isinstance(y, dict) else \
            y if isinstance(y, tuple) else (y,)
        if not isinstance(x, str) or not any(cls.symbolic(v) for v in ys):
            return x % y
        import re
        if isinstance(y, dict):
            raise core.Unsupported('% of a dict')
        parts, n = [], 0
        for t in re.split('(%.)', x):
            if t in ('%s', '%d', '%i'):
                if n >= len(ys):
                    raise core.sem(TypeError('not enough arguments'))
                parts.append((ys[n], None, ''))
                n += 1
            elif t == '%%':
                parts.append('%')
            elif t.startswith('%'):
                raise core.Unsupported('format of a symbolic text')
            else:
                parts.append(t)
        if n != len(ys):
            raise core.sem(TypeError('not all arguments converted'))
        return cls.put(parts)

    @staticmethod
    def mklist(l):
        return seq.SList(l) if core.ENG is not None else l

    @staticmethod
    def mkdict(items):
        if core.ENG is not None:
            d = seq.SDict()
            for k, v in items:
                d[k] = v
            return d
        return dict(items)

    @staticmethod
    def mkset(items):
        return seq.SSet(items) if core.ENG is not None else set(items)

    @staticmethod
    def flt(s):
        from fractions import Fraction
        return core.SReal(core.z3.RealVal(str(Fraction(float(s)))))


def transform(src, fname, real=False):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, fname)
    tree = Tr(real).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, 'exec')


def load(rel, name=None, real=False, extra=None, builtin_over=None,
         package=None):
    """instrumented module of /repo/<rel>"""
    from . import shims, frame
    path = os.path.join(REPO, rel)
    with open(path) as f:
        src = f.read()
    code = transform(src, path, real)
    base = os.path.basename(rel)
    for p in frame.problems(frame.parsed(src), base):
        raise core.Unsupported('state kept between calls: %s in %s'
                               % (p, base))
    m = types.ModuleType(name or 'vc_' + os.path.basename(rel)[:-3])
    m.__file__ = path
    m.__package__ = package or 'freesif.' + os.path.dirname(rel).split(
        'freesif/')[-1].strip('/').replace('/', '.')
    b = dict(builtins.__dict__)
    b.update(shims.BUILTINS)
    if builtin_over:
        b.update(builtin_over)
    m.__dict__['__builtins__'] = b
    m.__dict__['__vc__'] = VC
    if extra:
        m.__dict__.update(extra)
    before = set(m.__dict__)
    exec(code, m.__dict__)
    frame.guard(m, [k for k in m.__dict__ if k not in before], base)
    return m
