"""Frame of the code under proof: what is shared between calls.

The contracts are proved for a call on an object in the states its engine
sets up.  Containers that live at module or class level, or are default
values of parameters, refuse to be changed here (the obligation becomes
undecided); global variables, functools caches and attributes of functions
and classes are found in the source.  Attributes that a query adds to its own
object are not watched: the bounded parts look for those with histories of
calls."""
import ast
import types
import warnings
from . import seq
from .core import Unsupported

# module state with a contract of its own: the engines set it up
OWN = {'parsers.py': {
    'readers', 'descriptors', 'atoms', 'tables', 'record_names',
    'record_count', 'elem_data', 'rdpoints_data', 'nsp_data',
    'rdresref_data', 'lenrec_data', 'elem_types', 'rec_size',
    'current_ihref', 'current_seltyp', 'has_hierarch', 'hierarch_table',
    'attoplevel', 'filetypeid', 'current_indsel', 'current_hrec',
    'hierarch_ihsref', 'toplevel_hrec', 'groupname_prefix', 'root_group',
    'tmp_arr_size'}, 'file.py': {'_open_files'}}
CACHES = {'lru_cache', 'cache', 'cached_property', 'singledispatch'}
CHANGE = {
    list: ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
           'reverse', '__setitem__', '__delitem__', '__iadd__', '__imul__'),
    dict: ('__setitem__', '__delitem__', 'setdefault', 'update', 'pop',
           'popitem', 'clear', '__ior__'),
    set: ('add', 'discard', 'remove', 'pop', 'clear', 'update',
          'difference_update', 'intersection_update',
          'symmetric_difference_update', '__ior__', '__iand__', '__isub__',
          '__ixor__'),
    bytearray: ('append', 'extend', 'insert', 'remove', 'pop', 'clear',
                'reverse', '__setitem__', '__delitem__', '__iadd__',
                '__imul__')}


def refuse(*a, **k):
    raise Unsupported('state shared between calls is changed')


GUARD = {t: type(t.__name__, (t,), dict.fromkeys(names, refuse))
         for t, names in CHANGE.items()}
# the containers of instrumented code
for t in (seq.SList, seq.SDict, seq.SSet):
    GUARD[t] = type(t.__name__, (t,), dict.fromkeys(
        [k for ns in CHANGE.values() for k in ns if k in t.__dict__],
        refuse))


def guarded(v):
    g = GUARD.get(type(v))
    if g is None:
        return v
    if isinstance(v, (seq.SList, seq.SDict, seq.SSet)):
        v.__class__ = g
        return v
    return g(v)


def parsed(src):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ast.parse(src)


def problems(tree, base):
    """ways of keeping state that the guards do not see"""
    own = OWN.get(base, set())
    tops = {n.name for n in tree.body
            if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    out = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad = [x for x in n.names if x not in own]
            if bad and isinstance(n, ast.Global):
                out.append('global %s' % bad[0])
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                nm = f.attr if isinstance(f, ast.Attribute) else \
                    getattr(f, 'id', '')
                if nm in CACHES:
                    out.append('decorator %s' % nm)
        elif isinstance(n, ast.Attribute) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            v = n.value
            if isinstance(v, ast.Name) and v.id in tops or \
                    isinstance(v, ast.Attribute) and \
                    v.attr == '__class__' or isinstance(v, ast.Call) and \
                    getattr(v.func, 'id', '') == 'type':
                out.append('attribute %s of a function or class' % n.attr)
        elif isinstance(n, ast.Call) and getattr(
                n.func, 'id', '') == 'globals':
            out.append('globals()')
    return out


def guard(m, names, base):
    """containers of the module that are not part of its own state"""
    own = OWN.get(base, set())
    for k in names:
        v = m.__dict__.get(k)
        if k in own or k.startswith('__') and k.endswith('__'):
            continue
        if type(v) in GUARD:
            m.__dict__[k] = guarded(v)
        elif isinstance(v, types.FunctionType) and \
                v.__globals__ is m.__dict__:
            defaults(v)
        elif isinstance(v, type) and v.__module__ == m.__dict__.get(
                '__name__'):
            for c, w in list(v.__dict__.items()):
                if c.startswith('__') and c.endswith('__') and \
                        not isinstance(w, types.FunctionType):
                    continue
                if type(w) in GUARD:
                    setattr(v, c, guarded(w))
                else:
                    defaults(getattr(w, '__func__', w))


def defaults(f):
    if not isinstance(f, types.FunctionType):
        return
    if f.__defaults__:
        f.__defaults__ = tuple(guarded(x) for x in f.__defaults__)
    if f.__kwdefaults__:
        f.__kwdefaults__ = {k: guarded(x)
                            for k, x in f.__kwdefaults__.items()}
