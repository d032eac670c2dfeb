"""Expected contents of a converted file, computed from the record list."""
import numpy as np
from .records import SPECS, Env, Stream


def decode_file(recs, only=None):
    """-> ({name: (rows, [companion lists per record])}, [record names read])

    rows: list of tuples; companions: per record a tuple of sequences"""
    env, data, order = Env(), {}, []
    for r in recs:
        if r.name not in SPECS or r.head[0] < 0:
            continue
        if only and r.name not in only:
            continue
        s = SPECS[r.name]
        if s.kind in ('text', 'td'):
            d = s.decode(r.head, r.lines)
        else:
            d = s.decode(r.head, Stream(r.body), env)
            if d.used > len(r.body) + s.opt:
                raise AssertionError('generator/spec mismatch %r' % r)
        env.update(d.env)
        data.setdefault(r.name, []).append(d)
        if r.name not in order:
            order.append(r.name)
    return data, order


def cast(v, typ):
    if typ.startswith('S'):
        return np.array([x.encode() for x in v], typ) if isinstance(
            v, (tuple, list)) else np.array(v.encode(), typ)
    if typ == 'str':
        return np.array(v.encode(), 'S64')
    a = np.array(v)
    with np.errstate(all='ignore'):
        return a.astype(typ)


def compare_group(group, data, check_order=True):
    """-> list of (kind, message); kind in 'rows', 'links', 'names'"""
    bad = []
    tabs = {n._v_name: n for n in group._f_iter_nodes()}
    leaves = {k for k, n in tabs.items()
              if n._v_attrs.CLASS != 'GROUP'}
    expect = set()
    for name, decs in data.items():
        s = SPECS[name]
        low = name.lower()
        expect.add(low)
        if low not in tabs:
            bad.append(('rows', '%s: table missing' % name))
            continue
        t = tabs[low]
        arr = t.read()
        if len(arr) != len(decs):
            bad.append(('rows', '%s: %d rows stored, %d records on file' %
                        (name, len(arr), len(decs))))
        for i, (c, typ, shape) in enumerate(s.cols):
            if c not in arr.dtype.names:
                bad.append(('rows', '%s.%s: column missing' % (name, c)))
                continue
            for k, d in enumerate(decs[:len(arr)]):
                want = cast(d.row[i], typ)
                got = arr[c][k]
                if np.shape(got) != np.shape(want) or \
                        not np.array_equal(got, want, equal_nan=(
                            typ in ('float32', 'complex64'))):
                    bad.append(('rows', '%s.%s row %d: stored %r, on file %r'
                                % (name, c, k, got, want)))
                    break
        for i, (c, typ, shape) in enumerate(s.comps):
            an = '%s_%s' % (low, c)
            expect.add(an)
            if an not in tabs:
                bad.append(('links', '%s: companion array missing' % an))
                continue
            if c + '_start' not in arr.dtype.names or \
                    c + '_stop' not in arr.dtype.names:
                bad.append(('links', '%s: no link columns' % an))
                continue
            a = tabs[an][:]
            total = 0
            for k, d in enumerate(decs[:len(arr)]):
                st, sp = int(arr[c + '_start'][k]), int(arr[c + '_stop'][k])
                n = len(d.comps[i])
                if sp - st != n or st < 0 or sp > len(a):
                    bad.append(('links', '%s row %d: range %d:%d, %d values '
                                'on file' % (an, k, st, sp, n)))
                    break
                if n:
                    if st != total:
                        bad.append(('links', '%s row %d: range starts at %d, '
                                    'expected %d' % (an, k, st, total)))
                        break
                    want = cast(tuple(d.comps[i]), typ)
                    got = a[st:sp]
                    if want.shape != got.shape or \
                            not np.array_equal(got, want):
                        bad.append(('links', '%s row %d: stored %r, on file '
                                    '%r' % (an, k, got[:9], want[:9])))
                        break
                total += n
            else:
                if total != len(a):
                    bad.append(('links', '%s: %d values stored, %d on file' %
                                (an, len(a), total)))
    extra = leaves - expect
    if extra:
        bad.append(('names', 'unexpected tables: %s' % sorted(extra)))
    return bad


def snapshot(h5file, skip_unneeded=True):
    """contents of an open tables.File as a comparable dict"""
    out = {}
    for node in h5file.walk_nodes('/'):
        p = node._v_pathname
        a = node._v_attrs
        attrs = {k: repr(a[k]) for k in a._v_attrnamesuser}
        if hasattr(node, 'read'):
            arr = node.read()
            out[p] = (str(getattr(arr, 'dtype', type(arr))), np.shape(arr),
                      np.asarray(arr).tobytes(), attrs)
        else:
            out[p] = ('group', attrs)
    return out
