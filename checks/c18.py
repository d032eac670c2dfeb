"""C18 - principal, von Mises and signed extreme values"""
import itertools
import numpy as np
from vlib.conv import fs
from vlib.strucapi import guarded

SHAPES = [(), (1,), (4,), (0,), (2, 3), (3, 1, 2), (2, 2, 2, 2)]


def deductive(ctx):
    from pyvc import calc
    return calc.tasks(), calc.TRUSTED


def arr(rng, shape, n, k):
    a = rng.normal(size=shape + (n,))
    kind = k % 6
    if kind == 1:
        a = np.round(a*3)                    # ties and exact zeros
    elif kind == 2:
        a[..., 2:] = 0.
    elif kind == 3:
        a[..., :2] = 0.
    elif kind == 4:
        a = a*1e6 + 0.
    elif kind == 5:
        a[..., 1] = a[..., 0]
    return a


def close(got, want, scale):
    return np.shape(got) == np.shape(want) and np.allclose(
        got, want, rtol=1e-9, atol=1e-7*(scale + 1e-30))


def check2d(a):
    b = a.copy()
    scale = np.abs(a).max() if a.size else 1.
    p = fs.calc.principal2d(a)
    if not np.array_equal(a, b):
        return 'principal2d modified its argument'
    T = np.stack([a[..., 0], a[..., 2], a[..., 2], a[..., 1]], -1).reshape(
        a.shape[:-1] + (2, 2))
    w = np.linalg.eigvalsh(T)[..., ::-1]
    if not close(p, w, scale):
        return 'principal2d gives %s, expected %s' % (p, w)
    v = fs.calc.vonmises2d(a)
    if not np.array_equal(a, b):
        return 'vonmises2d modified its argument'
    z = np.zeros_like(a[..., 0])
    T = np.stack([a[..., 0], a[..., 2], z, a[..., 2], a[..., 1], z, z, z, z],
                 -1).reshape(a.shape[:-1] + (3, 3))
    dev = T - np.trace(T, axis1=-2, axis2=-1)[..., None, None]/3*np.eye(3)
    w = np.sqrt(1.5*np.sum(dev*dev, axis=(-2, -1)))
    if not close(v, w, scale):
        return 'vonmises2d gives %s, expected %s' % (v, w)


def check3d(a):
    b = a.copy()
    scale = np.abs(a).max() if a.size else 1.
    p = fs.calc.principal_thickshell(a)
    if not np.array_equal(a, b):
        return 'principal_thickshell modified its argument'
    z = np.zeros_like(a[..., 0])
    T = np.stack([a[..., 0], a[..., 2], a[..., 3], a[..., 2], a[..., 1],
                  a[..., 4], a[..., 3], a[..., 4], z], -1).reshape(
                      a.shape[:-1] + (3, 3))
    e = np.linalg.eigvalsh(T)
    if np.shape(p) != a.shape[:-1] + (2,):
        return 'shape %s' % (np.shape(p),)
    flat = e.reshape(-1, 3)
    pf = np.asarray(p).reshape(-1, 2)
    for i in range(len(flat)):
        ok = False
        m = np.abs(flat[i])
        for j in range(3):      # ties: any of the closest to zero
            if m[j] <= m.min() + 1e-6*scale:
                r = np.delete(flat[i], j)
                if np.allclose(pf[i], [r.max(), r.min()], rtol=1e-7,
                               atol=1e-6*(scale + 1e-30)):
                    ok = True
        if not ok:
            return 'principal_thickshell gives %s for eigenvalues %s' % (
                pf[i], flat[i])


def check_abs(a, axis):
    b = a.copy()
    g = np.asarray(fs.calc.absmax(a, axis))
    if not np.array_equal(a, b):
        return 'absmax modified its argument'
    m = np.abs(a).max(axis)
    if np.shape(g) != np.shape(m):
        return 'shape %s, expected %s' % (np.shape(g), np.shape(m))
    if not np.array_equal(np.abs(g), m):
        return 'magnitudes %s, expected %s' % (np.abs(g), m)
    # the value itself occurs along the axis
    gg = g if axis is None else np.expand_dims(g, axis)
    if not np.all(np.any(a == gg, axis=axis)):
        return 'values %s do not occur in %s' % (g, a.tolist())


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 18)
    for k in range(ctx.budget(300, 6000)):
        shape = SHAPES[k % len(SHAPES)]
        dt = [np.float64, np.float64, np.float32][k % 3]
        for n, f in ((3, check2d), (4, check2d), (5, check3d), (6, check3d)):
            a = arr(rng, shape, n, k//7)
            if f is check3d:
                a = a + 0.
            if dt is np.float32:
                a = a.astype('f4').astype('f8')
            if rng.random() < .3 and a.ndim > 1:
                a = np.asfortranarray(a)
            a.flags.writeable = True
            ctx.count('stress arrays')
            ctx.case(a.tobytes())
            guarded(ctx, 'array %s' % (a.shape,), a.tolist(), lambda: f(a))
        s = (2, 3, 4)[:rng.integers(1, 4)]
        a = arr(rng, s[:-1], s[-1], k)
        for axis in [None] + list(range(-len(s), len(s))):
            ctx.count('absmax')
            guarded(ctx, 'absmax axis=%s' % axis, a.tolist(),
                    lambda: check_abs(a, axis))
