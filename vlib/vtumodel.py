"""Random input of the VTU writer."""
import numpy as np

NN = {15: 2, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
TYPES = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64',
         'uint64', 'float32', 'float64']
NAMES = ['disp', 'a b', '<x>', 'a&b', '"q"', "it's", 'é', '&amp;',
         'a"b\'c', 'x>y', 'tab\there', '', '1', '日本', ']]>', '<!--', ' Lead', 'Trail ',
         'UPPER', 'n'*300, 'a  b']


def values(rng, dt, *shape):
    if dt.startswith('f'):
        a = rng.normal(size=shape)*10.**rng.integers(-5, 6)
        return a.astype(dt)
    ii = np.iinfo(dt)
    return rng.integers(ii.min, ii.max, shape, dtype=dt, endpoint=True)


def layout(rng, a):
    """other byte orders, memory orders and strides"""
    k = rng.integers(0, 6)
    if k == 1 and a.ndim == 2:
        return np.asfortranarray(a)
    if k == 2:
        return a.astype(a.dtype.newbyteorder('>'))
    if k == 3:
        return np.repeat(a, 2, axis=0)[::2]
    if k == 4:
        return a[::-1].copy()[::-1]
    return a


def cells(rng):
    nc = int(rng.integers(1, 7))
    typ = rng.choice(list(NN), nc).astype('i4')
    n = [NN[int(t)] for t in typ]
    npt = int(rng.integers(9, 20))
    con = np.concatenate([rng.choice(npt, k, replace=False) for k in n])
    off = np.cumsum(n)
    dt = lambda: str(rng.choice(['int32', 'int64']))
    pts = values(rng, str(rng.choice(['float32', 'float64'])), npt, 3)
    return pts, (con.astype(dt()), off.astype(dt()), typ.astype(dt()))
