"""Shared generators."""
import datetime as dt
import math
import numpy as np
import pyproj

R = 6371200.0
MISS = -9999.0


def eqc_file(GridFile, nx, ny, **kw):
    """A small GridFile in x/y mode on the GEMPAK sphere."""
    proj = pyproj.Proj({'proj': 'eqc', 'lat_0': 0, 'lat_ts': 0, 'lon_0': 0, 'R': R})
    x = np.linspace(-1.0e6, 1.0e6, nx) if nx > 1 else np.array([1.0e5])
    y = np.linspace(-5.0e5, 9.0e5, ny) if ny > 1 else np.array([2.0e5])
    return GridFile(x, y, proj, use_xy=True, **kw)


def nprng(rng):
    return np.random.default_rng(rng.getrandbits(63))


def grid_values(rng, ny, nx, allow_const=True):
    """(array, tag): a grid with random magnitude, layout, dtype and missing cells.

    Values never straddle the missing value."""
    g = nprng(rng)
    kind = rng.choice(['uniform', 'normal', 'ramp', 'const', 'twolevel', 'tiny', 'huge', 'offset',
                       'pow2', 'neg', 'spike', 'ints', 'below'])
    if kind == 'const' and not allow_const:
        kind = 'uniform'
    n = nx * ny
    if kind == 'uniform':
        a = g.uniform(-1, 1, n) * 10.0 ** rng.uniform(-6, 3)
    elif kind == 'normal':
        a = g.normal(0, 1, n) * 10.0 ** rng.uniform(-3, 2.5)
    elif kind == 'ramp':
        a = np.linspace(0, 10.0 ** rng.uniform(-3, 6), n) + rng.choice([0, 5, -3])
    elif kind == 'const':
        a = np.full(n, rng.choice([0.0, 1.0, -1.5, 273.15, 1e-20, -9998.0, 101325.0, 1e9]))
    elif kind == 'twolevel':
        lo = rng.choice([0.0, 100.0, -7.25])
        a = np.where(g.random(n) < 0.5, lo, lo + 2.0 ** rng.randint(-8, 20))
    elif kind == 'tiny':
        a = g.uniform(0, 1, n) * 10.0 ** rng.uniform(-30, -8)
    elif kind == 'huge':
        a = g.uniform(0, 2.0 ** rng.uniform(20, 30.9), n)
    elif kind == 'offset':
        a = rng.choice([1e5, 5.5e4, 1e7, 300.0, -5000.0]) + g.uniform(0, 1, n) * rng.choice(
            [1, 10, 1000])
    elif kind == 'pow2':
        k = rng.randint(1, 30)
        top = 2.0 ** k - rng.choice([0, 1, 0.5, 0.25, 0.499, 0.51, 1e-3, 1.5, 2])
        a = g.uniform(0, 1, n) * top
        a[rng.randrange(n)] = 0.0
        a[rng.randrange(n)] = top
    elif kind == 'neg':
        a = -np.abs(g.normal(0, 1, n)) * rng.choice([1, 100, 1500])
    elif kind == 'below':  # all of it under the missing value
        a = -10000.0 - np.abs(g.normal(0, 1, n)) * 10.0 ** rng.uniform(-1, 5)
    elif kind == 'spike':
        a = g.normal(0, 1, n)
        a[rng.randrange(n)] = rng.choice([1e4, 1e6, 3e8])
    else:
        a = g.integers(-300, 5000, n).astype(float)
    a = a.reshape(ny, nx)
    dtype = rng.choice(['f8', 'f8', 'f4', 'f4', 'i4', 'i2'] if kind == 'ints'
                       else ['f8', 'f8', 'f4'])
    a = a.astype(dtype)
    miss = rng.choice(['none', 'none', 'some', 'some', 'many', 'one', 'all', 'allbutone'])
    m = np.zeros((ny, nx), bool)
    if miss == 'some':
        m = g.random((ny, nx)) < 0.2
    elif miss == 'many':
        m = g.random((ny, nx)) < 0.85
    elif miss == 'one':
        m[rng.randrange(ny), rng.randrange(nx)] = True
    elif miss == 'all':
        m[...] = True
    elif miss == 'allbutone':
        m[...] = True
        m[rng.randrange(ny), rng.randrange(nx)] = False
    if m.any():
        if a.dtype.kind == 'f' and rng.random() < 0.7:
            a[m] = np.nan
            if rng.random() < 0.3:
                a[m & (g.random((ny, nx)) < 0.5)] = MISS
        else:
            a[m] = -9999
    lay = rng.choice(['C', 'C', 'F', 'view', 'rev'])
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'view':
        b = np.zeros((2 * ny, 2 * nx), a.dtype)
        b[::2, ::2] = a
        a = b[::2, ::2]
    elif lay == 'rev':
        a = np.ascontiguousarray(a[::-1])[::-1]
    return a, (kind, str(a.dtype), miss, lay)


def expected(a):
    """(float64 values, missing mask) of a grid handed to the writer."""
    v = np.array(a, dtype=np.float64)
    m = np.isnan(v) | (v == MISS)
    return v, m


def tolerance(v, m, bits):
    """Largest admissible error per cell for GRIB packing with `bits` bits."""
    ok = v[~m]
    if ok.size == 0:
        return np.zeros_like(v)
    lo, hi = float(ok.min()), float(ok.max())
    r = hi - lo
    step = r / (2.0 ** bits - 2) if bits > 1 else 2 * r
    eps = 2.0 ** -23
    return step * (1 + 1e-9) + eps * (abs(lo) + np.abs(np.where(m, 0, v)) + r) + 2.0 ** -126 * 2 ** bits


def rand_dt(rng, lo=1970, hi=2068):
    y = rng.randint(lo, hi)
    d = dt.datetime(y, 1, 1) + dt.timedelta(minutes=rng.randrange(365 * 1440))
    k = rng.random()
    if k < 0.25:
        d = d.replace(hour=0, minute=0)
    elif k < 0.5:
        d = d.replace(minute=0)
    elif k < 0.6:
        d = d.replace(month=12, day=31, hour=23, minute=59)
    elif k < 0.7:
        d = d.replace(month=1, day=1, hour=0, minute=0)
    return d


LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def name(rng, n, digits=True, extra=''):
    s = rng.choice(LETTERS)
    pool = LETTERS + ('0123456789' if digits else '') + extra
    return s + ''.join(rng.choice(pool) for _ in range(n - 1))
