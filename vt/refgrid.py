"""Independently packed grids: tokens for the file and the values they stand for."""
import numpy as np
from vt import dm

GCOLS = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']


def f32(x):
    return float(np.float32(x))


def codes(rng, n, bits):
    top = 2 ** bits - 1
    kind = rng.choice(['rand', 'rand', 'ext', 'ones', 'zeros', 'alt'])
    if kind == 'rand':
        return [rng.randint(0, top) for _ in range(n)]
    if kind == 'ext':
        return [rng.choice([0, 1, top, top - 1, top >> 1, (top >> 1) + 1]) & top for _ in range(n)]
    if kind == 'ones':
        return [top] * n
    if kind == 'zeros':
        return [0] * n
    return [top if k % 2 else 0 for k in range(n)]


def packed(rng, nx, ny, header=2, packing=None, bits=None, miss=None):
    """(tokens, float64 values with NaN, tolerance, tag)"""
    n = nx * ny
    packing = packing or rng.choice(['none', 'grib', 'grib', 'dec', 'diff', 'diff'])
    head = dm.I(nx, ny) + dm.I(*[rng.choice([0, 7, -1, 2 ** 30]) for _ in range(header - 2)])
    if packing == 'none':
        g = np.random.default_rng(rng.getrandbits(60))
        v = (g.normal(0, 1, n) * 10.0 ** rng.uniform(-20, 8)).astype(np.float32).astype(float)
        m = g.random(n) < rng.choice([0, 0, 0.3, 1])
        w = np.where(m, -9999.0, v)
        return (head + dm.I(0) + dm.F(*w), np.where(m, np.nan, v), np.zeros(n), ('none', bool(m.any())))
    bits = bits or rng.randint(1, 31)
    flag = rng.choice([0, 1, -1]) if miss is None else miss
    ref = f32(rng.choice([0.0, 1.0, -3.5, 273.15, -9998.0, 1e5, rng.uniform(-1e4, 1e4)]))
    scale = f32(rng.choice([1.0, 0.5, 2.0 ** -10, 0.1, 1e-6, 2.0 ** rng.randint(-30, 8)]))
    c = codes(rng, n, bits)
    top = 2 ** bits - 1
    if packing in ('grib', 'dec'):
        tok = head + dm.I(1 if packing == 'grib' else 4, bits, flag, n) + dm.F(ref, scale) + \
            dm.I(*dm.pack_msb(c, bits))
        v = np.array([np.nan if flag and k == top else ref + k * scale for k in c])
        if (np.abs(v + 9999.0) < 0.01).any():
            return packed(rng, nx, ny, header, packing, bits, miss)
        tol = 2.0 ** -22 * (abs(ref) + np.array(c, float) * scale)
        return tok, v, tol, (packing, bits, bool(flag), bool(np.isnan(v).any()))
    dmin = f32(rng.choice([0.0, -1.0, -100.0, 0.25, rng.uniform(-50, 50)]))
    scale = f32(min(scale, 2.0 ** 20 / 2 ** bits))
    tok = head + dm.I(3, bits, flag, n, nx) + dm.F(ref, scale, dmin) + dm.I(*dm.pack_msb(c, bits))
    v = np.full(n, np.nan)
    tol = np.zeros(n)
    prev = start = None
    acc = acc_start = 0.0
    k = 0
    for j in range(ny):
        row_started = False
        for i in range(nx):
            code = c[k]
            if not (flag and code == top):
                step = dmin + code * scale
                if prev is None:
                    v[k] = start = ref
                    acc = acc_start = abs(ref)
                elif not row_started:
                    acc = acc_start = max(acc_start, abs(start)) + abs(start + step) + abs(step)
                    v[k] = start = start + step
                else:
                    acc = acc + abs(prev) + abs(step)
                    v[k] = prev + step
                row_started = True
                prev = v[k]
                tol[k] = acc * 2.0 ** -21
            k += 1
    # accumulated single-precision rounding
    tol = np.maximum.accumulate(tol)
    if (np.abs(v + 9999.0) < 1 + tol).any():  # a datum on the missing value is not meaningful
        return packed(rng, nx, ny, header, packing, bits, miss)
    return tok, v, tol, ('diff', bits, bool(flag), bool(np.isnan(v).any()))


def grid_file(nx, ny, grids, header=2, heads=None, nav=None):
    """Spec of a grid file holding token lists `grids` (parameters G000, G001...)."""
    nav = nav or dm.nav_block('CED', nx, ny, (-20.0, -30.0), (40.0, 60.0), (0.0, 0.0, 0.0))
    cols = heads or [head(k) for k in range(len(grids))]
    cells = {(0, k, 0): t for k, t in enumerate(grids)}
    return dm.Spec(3, ['GRID'], GCOLS, [{'GRID': 1}], cols,
                   [dm.Part('GRID', header, 5, [('GRID', 0, 0, 0)])], cells, nav=nav)


def head(k):
    return dict(GDT1=200101, GTM1=1200, GDT2=0, GTM2=0, GLV1=500, GLV2=-1, GVCD=1,
                GPM1=f'G{k:03d}', GPM2='', GPM3='')
