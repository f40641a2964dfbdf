"""C01: grid values survive write+read within the packing resolution."""
import numpy as np
from gempakio import GempakGrid, GridFile
from vt import gen

ID = 'C01'
LEVEL = 'exploration'
QUICK, THOROUGH = 10000, 150000
RULE = ('each case writes 1-3 random grids (shape, dtype, layout, value family, missing pattern) at a '
        'random precision 1..31 and reads them back; key = (value family, dtype, missing pattern, '
        'precision, alignment of precision*cells to 32 bits, number of grid words class)')
ASSUMPTIONS = ['values do not straddle the missing value -9999', 'value range below 2^31',
               'precision set through GridFile.precision']
REQUIRE = {'cells_compared': 10000, 'missing_cells': 1000, 'big_grids': 20}
BIG = [(1, 33000), (70000, 1), (257, 256), (300, 400), (1000, 3), (129, 511), (64, 128), (181, 360)]


def shape(rng):
    k = rng.random()
    if k < 0.12:
        return rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (6, 1), (2, 3), (3, 2), (1, 40)])
    if k < 0.7:
        return rng.randint(2, 9), rng.randint(2, 9)
    return rng.randint(3, 30), rng.randint(3, 30)


def case(mon, rng, i, tier):
    big = i % 250 == 17
    ny, nx = rng.choice(BIG) if big else shape(rng)
    mon.seen('big_grids', big)
    bits = 1 + i % 31 if rng.random() < 0.7 else 16
    gf = mon.must('GridFile', gen.eqc_file, GridFile, nx, ny)
    if gf is None:
        return
    gf.precision = bits
    grids = []
    for k in range(1 if big else rng.randint(1, 3)):
        a, tag = gen.grid_values(rng, ny, nx)
        v, m = gen.expected(a)
        arg = np.array(a, order='K', copy=True) if tag[3] in 'CF' else a
        _, err = mon.run(gf.add_grid, arg, f'P{k}', 'PRES', 500 + k, '202001011200')
        if err:
            mon.fail('add_grid-raised', (err, tag))
            return
        grids.append((f'P{k}', v, m, tag))
    p = mon.path('.grd')
    _, err = mon.run(gf.to_gempak, p)
    if err:
        mon.fail('to_gempak-raised', (err, (ny, nx), bits, [g[3] for g in grids]))
        return
    gg = mon.must('GempakGrid', GempakGrid, p)
    if gg is None:
        return
    for nme, v, m, tag in grids:
        res, err = mon.run(gg.gdxarray, parameter=nme)
        if err:
            mon.fail('gdxarray-raised', (err, (ny, nx), bits, tag))
            continue
        if len(res) != 1:
            mon.fail('grid-not-returned', (len(res), (ny, nx), bits, tag))
            continue
        out = np.asarray(res[0].values, dtype=np.float64)
        if out.shape != (1, 1, ny, nx):
            mon.fail('shape', (out.shape, (ny, nx)))
            continue
        out = out[0, 0]
        om = np.isnan(out)
        mon.seen('cells_compared', v.size)
        mon.seen('missing_cells', int(m.sum()))
        mon.seen('grids')
        if (om != m).any():
            j = tuple(np.argwhere(om != m)[0])
            mon.fail('missing-mask', f'cell {j} given {v[j]} read {out[j]} bits={bits} tag={tag} '
                     f'range={np.nanmin(np.where(m, np.nan, v))}..{np.nanmax(np.where(m, np.nan, v))}')
            continue
        tol = gen.tolerance(v, m, bits)
        bad = (np.abs(out - v) > tol) & ~m
        if bad.any():
            j = tuple(np.argwhere(bad)[0])
            mon.fail('value-error', f'cell {j} given {v[j]!r} read {out[j]!r} tol {tol[j]:.3g} '
                     f'bits={bits} tag={tag} shape={(ny, nx)}')
        mon.key(tag[:3], bits, (bits * nx * ny) % 32 == 0, min(nx * ny * bits // 32, 4))
    mon.sample = {'shape': [ny, nx], 'bits': bits, 'grids': [list(g[3]) for g in grids]}
