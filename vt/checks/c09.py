"""C09: packed grids decode exactly as the packing formula prescribes."""
import numpy as np
from gempakio import GempakGrid
from vt import refgrid

ID = 'C09'
LEVEL = 'exploration'
QUICK, THOROUGH = 9000, 135000
RULE = ('each case packs 1-3 grids with an independent bit packer (no packing, GRIB, DEC, difference; 1-31 '
        'bits; random codes with extremes; either byte order; headers of 2-6 words) and compares every '
        'decoded cell with the packing formula; key = (packing, bits, missing flag, has missing, alignment)')
ASSUMPTIONS = ['single precision tolerance (accumulated along the differences for difference packing)',
               'values equal to -9999 are not generated as data']
REQUIRE = {'cells_compared': 50000, 'missing_cells': 2000, 'diff_grids': 300, 'grib_grids': 300, 'big_grids': 10}


def case(mon, rng, i, tier):
    nx, ny = (rng.randint(1, 4), rng.randint(1, 4)) if rng.random() < 0.2 else (
        rng.randint(1, 20), rng.randint(1, 14))
    big = i % 300 == 19
    mon.seen('big_grids', big)
    if big:
        nx, ny = rng.choice([(257, 130), (33000, 1), (1, 20000), (181, 91), (70000, 1), (3, 9999)])
    header = rng.choice([2, 2, 2, 3, 6])
    gs = []
    for k in range(1 if big else rng.randint(1, 3)):
        bits = 1 + (i * 3 + k) % 31
        gs.append(refgrid.packed(rng, nx, ny, header, bits=bits))
    sp = refgrid.grid_file(nx, ny, [g[0] for g in gs], header)
    p = mon.put(sp.build(rng.random() < 0.5), '.grd')
    g = mon.must('GempakGrid', GempakGrid, p)
    if g is None:
        return
    for k, (_t, v, tol, tag) in enumerate(gs):
        res, err = mon.run(g.gdxarray, parameter=f'G{k:03d}')
        if err:
            mon.fail(f'{tag[0]}-raised', (err, tag, (ny, nx)))
            continue
        if len(res) != 1 or res[0].shape != (1, 1, ny, nx):
            mon.fail('not-returned', (len(res), tag))
            continue
        out = np.asarray(res[0].values, float).ravel()
        m = np.isnan(v)
        mon.seen('cells_compared', v.size)
        mon.seen('missing_cells', int(m.sum()))
        mon.seen('diff_grids', tag[0] == 'diff')
        mon.seen('grib_grids', tag[0] in ('grib', 'dec'))
        mon.key(tag, (v.size * (tag[1] if len(tag) > 2 else 32)) % 32 == 0, header == 2)
        if (np.isnan(out) != m).any():
            j = int(np.argmax(np.isnan(out) != m))
            mon.fail('missing', f'{tag} cell {j} of {(ny, nx)}: formula {v[j]} read {out[j]}')
            continue
        bad = ~(np.abs(out - v) <= tol + 2.0 ** -22 * np.abs(v)) & ~m
        if bad.any():
            j = int(np.argmax(bad))
            mon.fail('value', f'{tag} cell {j} of {(ny, nx)}: formula {v[j]!r} read {out[j]!r} '
                     f'tolerance {tol[j]:.3g}')
    mon.sample = {'shape': [ny, nx], 'header': header, 'packings': [list(map(str, g[3])) for g in gs]}
