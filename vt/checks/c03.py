"""C03: georeferencing is preserved and geometrically correct."""
import numpy as np
import pyproj
from gempakio import GempakGrid, GridFile
from vt import dm, mapproj

ID = 'C03'
LEVEL = 'exploration'
QUICK, THOROUGH = 8000, 120000
RULE = ('even cases: a regular grid of a random projection is written (lat/lon or x/y mode) and read back; '
        'odd cases: a reference-written navigation block (14 GEMPAK projection names, either byte order) '
        'is decoded and compared with textbook spherical formulas. key = (mode, projection, '
        'hemisphere/angle class, orientation, size class)')
ASSUMPTIONS = ['cylindrical grids run from west to east (GEMPAK convention)', 'sphere of radius 6371200 m', 'a rotation angle is stored, not applied, by reader and writer alike',
               'cells at most 60 degrees from the tangent point for gnomonic/orthographic, '
               'below 75 degrees latitude for Mercator', '25 m tolerance (single precision)']
REQUIRE = {'cells_compared': 20000, 'written_then_read': 200, 'decoded_reference': 200, 'analysis_blocks': 200,
           'analysis_spacings': 100, 'descriptions': 500,
           'around_the_edge': 100, 'rotations_compared': 100}
TOL = 25.0


def pick(rng, cls):
    """(projection kind, parameters, reference projection)"""
    lon0 = rng.choice([0.0, -95.0, -100.0, 10.0, 170.0, -179.0, 180.0, rng.uniform(-180, 180)])
    if cls == 'cyl':
        return lon0
    return lon0


def azimuthal_region(rng, ref, lat0, lon0, kind):
    """corner x/y inside a safe radius of the tangent point"""
    rad = {'stere': 1.3, 'ortho': 0.75, 'gnom': 1.2, 'laea': 1.2, 'aeqd': 1.4}[kind]
    x0, x1 = sorted(rng.uniform(-rad, rad) * 0.7 for _ in range(2))
    y0, y1 = sorted(rng.uniform(-rad, rad) * 0.7 for _ in range(2))
    if x1 - x0 < 0.02:
        x1 = x0 + 0.02
    if y1 - y0 < 0.02:
        y1 = y0 + 0.02
    return x0 * mapproj.R, x1 * mapproj.R, y0 * mapproj.R, y1 * mapproj.R


def case(mon, rng, i, tier):
    if i % 2:
        decode_case(mon, rng, i)
    else:
        write_case(mon, rng, i)


def around(rng, nx, lon0):
    """(columns, west, east) of a grid that crosses lon0+180 or spans the globe; degrees, unwrapped"""
    k = rng.random()
    w = lon0 + rng.choice([0.0, 0.0, -180.0, rng.randint(-179, 179), rng.uniform(-180, 180)])
    if k < 0.45:  # global, without the repeated meridian
        nx = rng.choice([3, 4, 8, 36, 72, 360])
        return nx, w, w + 360 - 360 / nx
    if k < 0.75:  # global, first meridian repeated
        return max(nx, 3), w, w + 360
    w = lon0 + rng.uniform(0, 175)
    return nx, w, rng.uniform(lon0 + 181, w + 350)


def size(rng):
    k = rng.random()
    if k < 0.1:
        return rng.choice([(1, 1), (1, 4), (5, 1), (2, 2), (2, 3)])
    return rng.randint(2, 14), rng.randint(2, 14)


def write_case(mon, rng, i):
    nx, ny = size(rng)
    name = ['merc', 'stere', 'lcc', 'eqc', 'ortho', 'aeqd', 'laea', 'gnom', 'pstere'][i // 2 % 9]
    lon0 = round(rng.choice([0.0, -95.0, 10.0, 170.0, -179.5, 180.0, rng.uniform(-180, 180)]), 4)
    d = {'proj': name, 'lon_0': lon0, 'R': mapproj.R}
    tag = ''
    if rng.random() < 0.4:
        d['ellps'] = 'sphere'
    if name in ('merc', 'eqc'):
        w = rng.uniform(-170, 100)
        e = w + rng.uniform(1, min(300, 175 - w))
        if rng.random() < 0.3:  # across the edge of the projection, or all around the globe
            nx, w, e = around(rng, nx, 0.0)
            mon.seen('around_the_edge')
        s = rng.uniform(-70, 60)
        n = s + rng.uniform(1, 70 - s)
        if name == 'merc' and rng.random() < 0.5:
            d['lat_ts'] = rng.choice([20, 30, -15])
            tag = 'lat_ts'
        if name == 'eqc' and rng.random() < 0.5:
            d['lat_ts'] = rng.choice([20, 40, -35])
            tag = 'lat_ts'
        if name == 'eqc' and rng.random() < 0.3:
            d['lat_0'] = rng.choice([10, -20, 45])
            tag += 'lat_0'
        P = pyproj.Proj(d)
        x0, y0 = P(lon0, s)
        x1, y1 = P(lon0 + 90, n)  # x is linear in longitude; P would wrap beyond its edge
        x0, x1 = w * (x1 - x0) / 90, e * (x1 - x0) / 90
    elif name == 'lcc':
        sg = rng.choice([1, -1])
        a = round(rng.uniform(10, 50), 2)
        b = a if rng.random() < 0.4 else round(rng.uniform(a, 70), 2)
        if rng.random() < 0.3:
            a, b = b, a
        if rng.random() < 0.15:  # one of the parallels is the equator
            a, b = rng.choice([(0.0, max(a, b)), (max(a, b), 0.0)])
        d['lat_1'], d['lat_2'] = sg * a, sg * b
        form = rng.choice(['plain', 'lat_0', 'one', 'offset'])
        if form == 'lat_0':
            d['lat_0'] = sg * round(rng.uniform(10, 60), 1)
        elif form == 'one' and a:  # one standard parallel
            d['lat_1'] = d['lat_0'] = sg * a
            del d['lat_2']
        elif form == 'offset':
            d['x_0'], d['y_0'] = 1.5e6, -2.0e6
        tag = (form, sg, a == 0, b == 0)
        P = pyproj.Proj(d)
        xs, ys = zip(*(P(lon0 + rng.uniform(-60, 60), sg * rng.uniform(5, 80)) for _ in range(2)))
        x0, x1 = sorted(xs)
        y0, y1 = sorted(ys)
        x1 = max(x1, x0 + 1e5)
        y1 = max(y1, y0 + 1e5)
    else:
        kind = name
        if name == 'pstere':
            kind = d['proj'] = 'stere'
            lat0 = rng.choice([90.0, -90.0])
            if rng.random() < 0.6:
                d['lat_ts'] = rng.choice([60.0, 45.0, 90.0]) * (1 if lat0 > 0 else -1)
                tag = 'lat_ts'
        else:
            lat0 = round(rng.choice([0.0, 40.0, -35.0, 89.0, rng.uniform(-85, 85)]), 4)
            if rng.random() < 0.15:
                lat0 = rng.choice([90.0, -90.0])
        d['lat_0'] = lat0
        tag = (tag, np.sign(lat0), abs(lat0) == 90)
        P = pyproj.Proj(d)
        x0, x1, y0, y1 = azimuthal_region(rng, None, lat0, lon0, kind)
    mode = rng.choice(['xy', 'll'])
    x = np.linspace(x0, x1, nx)
    y = np.linspace(y0, y1, ny)
    flip = ''
    if nx > 1 and ny > 1:
        if rng.random() < 0.2:
            y = y[::-1]
            flip += 'y'
        if rng.random() < 0.1 and name not in ('merc', 'eqc'):  # cylindrical grids run eastward
            x = x[::-1]
            flip += 'x'
    lon, lat = P(*np.meshgrid(x, y), inverse=True)
    if not (np.isfinite(lon).all() and np.isfinite(lat).all()):
        return
    pole = (np.abs(lat) > 89.9).any()
    if mode == 'll' and rng.random() < 0.3:
        glon = np.where(lon < 0, lon + 360, lon)
    else:
        glon = lon
    single = rng.random() < 0.4
    cast = (lambda v: v.astype('f4')) if single else (lambda v: v)
    rot = rng.choice([30.0, -45.5, 10, 180.0]) if rng.random() < 0.1 else 0
    kw = {'rotation': rot} if rot or rng.random() < 0.2 else {}
    if mode == 'xy':
        gf, err = mon.run(GridFile, cast(x), cast(y), P, use_xy=True, **kw)
    else:
        gf, err = mon.run(GridFile, cast(glon), cast(lat), P, **kw)
    if err:
        mon.fail('GridFile-raised', (err, d, mode))
        return
    data = np.arange(nx * ny, dtype=float).reshape(ny, nx)
    _, err = mon.run(gf.add_grid, data, 'TEST', None, 0, '202001010000')
    p = mon.path('.grd')
    if not err:
        _, err = mon.run(gf.to_gempak, p)
    if err:
        mon.fail('write-raised', (err, d))
        return
    gg, err = mon.run(GempakGrid, p)
    if err:
        mon.fail('read-raised', (err, d))
        return
    if gg.lat.shape != (ny, nx) or gg.lon.shape != (ny, nx):
        mon.fail('shape', (gg.lat.shape, ny, nx))
        return
    e = mapproj.dist(gg.lat, gg.lon, lat, lon)
    tol = TOL * (3 if name in ('gnom', 'ortho') else 1)
    mon.seen('cells_compared', e.size)
    mon.seen('written_then_read')
    if not np.isfinite(e).all() or (e > tol).any():
        j = np.unravel_index(np.nanargmax(np.where(np.isfinite(e), e, np.inf)), e.shape)
        mon.fail('latlon-roundtrip', f'{d} mode={mode} cell {j}: wrote {lat[j]:.5f},{lon[j]:.5f} '
                 f'read {gg.lat[j]:.5f},{gg.lon[j]:.5f} ({e[j]:.0f} m); shape {(ny, nx)} flip={flip}')
        return
    check_analysis(mon, gg, glon, lat, d)
    if name not in ('lcc', 'pstere'):  # those have no room for a rotation
        mon.seen('rotations_compared')
        if gg.navigation_block.proj_angle3 != np.float32(rot) and not (abs(d.get('lat_0', 0)) == 90 and rot):
            mon.fail('rotation', f'{d} rotation {rot}: stored {gg.navigation_block.proj_angle3}')
    arr = mon.must('gdxarray', gg.gdxarray)
    if arr:
        g = arr[0]
        ve = mapproj.dist(g['lat'].values, g['lon'].values, lat, lon)
        if g.values.shape != (1, 1, ny, nx) or (ve > tol).any():
            mon.fail('dataarray-coords', (d, g.values.shape))
        step = max(1.0, 2 * nx * ny / 65000)
        if (np.abs(g.values[0, 0] - data) > step).any():
            mon.fail('orientation', (d, g.values[0, 0].tolist()))
        check_project(mon, gg, d)
        check_description(mon, gg, g, d)
    mon.key('w', name, tag, mode, single, flip, min(nx, 3), min(ny, 3), pole)
    mon.sample = {'proj': {k: str(v) for k, v in d.items()}, 'mode': mode, 'shape': [ny, nx]}


def check_analysis(mon, gg, lon, lat, d):
    """The analysis block describes the same area as the navigation block, at the grid's spacing."""
    a, nav = gg.analysis_block, gg.navigation_block
    if a is None or a.analysis_type != 2:
        mon.fail('analysis-block', f'{d}: {a}')
        return
    a, nav = a._asdict(), nav._asdict()
    for area in ('garea', 'extarea', 'datarea'):
        box = [v for k, v in a.items() if k.startswith(area)]
        if box != [nav['lower_left_lat'], nav['lower_left_lon'], nav['upper_right_lat'], nav['upper_right_lon']]:
            mon.fail('analysis-area', f'{d} {area} {box} navigation {nav}')
    for k in ('left', 'down', 'right', 'up'):
        if a['grid_ext_' + k] != 0:
            mon.fail('analysis-extend', f'{d} {k} {a["grid_ext_" + k]}')
    mon.seen('analysis_blocks')
    if min(lat.shape) < 3 or np.abs(lat).max() > 85:
        return
    dlon, dlat = (v[1:, 1:] - v[:-1, :-1] for v in (lon, lat))
    dlon = (dlon + 180) % 360 - 180
    spacing = np.sqrt(2 * (dlon ** 2 + dlat ** 2))
    mon.seen('analysis_spacings')
    if not 0.9 * spacing.min() <= a['delta_n'] <= 1.1 * spacing.max():
        mon.fail('analysis-spacing', f'{d} {lat.shape}: {a["delta_n"]} degrees, cells {spacing.min()} to {spacing.max()}')


def check_description(mon, gg, g, d):
    """A returned grid carries the cells' coordinates, and attributes that describe the projection."""
    for k in ('x', 'y', 'lat', 'lon'):
        if not np.array_equal(g[k].values, getattr(gg, k), equal_nan=True):
            mon.fail('grid-coordinate', f'{d} {k}')
    a = {k: v for k, v in g.attrs.items() if k != 'grid_type'}
    crs = [mon.must('from_wkt', pyproj.CRS.from_wkt, a['crs_wkt'])] if 'crs_wkt' in a else []
    if 'grid_mapping_name' in a:  # not every projection has a CF name
        crs.append(mon.must('from_cf', pyproj.CRS.from_cf, {k: v for k, v in a.items() if k != 'crs_wkt'}))
    if not crs:
        mon.fail('no-description', f'{d} {a}')
    for c in crs:
        if c is not None:
            mon.seen('descriptions')
            check_project(mon, gg, d, pyproj.Proj(c), 'description')


def check_project(mon, gg, d, fn=None, kind='project_point'):
    """project_point (or another function) of the cells returns their x/y."""
    lat = np.asarray(gg.lat, float)
    lon = np.asarray(gg.lon, float)
    res = mon.must(kind, fn or gg.project_point, lon, lat)
    if res is None:
        return
    px, py = np.asarray(res[0]), np.asarray(res[1])
    gx, gy = np.meshgrid(np.asarray(gg.x, float), np.asarray(gg.y, float))
    if px.shape != gx.shape:
        mon.fail(kind + '-shape', (px.shape, gx.shape))
        return
    circ = 2 * np.pi * mapproj.R
    dx = np.abs(px - gx)
    if d.get('proj') in ('merc', 'eqc') or d.get('cyl'):
        dx = np.minimum(dx % circ, circ - dx % circ)
    # single-precision lat/lon of the cell, amplified by the projection's scale;
    # longitude is undefined at the poles
    ok = np.abs(lat) < 89
    bad = (np.hypot(dx, py - gy) > 150) & ok
    if bad.any():
        j = np.unravel_index(np.argmax(np.where(ok, np.hypot(dx, py - gy), 0)), bad.shape)
        mon.fail(kind, f'{d} cell {j} x/y {gx[j]:.0f},{gy[j]:.0f} projected '
                 f'{px[j]:.0f},{py[j]:.0f}')
    mon.seen('points_projected', int(ok.sum()))


NAMES = ['MER', 'NPS', 'SPS', 'LCC', 'SCC', 'CED', 'MCD', 'NOR', 'SOR', 'STR', 'AED', 'ORT', 'LEA',
         'GNO']


def navigation(mon, rng, name, nx, ny):
    """Random corners and angles: (nx, ny, ll, ur, angles, ref, x0, x1, y0, y1, cyl, tag)"""
    lon0 = float(np.float32(rng.choice([0.0, -95.0, 10.0, 170.0, -179.0, rng.uniform(-180, 180)])))
    cyl = name in ('MER', 'CED', 'MCD')
    if cyl:
        kind = 'merc' if name == 'MER' else 'eqc'
        ref = mapproj.Cyl(kind, lon0)
        wrap = rng.random() < 0.35
        if wrap:  # the grid's eastern part lies beyond the projection's date line
            w = lon0 + rng.uniform(0, 170)
            e = w + rng.uniform(100, 340)
            e = min(e, w + 350)
        elif rng.random() < 0.25:
            nx, w, e = around(rng, nx, lon0)
            wrap = True
            if e - w == 360:
                w = float(round(w))
                e = w + 360
            mon.seen('around_the_edge')
        else:
            w = lon0 + rng.uniform(-175, 100)
            e = w + rng.uniform(2, lon0 + 175 - w)
        s = rng.uniform(-75, 60)
        n = s + rng.uniform(2, 75 - s)
        a1 = 0.0 if name != 'CED' else rng.choice([0.0, 0.0, 20.0])
        angles = (a1, lon0, 0.0)
        w, e, s, n = (float(np.float32(v)) for v in (w, e, s, n))
        stored = []
        for v in (w, e):
            style = rng.random()
            stored.append(v if style < 0.4 and v < 360 else (v + 180) % 360 - 180 if style < 0.8 else v % 360)
        ll, ur = (s, stored[0]), (n, stored[1])
        if e - w == 360:
            ll, ur = (s, stored[0]), (n, stored[0])
        wrapped = wrap and e > lon0 + 180
        x0, y0 = ref.fwd(s, w)
        x1, y1 = ref.fwd(n, e)
        tag = ('wrap' if wrapped else 'plain', a1)
    else:
        if name in ('LCC', 'SCC'):
            sg = 1 if name == 'LCC' else -1
            a = float(np.float32(rng.uniform(10, 50)))
            b = a if rng.random() < 0.4 else float(np.float32(rng.uniform(a, 75)))
            if rng.random() < 0.3:
                a, b = b, a
            if rng.random() < 0.15:  # one of the parallels is the equator
                a, b = rng.choice([(0.0, max(a, b)), (max(a, b), 0.0)])
                mon.seen('equator_parallel')
            ref = mapproj.Lcc(sg * a, sg * b, lon0)
            angles = (sg * a, lon0, sg * b)
            pts = [ref.fwd(sg * rng.uniform(5, 80), lon0 + rng.uniform(-60, 60)) for _ in range(2)]
            x0, x1 = sorted(float(q[0]) for q in pts)
            y0, y1 = sorted(float(q[1]) for q in pts)
            x1, y1 = max(x1, x0 + 1e5), max(y1, y0 + 1e5)
            tag = (a == b, a == 0, b == 0)
        else:
            kind = {'NPS': 'stere', 'SPS': 'stere', 'STR': 'stere', 'NOR': 'ortho', 'SOR': 'ortho',
                    'ORT': 'ortho', 'AED': 'aeqd', 'LEA': 'laea', 'GNO': 'gnom'}[name]
            lat0 = float(np.float32({'N': 90.0, 'S': -90.0}.get(name[0], None) if name in
                                    ('NPS', 'SPS', 'NOR', 'SOR') else
                                    rng.choice([0.0, 40.0, -35.0, 90.0, -90.0,
                                                rng.uniform(-85, 85)])))
            ref = mapproj.Azimuthal(kind, lat0, lon0)
            angles = (lat0, lon0, 0.0)
            x0, x1, y0, y1 = azimuthal_region(rng, ref, lat0, lon0, kind)
            tag = (np.sign(lat0), abs(lat0) == 90)
        c = [ref.inv(x0, y0), ref.inv(x1, y1)]
        ll, ur = [(float(np.float32(q[0])), float(np.float32(q[1]))) for q in c]
        x0, y0 = (float(v) for v in ref.fwd(*ll))
        x1, y1 = (float(v) for v in ref.fwd(*ur))
    return nx, ny, ll, ur, angles, ref, x0, x1, y0, y1, cyl, tag


def decode_case(mon, rng, i):
    name = NAMES[i // 2 % len(NAMES)]
    nx, ny, ll, ur, angles, ref, x0, x1, y0, y1, cyl, tag = navigation(mon, rng, name, *size(rng))
    big = rng.random() < 0.5
    nav = dm.nav_block(name, nx, ny, ll, ur, angles)
    sp = dm.Spec(3, ['GRID'], ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1',
                               'GPM2', 'GPM3'],
                 [{'GRID': 1}], [dict(GDT1=200101, GTM1=0, GDT2=0, GTM2=0, GLV1=0, GLV2=-1, GVCD=0,
                                      GPM1='TEST', GPM2='', GPM3='')],
                 [dm.Part('GRID', 2, 5, [('GRID', 0, 0, 0)])],
                 {(0, 0, 0): dm.I(nx, ny, 0) + dm.F(*range(nx * ny))}, nav=nav)
    p = mon.put(sp.build(big), '.grd')
    gg, err = mon.run(GempakGrid, p)
    if err:
        mon.fail('read-raised', (err, name, angles))
        return
    X, Y = np.meshgrid(np.linspace(x0, x1, nx), np.linspace(y0, y1, ny))
    lat, lon = ref.inv(X, Y)
    if np.shape(gg.lat) != (ny, nx):
        mon.fail('shape', (np.shape(gg.lat), ny, nx))
        return
    e = mapproj.dist(gg.lat, gg.lon, lat, lon)
    tol = TOL * (3 if name in ('GNO', 'ORT', 'NOR', 'SOR') else 1)
    mon.seen('cells_compared', e.size)
    mon.seen('decoded_reference')
    if not np.isfinite(e).all() or (e > tol).any():
        j = np.unravel_index(np.nanargmax(np.where(np.isfinite(e), e, np.inf)), e.shape)
        mon.fail('navigation' + ('-wrapped' if cyl and tag[0] == 'wrap' else ''),
                 f'{name} angles={angles} ll={ll} ur={ur} cell {j} of {(ny, nx)}: formulas '
                 f'{lat[j]:.5f},{lon[j]:.5f} read {gg.lat[j]:.5f},{gg.lon[j]:.5f} ({e[j]:.0f} m)')
        return
    check_project(mon, gg, {'name': name, 'angles': angles, 'cyl': cyl})
    arr = mon.must('gdxarray', gg.gdxarray)
    if arr:
        check_description(mon, gg, arr[0], {'name': name, 'angles': angles, 'cyl': cyl})
    mon.key('d', name, tag, big, min(nx, 3), min(ny, 3))
    mon.sample = {'nav': name, 'angles': angles, 'shape': [ny, nx]}
