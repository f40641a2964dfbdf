"""C30: what a reader returns, given to the builders, makes a file with the same content."""
import numpy as np
import pyproj
from gempakio import GempakGrid, GempakSounding, GempakSurface, GridFile, SoundingFile, SurfaceFile, VectorGraphicFile
from gempakio.encode import vgf as ev
from vt import dm, mapproj, vgw, world
from vt.checks import c03
from vt.observe import inventory

ID = 'C30'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: files of the independent writers (all byte orders, packings and layouts) are read, '
             'what the reader returns is fed to the builders unchanged, and the new file is compared with the old one')
QUICK, THOROUGH = 3200, 50000
RULE = ('each case reads a reference-written grid, sounding, upper-air or surface file or a vector graphics file, '
        'builds a file of the same class from the answers, reads that one and compares inventories, coordinates and '
        'values (grids to the packing resolution, vector graphics exactly); key = (kind, layout, spellings, sizes)')
ASSUMPTIONS = ['second times and types are spelled YYYYmmddHHMM with a type letter and offset 000',
               'raw text and special reports are outside what the builders write',
               'custom vertical coordinates and value ranges from 2^31 on are refused by the builder',
               'levels of a converted sounding are distinct']
REQUIRE = {'grids': 1000, 'cells': 20000, 'soundings': 500, 'merged_raobs': 200, 'reports': 1000, 'elements': 1500,
           'navigations': 300}
LETTER = {'analysis': 'A', 'forecast': 'F', 'guess': 'G', 'initial': 'I'}


def case(mon, rng, i, tier):
    [grid_case, grid_case, snd_case, raob_case, sfc_case, vgf_case, vgf_case][i % 7](mon, rng)


def spelled(rng, t, typ):
    """A time given back to the builders: plain where that means the same thing."""
    if typ == 'A' and rng.random() < 0.6:
        return t if rng.random() < 0.5 else t.strftime('%Y%m%d%H%M')
    return t.strftime('%Y%m%d%H%M') + typ + rng.choice(['', '0', '000', '00000'])


# ------------------------------------------------------------------ grids

KNOWN = ['NONE', 'PRES', 'THTA', 'HGHT', 'SGMA', 'DPTH', 'HYBD', 'PVAB', 'PVBL']


def wide(v):
    """The builder refuses value ranges from 2^31 on."""
    v = v[~np.isnan(v)].astype(float)
    return v.size and v.max() - v.min() > 2e9


def grid_case(mon, rng):
    w = world.grid(rng)
    if rng.random() < 0.7:
        name = rng.choice(c03.NAMES)
        nx, ny = w.entries[0].data['values'].shape[::-1]
        if nx > 1 and ny > 1:
            got = c03.navigation(mon, rng, name, nx, ny)
            if got[:2] == (nx, ny):
                w.spec.nav = dm.nav_block(name, nx, ny, *got[2:5])
    p = mon.put(w.spec.build(rng.random() < 0.5), '.grd')
    r = mon.must('GempakGrid', GempakGrid, p)
    if r is None:
        return
    nav = r.navigation_block
    proj, use_xy = rng.choice([lambda: pyproj.Proj(r.crs), lambda: pyproj.Proj(r.crs.to_proj4())])(), rng.random() < 0.5
    if use_xy:
        b, err = mon.run(GridFile, r.x, r.y, proj, use_xy=True)
    else:
        b, err = mon.run(GridFile, r.lon, r.lat, proj)
    if err:
        mon.fail('GridFile-raised', (err, nav))
        return
    bits = rng.choice([16, 24, 31, 12])
    b.precision = bits
    info = mon.must('gdinfo', r.gdinfo)
    arrays = mon.must('gdxarray', r.gdxarray)
    if info is None or arrays is None:
        return
    pairs = [(g, a) for g, a in zip(info, arrays) if g.COORD in KNOWN and not wide(a.values)]
    if not pairs:
        return
    rng.shuffle(pairs)
    for g, da in pairs:
        kw = {}
        typ = LETTER[g.TYPE]
        same = rng.random() < 0.5
        one = spelled(rng, g.DATTIM1, typ)
        if g.DATTIM2 is not None:
            kw['date_time2'] = (spelled(rng, g.DATTIM2, typ) if typ == 'A' and same else
                                g.DATTIM2.strftime('%Y%m%d%H%M') + typ + '000')
            if typ != 'A' or not same:
                one = g.DATTIM1.strftime('%Y%m%d%H%M') + typ + '000'
            elif not isinstance(one, str) or 'A' not in one:
                kw['date_time2'] = g.DATTIM2
                one = g.DATTIM1
            else:
                kw['date_time2'] = g.DATTIM2.strftime('%Y%m%d%H%M') + 'A000'
        if g.LEVEL2 is not None:
            kw['level2'] = g.LEVEL2
        _, err = mon.run(b.add_grid, da.values[0, 0] if rng.random() < 0.5 else da[0, 0].to_numpy(),
                         g.PARM, g.COORD if rng.random() < 0.5 else g.COORD.lower(), g.LEVEL1, one, **kw)
        if err:
            mon.fail('add_grid-raised', f'{err}: {g}')
            return
    q = mon.path('.grd')
    _, err = mon.run(b.to_gempak, q)
    s, err = mon.run(GempakGrid, q) if not err else (None, err)
    if err:
        mon.fail('grid-rewrite-raised', err)
        return
    mon.seen('navigations')
    a, c = sorted(repr(tuple(g[1:])) for g, _a in pairs), sorted(map(repr, inventory(s, 'grid')))
    if a != c:
        k = next((j for j, (x, y) in enumerate(zip(a, c)) if x != y), min(len(a), len(c)))
        mon.fail('grid-inventory', f'{len(a)} grids before, {len(c)} after; {a[k:k + 1]} became {c[k:k + 1]}')
        return
    d = mapproj.dist(s.lat, s.lon, r.lat, r.lon) if s.lat.shape == r.lat.shape else np.array([np.inf])
    if not (d < 60).all():
        mon.fail('grid-coordinates', f'{nav}: {s.lat.shape} off by {d.max()} m, use_xy={use_xy}')
        return
    after = {repr(tuple(g[1:])): da for g, da in zip(s.gdinfo(), s.gdxarray())}
    for g, da in pairs:
        mon.seen('grids')
        got, want = after[repr(tuple(g[1:]))].values, da.values
        mon.seen('cells', want.size)
        if got.shape != want.shape or (np.isnan(got) != np.isnan(want)).any():
            mon.fail('grid-missing', f'{g}: {got.shape} {want.shape}')
            return
        ok = ~np.isnan(want)
        if not ok.any():
            continue
        v = want[ok].astype(float)
        if v.min() < -9999 < v.max():
            continue
        tol = (v.max() - v.min()) / (2 ** bits - 2) + 2.0 ** -22 * np.abs(v).max()
        if (np.abs(got[ok] - v) > tol).any():
            mon.fail('grid-values', f'{g}: off by {np.abs(got[ok] - v).max()}, allowed {tol}')
            return
        x, y = after[repr(tuple(g[1:]))], da
        if (x.dims, x.name, x.attrs.get('grid_type')) != (y.dims, y.name, y.attrs.get('grid_type')) or any(
                (x[k].values != y[k].values).any() for k in x.dims[:2]):
            mon.fail('grid-labels', f'{x.dims} {x.name} became {y.dims} {y.name}')
            return
    mon.key('grid', str(nav.projection), use_xy, bits, min(len(pairs), 4), w.tag)
    mon.sample = {'kind': 'grid', 'projection': str(nav.projection), 'grids': len(pairs), 'use_xy': use_xy}


# ------------------------------------------------------------------ soundings

def dataset(ds):
    """{parameter: values} of a sounding dataset"""
    return {k: np.asarray(ds[k].values, float).ravel() for k in ds.variables
            if k not in ('time',) and ds[k].dtype.kind == 'f'}


def clean(v):
    v = np.asarray(v, float)
    return np.where(v == -9999, np.nan, v)


def from_snd(mon, rng, r, kind):
    """Rewrites all soundings of reader r; compares."""
    inv = mon.must('sninfo', r.sninfo)
    sets, err = mon.run(r.snxarray)
    if err or inv is None:
        mon.fail('snxarray-raised', err)
        return
    if len(inv) != len(sets):
        return  # upper-air slots without any level
    items, names = [], {}
    for s, ds in zip(inv, sets):
        d = dataset(ds)
        vc = [k for k in ds.dims if k != 'time'][0]
        lev = ds[vc].values
        if len(set(lev.tolist())) != lev.size or np.isnan(lev).any() or not lev.size or lev.size > 490:
            mon.seen('repeated_levels')
            continue
        items.append((s, ds, {k: clean(v) for k, v in d.items()}, vc))
        for k in d:
            names[k] = vc
    if not items:
        return
    if len({it[3] for it in items}) > 1 or any(set(it[2]) != set(names) for it in items):
        mon.seen('mixed_parameters')
        return
    params = [k if rng.random() < 0.5 else k.upper() for k in names]
    rng.shuffle(params)
    b = mon.must('SoundingFile', SoundingFile, params)
    if b is None:
        return
    rng.shuffle(items)
    for s, ds, d, vc in items:
        t = s.DATTIM if rng.random() < 0.5 else s.DATTIM.strftime('%Y%m%d%H%M')
        info = {'station_id': s.ID, 'station_number': s.NUMBER, 'elevation': s.ELEV, 'state': s.STATE,
                'country': s.COUNTRY}
        place = (s.LAT, s.LON)
        if rng.random() < 0.3:
            place = tuple(ds.attrs.get(k) for k in ('lat', 'lon')) if 'lat' in ds.attrs else place
        if rng.random() < 0.3:
            o = rng.sample(range(len(d[vc])), len(d[vc]))
            d = {k: v[o] for k, v in d.items()}
        _, err = mon.run(b.add_sounding, d, *place, t, info)
        if err:
            mon.fail('add_sounding-raised', f'{err} {info}')
            return
    q = mon.path('.snd')
    _, err = mon.run(b.to_gempak, q)
    n, err = mon.run(GempakSounding, q) if not err else (None, err)
    sets2, err = mon.run(n.snxarray) if not err else (None, err)
    if err:
        mon.fail(f'{kind}-rewrite-raised', err)
        return

    def ident(s):
        return (s.DATTIM, s.ID, s.NUMBER, s.ELEV, s.STATE, s.COUNTRY, s.LAT, s.LON)
    new = list(zip(n.sninfo(), sets2))
    old = sorted(items, key=lambda it: repr(ident(it[0])))
    new.sort(key=lambda it: repr(ident(it[0])))
    if [repr(ident(x[0])) for x in old] != [repr(ident(x[0])) for x in new]:
        mon.fail(f'{kind}-inventory', f'{[x[0] for x in old][:3]} became {[x[0] for x in new][:3]}')
        return
    for (s, ds, d, vc), (_s2, ds2) in zip(old, new):
        mon.seen('merged_raobs' if kind == 'raob' else 'soundings')
        d2 = dataset(ds2)
        a, c = ({k: v[np.argsort(x[vc])] for k, v in x.items()} for x in (d, d2))
        if set(a) != set(c) or any(not np.array_equal(a[k].astype('f4'), clean(c[k]).astype('f4'), equal_nan=True)
                                   for k in a):
            bad = [k for k in a if k not in c or not np.array_equal(a[k].astype('f4'), clean(c[k]).astype('f4'),
                                                                    equal_nan=True)]
            mon.fail(f'{kind}-values', f'{s.ID} {bad[:3]}: {[a[k][:6] for k in bad[:1]]} became '
                                       f'{[c.get(k, [])[:6] for k in bad[:1]]}')
            return
    mon.key(kind, len(names), min(len(items), 4), vc)
    mon.sample = {'kind': kind, 'soundings': len(items), 'parameters': sorted(names)}


def snd_case(mon, rng):
    w = world.snd(rng)
    r = mon.must('GempakSounding', GempakSounding, mon.put(w.spec.build(rng.random() < 0.5), '.snd'))
    if r is not None:
        from_snd(mon, rng, r, 'snd')


def raob_case(mon, rng):
    w = world.raob(rng)
    r = mon.must('GempakSounding', GempakSounding, mon.put(w.spec.build(rng.random() < 0.5), '.snd'))
    if r is not None:
        from_snd(mon, rng, r, 'raob')


# ------------------------------------------------------------------ surface

def sfc_case(mon, rng):
    w = world.sfc(rng, text=False)
    r = mon.must('GempakSurface', GempakSurface, mon.put(w.spec.build(rng.random() < 0.5), '.sfc'))
    if r is None:
        return
    reps, err = mon.run(r.sfjson)
    if err:
        mon.fail('sfjson-raised', err)
        return
    if not reps:
        return
    names = list(reps[0]['values'])
    b = mon.must('SurfaceFile', SurfaceFile, [k.upper() if rng.random() < 0.5 else k for k in names])
    if b is None:
        return
    order = list(reps)
    rng.shuffle(order)
    for x in order:
        pr = x['properties']
        t = pr['date_time'] if rng.random() < 0.5 else pr['date_time'].strftime('%Y%m%d%H%M')
        info = {k: pr[k] for k in ('station_id', 'station_number', 'elevation', 'state', 'country', 'priority')}
        vals = {k: float('nan') if v == -9999 and rng.random() < 0.5 else v for k, v in x['values'].items()}
        _, err = mon.run(b.add_station, vals, pr['latitude'], pr['longitude'], t, info)
        if err:
            mon.fail('add_station-raised', f'{err} {pr}')
            return
    q = mon.path('.sfc')
    _, err = mon.run(b.to_gempak, q)
    n, err = mon.run(GempakSurface, q) if not err else (None, err)
    got, err = mon.run(n.sfjson) if not err else (None, err)
    if err:
        mon.fail('sfc-rewrite-raised', err)
        return

    def view(reports):
        return sorted((repr(sorted((k, str(v)) for k, v in x['properties'].items())),
                       [(k, np.float32(x['values'][k]).item()) for k in sorted(x['values'])]) for x in reports)
    a, c = view(reps), view(got)
    mon.seen('reports', len(a))
    if a != c:
        k = next((j for j, (x, y) in enumerate(zip(a, c)) if x != y), min(len(a), len(c)))
        mon.fail('sfc-reports', f'{len(a)} before, {len(c)} after; {a[k:k + 1]} became {c[k:k + 1]}')
        return
    mon.key('sfc', w.layout, w.tag, len(names), min(len(a), 5))
    mon.sample = {'kind': 'sfc', 'reports': len(a), 'layout': w.layout}


# ------------------------------------------------------------------ vector graphics

FIELDS = ['delete', 'vg_class', 'vg_type', 'filled', 'closed', 'smooth', 'version', 'group_type', 'group_number',
          'major_color', 'minor_color', 'record_size', 'min_lat', 'max_lat', 'min_lon', 'max_lon']
REST = {'Line': ['line_type', 'width', 'line_type_hardware', 'line_width_hardware', 'number_points'],
        'SpecialLine': ['line_type', 'stroke', 'direction', 'size', 'width', 'number_points'],
        'Front': ['front_code', 'pip_size', 'pip_stroke', 'pip_direction', 'width', 'label', 'number_points'],
        'SpecialText': ['rotation', 'size', 'text_type', 'turbulence_symbol', 'font', 'text_flag', 'width',
                        'text_color', 'line_color', 'fill_color', 'align', 'offset_x', 'offset_y', 'text'],
        'SpecialSymbol': ['width', 'size', 'symbol_type', 'symbol_code', 'offset_x', 'offset_y', 'number_symbols']}
REST['Marker'] = REST['SpecialSymbol']


def view(e, kind):
    return ([(k, getattr(e, k, None)) for k in FIELDS + REST[kind]] +
            [(k, np.atleast_1d(np.asarray(getattr(e, k), float)).tolist()) for k in ('lat', 'lon')])


def rebuilt(e, kind):
    """An element of the builder from the attributes of a decoded one."""
    lon, lat = e.lon, e.lat
    if kind in ('Line', 'SpecialLine') and e.closed and e.number_points > 2:
        lon, lat = lon[:-1] if getattr(e, 'direction', 1) == 1 else lon[1:], \
            lat[:-1] if getattr(e, 'direction', 1) == 1 else lat[1:]
    if kind == 'SpecialLine' and e.direction == -1:
        lon, lat = lon[::-1], lat[::-1]
    if kind == 'Line':
        x = ev.Line(lon, lat, color=e.major_color, line_type=e.line_type, closed=e.closed, filled=e.filled,
                    smooth=e.smooth, width=e.width)
    elif kind == 'SpecialLine':
        x = ev.SpecialLine(lon, lat, color=e.major_color, line_type=e.line_type, closed=e.closed, filled=e.filled,
                           smooth=e.smooth, width=e.width, size=e.size, direction=e.direction, stroke=e.stroke)
    elif kind == 'Front':
        x = ev.Front(lon, lat, front_code=e.front_code, major_color=e.major_color, minor_color=e.minor_color,
                     smooth=e.smooth, pip_size=e.pip_size, pip_stroke=e.pip_stroke, pip_direction=e.pip_direction)
    elif kind == 'SpecialText':
        x = ev.SpecialText(lon, lat, e.text, text_color=e.text_color, size=round(e.size * 14), font=e.font,
                           text_type=e.text_type, align=e.align, edgecolor=e.line_color, facecolor=e.fill_color,
                           rotation=e.rotation, offset_x=e.offset_x, offset_y=e.offset_y,
                           turbulence_symbol=e.turbulence_symbol)
    else:
        x = getattr(ev, kind)(lon, lat, symbol_code=int(e.symbol_code), color=e.major_color, width=e.width,
                              size=e.size, offset_x=e.offset_x, offset_y=e.offset_y)
    x.group_type, x.group_number = e.group_type, e.group_number
    return x


def vgf_case(mon, rng):
    specs = []
    for _ in range(rng.choice([1, 3, 8])):
        s = vgw.spec(rng)
        if s[0] == 'SpecialText' and ('\n' in s[1]['text'] or not s[1]['text'].strip()):
            continue
        specs.append(s)
    v = vgw.vgfile(mon, specs)
    if v is None:
        return
    data, err = vgw.write(mon, v)
    r, err = mon.run(VectorGraphicFile, mon.put(data, '.vgf')) if not err else (None, err)
    if err:
        mon.fail('vgf-raised', err)
        return
    b = ev.VGFile()
    for s, e in zip(specs, r.elements):
        x, err = mon.run(rebuilt, e, s[0])
        if err:
            mon.fail(f'{s[0]}-rebuild-raised', f'{err}: {s[0]} {dict(view(e, s[0]))}')
            return
        b.add_element(x)
    data2, err = vgw.write(mon, b)
    n, err = mon.run(VectorGraphicFile, mon.put(data2, '.vgf')) if not err else (None, err)
    if err:
        mon.fail('vgf-rewrite-raised', err)
        return
    if len(n.elements) != len(specs):
        mon.fail('vgf-count', f'{len(specs)} before, {len(n.elements)} after')
        return
    for s, e, f in zip(specs, r.elements, n.elements):
        mon.seen('elements')
        a, c = view(e, s[0]), view(f, s[0])
        if s[0] == 'SpecialText' and s[1]['text'] != s[1]['text'].strip():  # shown without its outer blanks
            a, c = ([y for y in x if y[0] != 'record_size'] for x in (a, c))
        if any(x != y and not (x[0][:4] in ('min_', 'max_') and abs(x[1] - y[1]) < 0.0101) for x, y in zip(a, c)):
            bad = [(x, y) for x, y in zip(a, c) if x != y]
            mon.fail(f'vgf-{s[0]}', f'{bad[0][0]} became {bad[0][1]} ({[x[0][0] for x in bad]})')
            return
    mon.key('vgf', tuple(sorted({s[0] for s in specs})))
    mon.sample = {'kind': 'vgf', 'elements': len(specs)}
