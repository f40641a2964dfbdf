"""C19: every VGF element type and version decodes to the stored fields."""
from vt import vgrec

ID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: independently written VGF records of every type and version, every decoded attribute compared with the stored field'
RULE = 'distinct (record kind, version, closed flag, point-count class, optional parts) seen by the field monitor'
ASSUMPTIONS = ['record layouts as in GEMPAK vgstruct.h, strings in UTF-8']
QUICK = 20000
THOROUGH = 300000
REQUIRE = {'elements': 2000, 'fields': 40000, **{f'kind_{k}': 20 for k in vgrec.KINDS},
           **{f'watch_v{v}': 5 for v in range(7)}, 'sigmet_v0': 5, 'sigmet_v1': 5,
           'track_age0': 5, 'track_age1': 5, 'track_age2': 5}


def read(mon, data):
    from gempakio import VectorGraphicFile
    return mon.run(VectorGraphicFile, mon.put(data, '.vgf'))


def size_class(r):
    n = r.attrs.get('number_points', r.attrs.get('total_points', 0))
    return 0 if n <= 0 else 1 if n == 1 else 2 if n == 2 else 3 if n < 50 else 4


def case(mon, rng, i, tier):
    kinds = list(vgrec.KINDS)
    kind = kinds[i % len(kinds)]
    r = vgrec.record(rng, kind)
    mon.sample = {'kind': kind, 'bytes': len(r.data), 'note': r.note}
    v, err = read(mon, r.data)
    if err:
        mon.fail(f'{kind}-raised', (r.note, err))
        return
    mon.seen(f'kind_{kind}')
    if r.note:
        mon.seen(f'{kind}_{r.note}')
    mon.key(kind, r.note, r.head['closed'], size_class(r), len(r.attrs.get('ww', ((), ()))[1]))
    elems = v.elements
    if kind == 'header':
        if elems:
            mon.fail('header-listed', elems)
        elems = [v.header]
    if len(elems) != (r.cls is not None):
        mon.fail(f'{kind}-count', f'{len(elems)} elements from one {kind} {r.note} record')
        return
    for e in elems:
        mon.seen('elements')
        mon.seen('fields', len(r.attrs))
        d = vgrec.element_differs(e, r)
        if d and kind == 'sigmet' and d.startswith('status:') and e.status == r.attrs['area']:
            # every other field still has to be right
            d2 = vgrec.element_differs(e, vgrec.without(r, 'status'))
            mon.fail(f'{kind}-field' if d2 else 'sigmet-status-is-area', f'{r.note} {d2 or d}')
        elif d:
            mon.fail(f'{kind}-field', f'{r.note} {d}')
        if kind in ('front', 'line', 'special_line', 'circle', 'sigmet', 'gfa', 'watch') \
                and size_class(r) > 1:
            lat, lon = r.attrs['lat'][1], r.attrs['lon'][1]
            b, err = mon.run(lambda: e.bounds)
            want = (min(lat), min(lon), max(lat), max(lon))
            if err or any(abs(a - c) > 0.0051 + 1e-6 * abs(c) for a, c in zip(b, want)):
                mon.fail('element-bounds', (kind, b or err, want))
            mon.seen('bounds')
