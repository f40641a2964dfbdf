"""C26: named codes are the numbers GEMPAK's tables give, in what is written and in what is read."""
import struct

import numpy as np
import pyproj
from vt import codes, dm, vgrec

ID = 'C26'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: every published code name used in a written file and every stored number '
             'in a read one, the bytes and the decoded names compared with a frozen copy of the code tables')
RULE = 'distinct (vocabulary, name or number, way it was used) seen by the code monitor'
ASSUMPTIONS = ['names added to the tables later are not judged']
QUICK = 4000
THOROUGH = 40000
ENC = [(t, n) for t, d in codes.ENCODE.items() for n in d]
SIZES = list(codes.FONT_SIZE)
REQUIRE = {'encoded': 1000, 'decoded_names': 1000, 'file_codes': 500, 'coordinates': 200,
           **{f'enc_{t}': 30 for t in codes.ENCODE}, 'enc_FontSizeCodes': 20,
           **{f'dec_{t}': 20 for t in ('LineType', 'SpecialLineType', 'MarkerType', 'ListType', 'FrontType',
                                       'FrontIntensity', 'FrontCharacter', 'Basin', 'Severity', 'StormType',
                                       'AdvisoryType', 'SpecialGeography', 'TropicalWatchWarningLevel')}}
LL = dict(lon=[-100., -95., -90.], lat=[40., 42., 41.])
PT = dict(lon=-100., lat=40.)


def build(ev, table, v, rng):
    """(element using the code, (offset, struct format) of where the number has to be in the record)"""
    color = rng.randint(0, 32)
    if table == 'ColorCodes':
        how = rng.choice(['line', 'text', 'edge', 'face', 'minor', 'set'])
        if how == 'line':
            return ev.Line(**LL, color=v, line_type=1, closed=0), 12
        if how == 'set':
            e = ev.Line(**LL, color=color, line_type=1, closed=0)
            e.major_color = v
            return e, 12
        if how == 'minor':
            return ev.Front(**LL, front_code=420, major_color=color, minor_color=v), 16
        e = ev.SpecialText(**PT, text='A', text_color=v if how == 'text' else color,
                           edgecolor=v if how == 'edge' else color, facecolor=v if how == 'face' else color)
        return e, 40 + 4 * {'text': 7, 'edge': 8, 'face': 9}[how]
    if table == 'FillCodes':
        return ev.Line(**LL, color=color, line_type=1, closed=1, filled=v), (3, '>b')
    if table == 'FontCodes':
        return ev.SpecialText(**PT, text='A', text_color=color, font=v), 40 + 16
    if table == 'SpecialTextCodes':
        return ev.SpecialText(**PT, text='A', text_color=color, text_type=v), 40 + 8
    if table == 'FrontCodes':
        return ev.Front(**LL, front_code=v, major_color=color), 40 + 4
    if table == 'LineCodes':
        return ev.Line(**LL, color=color, line_type=v, closed=0), 40 + 4
    if table == 'SpecialLineCodes':
        return ev.SpecialLine(**LL, color=color, line_type=v, closed=0, stroke=rng.randint(25, 75)), 40 + 4
    cls = ev.Marker if table == 'MarkerCodes' else ev.SpecialSymbol
    return cls(**PT, symbol_code=v, color=color), (40 + 16, '>f')


def encoded(mon, rng, k):
    from gempakio.encode import vgf as ev
    total = len(ENC) + len(SIZES)
    k %= total
    if k >= len(ENC):
        name = SIZES[k - len(ENC)]
        hardware, points = codes.FONT_SIZE[name]
        mon.seen('enc_FontSizeCodes')
        mon.key('FontSizeCodes', name)
        s, err = mon.run(getattr, ev.FontSizeCodes, name, None)
        if err or s is None:
            return mon.fail('font-size-name', (name, err))
        if (s.name, s.hardware, s.points) != (name, hardware, points):
            return mon.fail('font-size', (name, s))
        e, err = mon.run(ev.SpecialText, **PT, text='A', text_color=1, size=s.points)
        at, fmt, want = 40 + 4, '>f', points / 14
        table = 'FontSizeCodes'
    else:
        table, name = ENC[k]
        want = codes.ENCODE[table][name]
        mon.seen(f'enc_{table}')
        c, err = mon.run(getattr, getattr(ev, table), name, None)
        if err or c is None:
            return mon.fail('name-gone', (table, name, err))
        r, err = mon.run(build, ev, table, c, rng)
        if err:
            return mon.fail('code-refused', (table, name, err))
        e, at = r
        at, fmt = at if isinstance(at, tuple) else (at, '>i')
        mon.key(table, name, at)
    v = ev.VGFile()
    p = mon.path('.vgf')
    _, err = mon.run(v.add_element, e) if err is None else (0, err)
    _, err = mon.run(v.to_vgf, p) if err is None else (0, err)
    if err:
        return mon.fail('write-raised', (table, name, err))
    data = open(p, 'rb').read()
    first = struct.unpack('>i', data[20:24])[0]  # the file header record comes first
    got, = struct.unpack_from(fmt, data, first + at)
    mon.seen('encoded')
    if abs(got - want) > 1e-6:
        mon.fail('code', f'{table}.{name} written as {got}, GEMPAK {want}')


NAMES = {t: {v: n for n, v in d.items()} for t, d in codes.DECODE.items()}


def decoded(mon, rng, k):
    from gempakio import VectorGraphicFile
    kind = ('front', 'line', 'special_line', 'watch', 'list', 'tca', 'tc_error', 'tc_break')[k % 8]
    if kind not in vgrec.KINDS:
        raise RuntimeError(kind)
    r = vgrec.record(rng, kind)
    v, err = mon.run(VectorGraphicFile, mon.put(r.data, '.vgf'))
    if err or not v.elements:
        return mon.fail('read-raised', (kind, err)) if err else None
    e, = v.elements
    a = r.attrs

    def check(table, number, got):
        want = NAMES[table][number]
        mon.seen('decoded_names')
        mon.seen(f'dec_{table}')
        mon.key(table, number)
        got = getattr(got, 'name', got)
        if got != want:
            mon.fail('name', f'{table} {number} read as {got!r}, GEMPAK {want!r}')
    if kind == 'front':
        for t, n, x in zip(('FrontType', 'FrontIntensity', 'FrontCharacter'), divmods(a['front_code']),
                           ('front_type', 'front_intensity', 'front_character')):
            check(t, n, getattr(e, x, None))
    elif kind == 'line':
        check('LineType', a['line_type'] % 10, getattr(e, 'line_style', None))
    elif kind == 'special_line':
        check('SpecialLineType', a['line_type'], getattr(e, 'line_style', None))
    elif kind == 'watch':
        check('MarkerType', a['marker_type'], getattr(e, 'marker_name', None))
    elif kind == 'list':
        check('ListType', a['list_type'], getattr(e, 'list_type_name', None))
        check('MarkerType', a['marker_type'], getattr(e, 'marker_name', None))
    else:
        if kind != 'tca':
            check('Basin', a['basin'], e.basin)
            check('StormType', a['storm_type'], e.storm_type)
        if 'ww_level' in a:
            check('TropicalWatchWarningLevel', a['ww_level'], e.ww_level)
        for w, (_, q) in zip(getattr(e, 'ww', ()), a['ww'][1] if 'ww' in a else ()):
            check('Severity', q['severity'], w['severity'])
            check('AdvisoryType', q['advisory_type'], w['advisory_type'])
            check('SpecialGeography', q['special_geography'], w['special_geography'])


def divmods(code):
    return code // 100, code // 10 % 10, code % 10


GC = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']
SRC = {v: n for n, v in codes.FILE['DataSource'].items()}
COORD = {v: n for n, v in codes.FILE['VerticalCoordinates'].items()}
TYPES = {v: n for n, v in codes.FILE['ForecastType'].items()}


def files(mon, rng, k):
    import gempakio
    if k % 2:  # numbers in a file -> names
        src = rng.choice([*SRC, 8, 42, 98, 101, 200])
        cells, cols = {}, []
        n = rng.randint(1, 4)
        for j in range(n):
            cv, ft = rng.choice(list(COORD)), rng.randint(0, 3)
            cols.append(dict(zip(GC, [200101, ft * 100000 + 100 * rng.randint(0, 240), 0, 0, 500 + j, -1, cv, 'TMPK', '    ', '    '])))
            cells[(0, j, 0)] = dm.I(2, 2, 0) + dm.F(1., 2., 3., 4.)
        nav = dm.nav_block('CED', 2, 2, (20., -110.), (50., -60.), (0., -90., 0.))
        spec = dm.Spec(3, ['GRID'], GC, [{'GRID': 1}], cols, [dm.Part('GRID', 2, 5, [('GRID', 0, 0, 0)])], cells,
                       nav=nav, source=src)
        g, err = mon.run(gempakio.GempakGrid, mon.put(spec.build(big=rng.random() < .5)))
        if err:
            return mon.fail('grid-raised', (src, cols, err))
        mon.seen('file_codes')
        mon.key('source', src)
        if g.dm_label.data_source.name != SRC.get(src, 'unknown') or g.dm_label.file_type.name != 'grid':
            mon.fail('file-code', (src, g.dm_label.data_source, g.dm_label.file_type))
        info, err = mon.run(g.gdinfo)
        if err or len(info) != n:
            return mon.fail('grid-list', (cols, err or info))
        by = {x.LEVEL1: x for x in info}
        for c in cols:
            x = by.get(c['GLV1'])
            mon.key('coord', c['GVCD'], c['GTM1'] // 100000)
            if x is None or x.COORD.lower() != COORD[c['GVCD']] or \
                    x.TYPE != TYPES[c['GTM1'] // 100000]:
                mon.fail('grid-codes', (c, x))
        return
    # names -> numbers in a written file
    name = list(codes.FILE['VerticalCoordinates'])[k // 2 % len(COORD)]
    given = rng.choice([name, name.upper(), name.title()])
    p = pyproj.Proj(proj='eqc', lon_0=0, R=6371200)
    lon, lat = np.meshgrid(np.arange(-10., -5), np.arange(0., 4))

    def write():
        g = gempakio.GridFile(lon, lat, p)
        g.add_grid(lon + lat, 'TMPK', given, 5, '202001010000')
        f = mon.path()
        g.to_gempak(f)
        return f
    f, err = mon.run(write)
    if err:
        return mon.fail('coordinate-refused', (given, err))
    q = dm.parse(open(f, 'rb').read())
    mon.seen('coordinates')
    mon.key('written', name)
    got = q.cols[0]['GVCD']
    if got != codes.FILE['VerticalCoordinates'][name]:
        mon.fail('coordinate-code', (given, got))


def case(mon, rng, i, tier):
    k = i // 3
    (encoded, decoded, files)[i % 3](mon, rng, k)
