"""C18: vector graphics elements survive write + read."""
import numpy as np
from gempakio.encode import vgf as ev
from vt import vgw

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: random element collections and edit histories written by VGFile, every decoded attribute and coordinate compared with a reference model of what was put in'
RULE = 'distinct (element kind, closed, direction, point-count class, text class, number of later changes) seen by the element monitor'
ASSUMPTIONS = ['coordinates are finite; text without NUL; the reader strips surrounding blanks and shows $$ as a line break']
QUICK = 12000
THOROUGH = 180000
REQUIRE = {'elements': 2500, 'points': 10000, 'closed_lines': 100, 'flipped': 100, 'text_nonascii': 50,
           'changed': 300, 'rewrites': 100, 'points_500': 5, **{f'kind_{k}': 100 for k in vgw.KINDS}}
CLS = {'Line': 'LineElement', 'Front': 'FrontElement', 'SpecialLine': 'SpecialLineElement',
       'SpecialText': 'SpecialTextElement', 'SpecialSymbol': 'SymbolElement', 'Marker': 'SymbolElement'}
COMMON = ['delete', 'vg_class', 'vg_type', 'filled', 'closed', 'smooth', 'group_type', 'group_number',
          'major_color', 'minor_color', 'version']
ATTRS = {
    'Line': ['number_points', 'line_type', 'width', 'line_type_hardware', 'line_width_hardware'],
    'Front': ['number_points', 'front_code', 'pip_size', 'pip_stroke', 'pip_direction', 'width'],
    'SpecialLine': ['number_points', 'line_type', 'stroke', 'direction', ('size', 1), 'width'],
    'SpecialText': [('rotation', 1), ('size', 3), 'text_type', 'turbulence_symbol', 'font', 'text_flag',
                    'width', 'text_color', 'line_color', 'fill_color', 'align', 'offset_x', 'offset_y'],
    'SpecialSymbol': ['number_symbols', 'width', ('size', 1), 'symbol_type', 'symbol_code', 'offset_x', 'offset_y'],
}
ATTRS['Marker'] = ATTRS['SpecialSymbol']


def near(a, b, digits):
    return abs(float(a) - float(b)) <= 0.5 * 10 ** -digits * 1.0001 + 1e-6 * abs(float(b))


def differs(e, m):
    """First difference between a decoded element and the model of what was written."""
    if type(e).__name__ != CLS[m.kind]:
        return f'read as {type(e).__name__}'
    f = m.f
    if m.kind == 'SpecialText':
        f['size'] = f['points'] / 14
    for a in COMMON + ATTRS[m.kind]:
        a, d = a if isinstance(a, tuple) else (a, None)
        got = getattr(e, a, 'absent')
        if got == 'absent' or (got != f[a] if d is None else not near(got, f[a], d)):
            return f'{a}: {got!r}, written {f[a]!r}'
    lat, lon = m.lat, m.lon
    if not m.point:
        if f['closed'] and len(lat) > 2 and m.kind != 'Front':
            lat, lon = np.append(lat, lat[0]), np.append(lon, lon[0])
        if m.kind == 'SpecialLine' and f['direction'] == -1:
            lat, lon = lat[::-1], lon[::-1]
    for nm, want in (('lat', lat), ('lon', lon)):
        got = np.atleast_1d(np.asarray(getattr(e, nm), dtype=float))
        if got.shape != want.shape:
            return f'{len(got)} {nm} values, written {len(want)}'
        bad = np.abs(got - want) > 0.005001 + 1e-6 * np.abs(want)
        if bad.any():
            k = int(np.argmax(bad))
            return f'{nm}[{k}]: {got[k]!r}, written {want[k]!r}'
        for ext, fn in (('min', min), ('max', max)):
            v = getattr(e, f'{ext}_{nm}')
            if not near(v, fn(want), 2):
                return f'{ext}_{nm}: {v!r}, written {fn(want)!r}'
    if m.kind == 'SpecialText':
        want = m.text.replace('$$', '\n').strip()
        if e.text != want:
            return f'text: {e.text!r}, written {m.text!r}'
    if m.kind == 'Front' and e.label != 'SPC':
        return f'label {e.label!r}'
    return None


def compare(mon, v, models, what):
    from gempakio import VectorGraphicFile
    p = mon.path('.vgf')
    _, err = mon.run(v.to_vgf, p)
    if err:
        mon.fail(f'{what}-write-raised', (err, [m.kind for m in models]))
        return False
    r, err = mon.run(VectorGraphicFile, p)
    if err:
        mon.fail(f'{what}-read-raised', (err, [m.kind for m in models]))
        return False
    if len(r.elements) != len(models):
        mon.fail(f'{what}-count', f'{len(r.elements)} read, {len(models)} written: {[m.kind for m in models]}')
        return False
    h = r.header
    if h is None or not h.gempak_version.startswith('Version') or 'NAWIPS' not in h.notes:
        mon.fail('file-header', h and vars(h))
    for k, (e, m) in enumerate(zip(r.elements, models)):
        mon.seen('elements')
        mon.seen(f'kind_{m.kind}')
        mon.seen('points', len(m.lat))
        d = differs(e, m)
        if d:
            mon.fail(f'{m.kind}', f'{what} element {k} of {len(models)}: {d}')
            return False
    return True


def case(mon, rng, i, tier):
    n = rng.choice([1, 1, 2, 3, 5, 12]) if i % 800 != 21 else rng.choice([130, 260])
    models, elems, label = [], [], []
    for _ in range(n):
        s = vgw.spec(rng)
        e, err = vgw.make(mon, s)
        if err:
            mon.fail(f'{s[0]}-raised', (err, {k: x for k, x in s[1].items() if k not in ('lon', 'lat')}))
            return
        m = vgw.Model(s[0], s[1])
        for k, val in s[2].items():
            m.set(k, val)
        ch = vgw.changes(rng, s[0], rng.randint(1, 4)) if rng.random() < 0.4 else []
        for c in ch:
            _, err = mon.run(vgw.apply, e, c)
            if err:
                mon.fail(f'{s[0]}-set-raised', (c, err))
                return
            m.set(*c)
            mon.seen('changed')
        models.append(m)
        elems.append(e)
        note(mon, m, len(ch))
    how = rng.choice(['add', 'from'])
    if how == 'from':
        v = mon.must('from_elements', ev.VGFile.from_elements, *elems)
    else:
        v = ev.VGFile()
        for e in elems:
            v.add_element(e)
    if v is None or not compare(mon, v, models, 'first'):
        return
    mon.sample = {'kinds': [m.kind for m in models], 'points': [len(m.lat) for m in models]}
    if rng.random() < 0.4:  # change written elements, add more, write again
        for e, m in zip(elems, models):
            for c in vgw.changes(rng, m.kind, rng.randint(0, 2)):
                _, err = mon.run(vgw.apply, e, c)
                if err:
                    mon.fail(f'{m.kind}-set-raised', (c, err))
                    return
                m.set(*c)
        s = vgw.spec(rng)
        e, err = vgw.make(mon, s)
        if err:
            return
        m = vgw.Model(s[0], s[1])
        for k, val in s[2].items():
            m.set(k, val)
        v.add_element(e)
        mon.seen('rewrites')
        compare(mon, v, models + [m], 'again')


def note(mon, m, changed):
    f = m.f
    n = len(m.lat)
    t = '' if m.kind != 'SpecialText' else ('nonascii' if not m.text.isascii() else
                                            'empty' if not m.text else 'long' if len(m.text) > 200 else 'text')
    mon.seen('closed_lines', bool(not m.point and f['closed'] and n > 2))
    mon.seen('flipped', f.get('direction', 1) == -1)
    mon.seen('text_nonascii', t == 'nonascii')
    mon.seen('points_500', n == 500)
    mon.key(m.kind, f['closed'], f.get('direction'), n if n < 6 else n // 100 + 10, t, changed, f.get('line_type'),
            f['text_type'], f['symbol_code'] if m.point and 'symbol_code' in f else None)
