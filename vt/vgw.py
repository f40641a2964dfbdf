"""Random vector graphic content for the writer: (class name, keyword arguments)."""
import struct

import numpy as np
from gempakio.encode import vgf as ev
from vt import gen

KINDS = ['Line', 'Front', 'SpecialLine', 'SpecialText', 'SpecialSymbol', 'Marker']
SIZES = [10, 12, 14, 18, 24, 34]
FONTS = [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33]


def coords(rng, n):
    g = gen.nprng(rng)
    k = rng.random()
    if k < 0.6:
        lon, lat = g.uniform(-180, 180, n), g.uniform(-90, 90, n)
    elif k < 0.8:
        lon, lat = np.round(g.uniform(-130, -60, n), 2), np.round(g.uniform(20, 55, n), 2)
    else:
        lon, lat = g.integers(-180, 181, n).astype(float), g.integers(-90, 91, n).astype(float)
    form = rng.choice(['f8', 'f8', 'f4', 'list', 'tuple'])
    if form == 'f4':
        return lon.astype('f4'), lat.astype('f4')
    if form == 'list':
        return lon.tolist(), lat.tolist()
    if form == 'tuple':
        return tuple(lon.tolist()), tuple(lat.tolist())
    return lon, lat


def npoints(rng):
    return rng.choice([2, 2, 3, 4, 5, 10, 30]) if rng.random() < 0.93 else rng.choice([100, 499, 500])


def spec(rng, kind=None):
    kind = kind or rng.choice(KINDS)
    d = {}

    def opt(name, value, p=0.6):
        if rng.random() < p:
            d[name] = value
    if kind in ('Line', 'SpecialLine', 'Front'):
        d['lon'], d['lat'] = coords(rng, npoints(rng))
    else:
        d['lon'], d['lat'] = (rng.choice([rng.uniform(-180, 180), rng.randint(-180, 180)]),
                              rng.choice([rng.uniform(-90, 90), rng.randint(-90, 90)]))
    if kind == 'Line':
        d.update(color=rng.randint(0, 32), line_type=rng.randint(0, 99), closed=rng.randint(0, 1))
        opt('filled', rng.randint(0, 8))
        opt('smooth', rng.randint(0, 2))
        opt('width', rng.randint(1, 10))
    elif kind == 'SpecialLine':
        d.update(color=rng.randint(0, 32), line_type=rng.randint(1, 26), closed=rng.randint(0, 1))
        opt('filled', rng.randint(0, 8))
        opt('smooth', rng.randint(0, 2))
        opt('width', rng.randint(1, 10))
        opt('size', rng.choice([0.1, 10, 1, 2.5, round(rng.uniform(0.1, 10), 2)]))
        opt('direction', rng.choice([1, -1]))
        if d['line_type'] in (24, 25):
            d['stroke'] = rng.randint(25, 75)
        else:
            opt('stroke', rng.randint(1, 80), 0.2)
    elif kind == 'Front':
        d.update(front_code=rng.choice([rng.randint(0, 999), 420, 20, 728]), major_color=rng.randint(0, 32))
        opt('minor_color', rng.choice([None, rng.randint(0, 32)]))
        opt('smooth', rng.randint(0, 2))
        opt('pip_size', rng.randint(40, 500))
        opt('pip_stroke', rng.randint(1, 9))
        opt('pip_direction', rng.choice([1, -1]))
    elif kind == 'SpecialText':
        n = rng.choice([0, 1, 3, 12, 40, 254])
        pool = gen.LETTERS + 'abcxyz0123456789 .,:;-+/()'
        t = ''.join(rng.choice(pool) for _ in range(n))
        if n > 3 and rng.random() < 0.15:
            t = t[:n // 2] + '\n' + t[n // 2 + 1:]
        if n >= 3 and rng.random() < 0.35:
            t = t[:n // 2] + rng.choice(['°', 'é', 'ß', 'µ', '日', '–']) + t[n // 2 + 1:]
        while len(t.encode()) > 254:
            t = t[:-1]
        d.update(text=t, text_color=rng.randint(0, 32))
        opt('size', rng.choice(SIZES))
        opt('text_type', rng.randint(0, 16))
        opt('font', rng.choice(FONTS))
        opt('align', rng.choice([-1, 0, 1]))
        opt('edgecolor', rng.choice([None, rng.randint(0, 32)]))
        opt('facecolor', rng.choice([None, rng.randint(0, 32)]))
        opt('rotation', rng.choice([0, 45, 90.5, -30]))
        opt('offset_x', rng.randint(-50, 50))
        opt('offset_y', rng.randint(-50, 50))
        opt('turbulence_symbol', rng.randint(0, 8))
    else:
        d.update(symbol_code=rng.randint(1, 41 if kind == 'SpecialSymbol' else 24),
                 color=rng.randint(0, 32))
        opt('width', rng.randint(1, 10))
        opt('size', rng.choice([0.1, 10, 1, 2.5, round(rng.uniform(0.1, 10), 2)]))
        opt('offset_x', rng.randint(-50, 50))
        opt('offset_y', rng.randint(-50, 50))
    after = {}
    if rng.random() < 0.4:
        after['group_type'] = rng.choice([0, 1, 8, 255, rng.randint(0, 255)])
        after['group_number'] = rng.choice([0, 1, 70000, rng.randint(0, 2 ** 31 - 1)])
    return kind, d, after


def make(mon, s):
    """(element, error)"""
    kind, d, after = s

    def build():
        e = getattr(ev, kind)(**d)
        for k, v in after.items():
            setattr(e, k, v)
        return e
    return mon.run(build)


def vgfile(mon, specs):
    """VGFile of freshly built elements, or None after reporting."""
    v = mon.must('VGFile', ev.VGFile)
    for s in specs:
        e, err = make(mon, s)
        if err:
            mon.fail(f'{s[0]}-raised', (err, {k: x for k, x in s[1].items() if k not in ('lon', 'lat')}))
            return None
        v.add_element(e)
    return v


def write(mon, v):
    p = mon.path('.vgf')
    _, err = mon.run(v.to_vgf, p)
    if err:
        return None, err
    with open(p, 'rb') as f:
        return f.read(), None


# ------------------------------------------------ reference encoder (GEMPAK vgstruct.h)
CODES = {'Line': (3, 1), 'Front': (1, 2), 'SpecialLine': (3, 20), 'SpecialText': (5, 21),
         'SpecialSymbol': (4, 15), 'Marker': (4, 19)}
BODY = {
    'Line': ['number_points', 'line_type', 'line_type_hardware', 'width', 'line_width_hardware'],
    'Front': ['number_points', 'front_code', 'pip_size', 'pip_stroke', 'pip_direction', 'width', 'label:4s'],
    'SpecialLine': ['number_points', 'line_type', 'stroke', 'direction', 'size:f', 'width'],
    'SpecialText': ['rotation:f', 'text_size:f', 'text_type', 'turbulence_symbol', 'font', 'text_flag', 'width',
                    'text_color', 'line_color', 'fill_color', 'align', 'lat:f', 'lon:f', 'offset_x', 'offset_y'],
    'SpecialSymbol': ['number_symbols', 'width', 'size:f', 'symbol_type', 'symbol_code:f', 'lat:f', 'lon:f',
                      'offset_x', 'offset_y'],
}
BODY['Marker'] = BODY['SpecialSymbol']
HEAD = ['delete:B', 'vg_type:B', 'vg_class:B', 'filled:b', 'closed:B', 'smooth:B', 'version:B', 'group_type:B',
        'group_number', 'major_color', 'minor_color', 'record_size', 'min_lat:f', 'min_lon:f', 'max_lat:f',
        'max_lon:f']


def f32(x):
    return np.asarray(x, dtype='f8').astype('f4')


class Model:
    """Documented content of an element: constructor defaults, then attribute changes."""

    def __init__(self, kind, d):
        self.kind = kind
        f = self.f = dict.fromkeys(('delete', 'filled', 'closed', 'smooth', 'version', 'group_type',
                                    'group_number', 'line_type_hardware', 'line_width_hardware',
                                    'symbol_type', 'rotation', 'offset_x', 'offset_y',
                                    'turbulence_symbol', 'text_type', 'align'), 0)
        f['vg_class'], f['vg_type'] = CODES[kind]
        self.lon, self.lat = f32(np.atleast_1d(d['lon'])), f32(np.atleast_1d(d['lat']))
        self.point = kind in ('SpecialText', 'SpecialSymbol', 'Marker')
        f['number_points'] = len(self.lon)
        f['lon'], f['lat'] = self.lon[0], self.lat[0]
        color = d.get('color', d.get('text_color', d.get('major_color')))
        f['major_color'] = f['minor_color'] = color
        for k in ('filled', 'closed', 'smooth', 'rotation', 'offset_x', 'offset_y', 'text_type', 'align',
                  'symbol_code', 'line_type'):
            if k in d:
                f[k] = d[k]
        f['width'] = d.get('width', 2 if kind in ('Line', 'SpecialLine') else 1)
        f['size'] = d.get('size', 1)
        f['number_symbols'] = 1
        if kind == 'SpecialLine':
            f['direction'] = d.get('direction', 1)
            f['stroke'] = d['stroke'] if d['line_type'] in (24, 25) else 1
        elif kind == 'Front':
            f.update(pip_size=d.get('pip_size', 100), pip_stroke=d.get('pip_stroke', 1),
                     pip_direction=d.get('pip_direction', 1), label=b'SPC', smooth=d.get('smooth', 2))
            if d.get('minor_color') is not None:
                f['minor_color'] = d['minor_color']
            self.set('front_code', d['front_code'])
        elif kind == 'SpecialText':
            f.update(text_color=color, line_color=color, fill_color=color, text_flag=2,
                     font=d.get('font', 22), points=d.get('size', 12),
                     turbulence_symbol=d.get('turbulence_symbol', 0))
            if d.get('edgecolor') is not None:
                f['line_color'] = d['edgecolor']
            if d.get('facecolor') is not None:
                f['fill_color'] = d['facecolor']
            self.text = d['text']

    def set(self, name, value):
        f = self.f
        if name == 'front_code':
            f['front_code'], f['width'] = int(value), int(value) // 10 % 10
        elif name == 'width' and self.kind == 'Front':
            c = f['front_code']
            f['front_code'], f['width'] = c // 100 * 100 + int(value) * 10 + c % 10, int(value)
        elif name == 'text_type':
            f['text_type'], f['turbulence_symbol'] = value, 0
        elif name == 'size' and self.kind == 'SpecialText':
            f['points'] = value
        elif name == 'edgecolor':
            f['line_color'] = value
        elif name == 'facecolor':
            f['fill_color'] = value
        elif name == 'flip':
            k = 'pip_direction' if self.kind == 'Front' else 'direction'
            f[k] = -f[k]
        else:
            assert name in f, name
            f[name] = value

    def bytes(self):
        f = self.f
        tail = (self.text.encode() + b'\0' if self.kind == 'SpecialText' else b'' if self.point else
                self.lat.astype('>f4').tobytes() + self.lon.astype('>f4').tobytes())
        if self.kind == 'SpecialText':
            f['text_size'] = f['points'] / 14
        body = _pack(BODY[self.kind], f) + tail
        h = dict(f, record_size=40 + len(body), min_lat=min(self.lat), max_lat=max(self.lat),
                 min_lon=min(self.lon), max_lon=max(self.lon))
        return _pack(HEAD, h) + body


def _pack(names, f):
    out = b''
    for n in names:
        n, _, c = n.partition(':')
        v = f[n]
        c = c or 'i'
        out += struct.pack('>' + c, float(v) if c == 'f' else v if c == '4s' else int(v))
    return out


# ------------------------------------------------ documented value rules
COLOR = (lambda r: r.randint(0, 32), [-1, 33, 255, -32])


def _ints(a, b, *bad):
    return (lambda r: r.choice([a, b, r.randint(a, b)]), [a - 1, b + 1, *bad])


def _size():
    return (lambda r: r.choice([0.1, 10, 1, round(r.uniform(0.1, 10), 3)]), [0.09, 0, -1, 10.01, 20, -0.1, float('nan')])


def _of(values, bad):
    return (lambda r: r.choice(values), bad)


_HEADER = {'closed': _ints(0, 1, 9), 'filled': _ints(0, 8, 55), 'smooth': _ints(0, 2, 20),
           'group_type': (lambda r: r.choice([0, 1, 255, r.randint(0, 255)]), [-1, -200]),
           'group_number': (lambda r: r.choice([0, 1, 2 ** 31 - 1, r.randint(0, 10 ** 6)]), [-1, -70000]),
           'major_color': COLOR, 'minor_color': COLOR}
_OFFS = {'offset_x': (lambda r: r.randint(-500, 500), []), 'offset_y': (lambda r: r.randint(-500, 500), [])}
_SYM = {'width': _ints(1, 10, -1, 20, float('nan')), 'size': _size(), **_OFFS}
RULES = {
    'Line': {**_HEADER, 'width': _ints(1, 10, -1, 20, float('nan'), float('inf')), 'line_type': _ints(0, 99, -5, 1000)},
    'SpecialLine': {**_HEADER, 'width': _ints(1, 10, -1, 20, float('nan'), float('inf')), 'line_type': _ints(1, 26, -5, 99), 'size': _size(),
                    'direction': _of([1, -1], [0, 2, -2, 50])},
    'Front': {**_HEADER, 'front_code': _ints(0, 999, -20, 4200), 'pip_size': _ints(40, 500, 0, -100),
              'pip_stroke': (lambda r: r.randint(1, 9), [0, -1]), 'pip_direction': _of([1, -1], [0, 2]),
              'width': _ints(1, 8, -1, 20)},
    'SpecialText': {**_HEADER, 'size': _of(SIZES, [0, 11, 13, 50, 35, -10]),
                    'font': _of(FONTS, [0, 4, 8, 14, 34, 41, -1]), 'align': _of([-1, 0, 1], [-2, 2, 8]),
                    'text_color': COLOR, 'edgecolor': COLOR, 'facecolor': COLOR, 'text_type': _ints(0, 16, 20),
                    'turbulence_symbol': (lambda r: r.randint(0, 8), []),
                    'rotation': (lambda r: r.choice([0, 45, -30.5, 359]), []), **_OFFS},
    'SpecialSymbol': {**_HEADER, **_SYM, 'symbol_code': _ints(0, 41, -5, 100)},
    # whether 0 is a marker is not settled by the documentation ([0, 24] vs codes from 1)
    'Marker': {**_HEADER, **_SYM, 'symbol_code': _of(list(range(1, 25)), [-1, 25, 100])},
}
for _rules in RULES.values():  # not numbers, or no whole numbers where there are only codes
    for _k, (_good, _bad) in list(_rules.items()):
        if not _bad:
            continue
        _bad = _bad + ['1', 'x'] + [None] * (_k not in ('minor_color', 'edgecolor', 'facecolor'))
        if _k in ('closed', 'filled', 'smooth', 'major_color', 'minor_color', 'text_color', 'edgecolor', 'facecolor',
                  'font', 'align', 'direction', 'pip_direction', 'pip_size', 'front_code', 'text_type', 'symbol_code'):
            _bad = _bad + [0.5, 1.5]
        _rules[_k] = (_good, _bad)
# constructor parameters under their own names
CTOR = {
    'Line': ['closed', 'filled', 'smooth', 'width', 'line_type'],
    'SpecialLine': ['closed', 'filled', 'smooth', 'width', 'line_type', 'size', 'direction'],
    'Front': ['front_code', 'smooth', 'pip_size', 'pip_stroke', 'pip_direction', 'minor_color'],
    'SpecialText': ['size', 'font', 'align', 'text_color', 'edgecolor', 'facecolor', 'text_type'],
    'SpecialSymbol': ['width', 'size', 'symbol_code'], 'Marker': ['width', 'size', 'symbol_code'],
}
COLORARG = {'Line': 'color', 'SpecialLine': 'color', 'Front': 'major_color', 'SpecialText': 'text_color',
            'SpecialSymbol': 'color', 'Marker': 'color'}


def changes(rng, kind, n):
    """Random admissible attribute changes: [(name, value)]; ('flip', None) flips."""
    out = []
    for _ in range(n):
        if kind in ('Front', 'SpecialLine') and rng.random() < 0.15:
            out.append(('flip', None))
            continue
        k = rng.choice(list(RULES[kind]))
        v = RULES[kind][k][0](rng)
        if kind == 'SpecialLine' and k == 'line_type' and v in (24, 25):
            v = 1  # the stroke of kink lines can be given to the constructor only
        if isinstance(v, int) and rng.random() < 0.15:
            v = np.int64(v)
        out.append((k, v))
    return out


def apply(e, change):
    name, value = change
    if name == 'flip':
        e.flip()
    else:
        setattr(e, name, value)
