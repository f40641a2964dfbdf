"""Independent writer of VGF records of every type (layouts after GEMPAK's vgstruct.h).

record(rng, kind) -> Rec with the bytes, and what a reader has to return for it:
  cls    class name of the element, None when the record yields no element
  attrs  attribute name -> value;  ('r', x, d): number x to d decimals (exact when d is None);
         strings, ints, enum names as they are; ('seq', [..]) lists of sub-objects or strings;
         ('arr', [..], d) numeric sequences
"""
import datetime as dt
import random
import struct

PREC = {'lat': 2, 'lon': 2}
WORDS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -/.,:+|()_#&*=;!?\'"%@'

LINE_STYLE = ['dotted', 'solid', 'short_dashed', 'medium_dashed', 'long_dash_short_dash',
              'long_dash', 'long_dash_three_short_dash', 'long_dash_dot',
              'long_dash_three_dot', 'extra_long_dash_two_dot']
SPECIAL_LINE = ['', 'ball_chain', 'zigzag', 'scallop', 'pointed_arrow', 'alt_angle_ticks',
                'filled_arrow', 'box_circles', 'two_x', 'filled_circles',
                'line_fill_circle_line', 'tick_marks', 'line_x_line', 'fancy_arrow',
                'fill_circle_x', 'box_x', 'line_circle_line', 'line_caret_line1',
                'line_caret_line2', 'sine_curve', 'arrow_dashed', 'fill_arrow_dash',
                'streamline', 'double_line', 'kink_line1', 'kink_line2', 'z_line']
MARKER = ['none', 'plus_sign', 'octagon', 'triangle', 'box', 'small_x', 'diamond', 'up_arrow',
          'x_bar', 'z_bar', 'y', 'box_diagonals', 'asterisk', 'hourglass', 'star', 'dot',
          'large_x', 'filled_octagon', 'filled_triangle', 'filled_box', 'filled_diamond',
          'filled_star', 'minus_sign', 'tropical_storm', 'hurricane']
LISTS = ['', 'county', 'zone', 'wfo', 'state', 'marine_county']
FRONT_TYPE = ['stationary', 'stationary_aloft', 'warm', 'warm_aloft', 'cold', 'cold_aloft',
              'occluded', 'dryline', 'intertropical', 'convergence']
FRONT_INT = ['unspecified', 'weak_decreasing', 'weak', 'weak_increasing', 'moderate_decreasing',
             'moderate', 'moderate_increasing', 'strong_decreasing', 'strong',
             'strong_increasing']
FRONT_CHAR = ['unspecified', 'frontal_decreasing', 'little_change', 'area_increasing',
              'intertropical', 'forming_suspected', 'quasi_stationary', 'with_waves', 'diffuse',
              'position_doubtful']

ATTRIBUTES = {}


class Rec:
    def __init__(self, kind, data, cls, attrs, head):
        self.kind, self.data, self.cls, self.attrs, self.head = kind, data, cls, attrs, head

    def __repr__(self):
        return f'{self.kind}[{len(self.data)}]'


def f4(x):
    return struct.unpack('>f', struct.pack('>f', x))[0]


def word(rng, n):
    """A string of 0..n characters without surrounding blanks."""
    if n <= 0 or rng.random() < 0.06:
        return ''
    k = n if rng.random() < 0.08 else rng.randint(1, min(n, 40))
    s = ''.join(rng.choice(WORDS) for _ in range(k))
    s = s.strip() or 'X'
    if rng.random() < 0.02:
        t = s[0] + rng.choice(['é', 'ñ', '°', '日本']) + s[1:]
        if len(t.encode()) <= n:
            s = t
    return s


def pad(rng, s, n, junk=True, blanks=True):
    """s in an n-byte field: NUL terminated, arbitrary bytes after the terminator."""
    b = s.encode()
    assert len(b) <= n, (s, n)
    if blanks and rng.random() < 0.1 and len(b) + 2 <= n and s:
        b = b' ' + b  # leading blank
    if len(b) < n:
        rest = n - len(b) - 1
        if blanks and rng.random() < 0.1 and rest and s:
            b += b' '
            rest -= 1
        b += b'\0'
        if junk and rng.random() < 0.4:
            b += bytes(rng.randrange(256) for _ in range(min(rest, 12))) + bytes(max(rest - 12, 0))
        else:
            b += bytes(rest)
    return b


def num(rng, lo=-1000., hi=1000., d=None):
    k = rng.random()
    if k < 0.5:
        x = round(rng.uniform(lo, hi), 2 if d is None else d)
    elif k < 0.9:
        x = rng.uniform(lo, hi)
    else:
        x = rng.choice([0.0, lo, hi, float(int(rng.uniform(lo, hi)))])
    return f4(x)


def integer(rng):
    return rng.choice([0, 1, 2, -1, rng.randint(-99, 99), rng.randint(0, 9999),
                       rng.randint(-2 ** 31, 2 ** 31 - 1)])


class W:
    """Accumulates fields."""

    def __init__(self, rng):
        self.rng, self.b, self.attrs = rng, bytearray(), {}

    def i(self, name, value=None, little=False):
        v = integer(self.rng) if value is None else value
        self.b += struct.pack('<i' if little else '>i', v)
        if name:
            self.attrs[name] = v
        return v

    def f(self, name, d=None, lo=-1000., hi=1000., little=False, value=None):
        v = num(self.rng, lo, hi, d) if value is None else f4(value)
        self.b += struct.pack('<f' if little else '>f', v)
        if name:
            self.attrs[name] = ('r', v, d)
        return v

    def s(self, name, n, value=None, full=True, blanks=True):
        v = word(self.rng, n if full and self.rng.random() < 0.3 else n - 1) if value is None \
            else value
        self.b += pad(self.rng, v, n, blanks=blanks)
        if name:
            self.attrs[name] = v
        return v

    def lat(self, name='lat', d=2, little=False):
        return self.f(name, d, -90., 90., little)

    def lon(self, name='lon', d=2, little=False):
        return self.f(name, d, -180., 360. if self.rng.random() < 0.1 else 180., little)

    def skip(self, n):
        if n > 0:
            if self.rng.random() < 0.3:
                self.b += (bytes(self.rng.randrange(256) for _ in range(16)) * (n // 16 + 1))[:n]
            else:
                self.b += bytes(n)

    def floats(self, v, little=False):
        self.b += struct.pack(f'{"<" if little else ">"}{len(v)}f', *v)


def points(rng, n):
    """n latitudes and longitudes (single precision)."""
    r = random.Random(rng.getrandbits(64))
    k = rng.random()
    if k < 0.6:
        return ([f4(r.uniform(-90, 90)) for _ in range(n)],
                [f4(r.uniform(-180, 180)) for _ in range(n)])
    d = 2 if k < 0.85 else 0
    return ([f4(round(r.uniform(-90, 90), d)) for _ in range(n)],
            [f4(round(r.uniform(-180, 180), d)) for _ in range(n)])


def count(rng, most, least=1):
    k = rng.random()
    if k < 0.1:
        return least
    if k < 0.2:
        return most
    if k < 0.3:
        return rng.choice([least, min(2, most), min(3, most)])
    return rng.randint(least, min(most, 12))


def latlon(w, n, d=2, names=('lat', 'lon')):
    """Contiguous latitudes then longitudes; recorded as attributes."""
    lat, lon = points(w.rng, n)
    w.floats(lat)
    w.floats(lon)
    if n:
        w.attrs[names[0]] = ('arr', lat, d)
        w.attrs[names[1]] = ('arr', lon, d)
    else:
        w.attrs[names[0]] = ('empty',)
        w.attrs[names[1]] = ('empty',)
    return lat, lon


def close(w):
    for k in ('lat', 'lon'):
        _, v, d = w.attrs[k]
        w.attrs[k] = ('arr', v + v[:1], d)


def sptext(w, keep=('lat', 'lon'), names=None, swapped=False):
    """The special text block (15 words)."""
    nm = lambda k: (names or {}).get(k, k)
    rng = w.rng
    w.f(nm('rotation'), 1, -360, 360)
    w.f(nm('text_size'), 3, 0, 10)
    w.i(nm('text_type'))
    w.i(nm('turbulence_symbol'))
    for k in ('font', 'text_flag', 'width'):
        if swapped:  # stored in the other byte order (see cvgswap.c)
            w.i(nm(k), rng.choice([rng.randint(0, 99), rng.randint(0, 2 ** 31 - 1), 128, -1]), little=True)
        else:
            w.i(nm(k))
    for k in ('text_color', 'line_color', 'fill_color', 'align'):
        w.i(nm(k))
    w.lat(nm('lat'))
    w.lon(nm('lon'))
    w.i(nm('offset_x'))
    w.i(nm('offset_y'))


def text_body(w, name='text', most=400):
    """Text to the end of the record; '$$' stands for a line break."""
    rng = w.rng
    parts = [word(rng, rng.choice([3, 10, 60])) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.08:
        parts[0] = rng.choice(['$5', '$ ', '']) + parts[0]
    if rng.random() < 0.08:
        parts[-1] += rng.choice(['$', ' $', ''])
    if rng.random() < 0.08:
        parts.insert(rng.randint(0, len(parts)), '')
    t = '$$'.join(parts)[:most]
    if rng.random() < 0.1:
        t = t + '°'
    w.attrs[name] = t.replace('$$', '\n').strip()
    b = t.encode()
    k = rng.random()
    if k < 0.5:
        b += b'\0'
    elif k < 0.8:
        b += b'\0' + bytes(rng.randrange(256) for _ in range(rng.randint(0, 9)))
    w.b += b


# ---------------------------------------------------------------- one function per kind
def r_front(w, h):
    n = count(w.rng, 500, 0)
    code = w.rng.randint(0, 999)
    w.i('number_points', n)
    w.i('front_code', code)
    for k in ('pip_size', 'pip_stroke', 'pip_direction', 'width'):
        w.i(k)
    w.s('label', 4)
    latlon(w, n)
    w.attrs.update(front_type=FRONT_TYPE[code // 100], front_intensity=FRONT_INT[code // 10 % 10],
                   front_character=FRONT_CHAR[code % 10])
    return 'FrontElement'


def r_symbol(w, h):
    w.i('number_symbols')
    w.i('width')
    w.f('size', 1, 0, 20)
    w.i('symbol_type')
    w.f(None, value=(c := w.rng.randint(0, 201)))
    w.attrs['symbol_code'] = c
    w.lat()
    w.lon()
    w.i('offset_x')
    w.i('offset_y')
    return 'SymbolElement'


def _line(w, h):
    n = count(w.rng, 500, 0)
    t = w.rng.randint(0, 99)
    w.i('number_points', n)
    w.i('line_type', t)
    for k in ('line_type_hardware', 'width', 'line_width_hardware'):
        w.i(k)
    latlon(w, n)
    w.attrs.update(line_modifier=t // 10, line_style=LINE_STYLE[t % 10])
    return n


def r_circle(w, h):
    _line(w, h)
    return 'CircleElement'


def r_line(w, h):
    n = _line(w, h)
    if n == 0:
        return None
    if h['closed'] and n > 2:
        close(w)
    return 'LineElement'


def r_special_line(w, h):
    n = count(w.rng, 500, 0)
    t = w.rng.randint(1, 26)
    w.i('number_points', n)
    w.i('line_type', t)
    w.i('stroke')
    d = w.i('direction', w.rng.choice([1, -1, 0]))
    w.f('size', 1, 0, 20)
    w.i('width')
    latlon(w, n)
    w.attrs['line_style'] = SPECIAL_LINE[t]
    if n == 0:
        return None
    if h['closed'] and n > 2:
        close(w)
    if d == -1:
        for k in ('lat', 'lon'):
            _, v, p = w.attrs[k]
            w.attrs[k] = ('arr', v[::-1], p)
    return 'SpecialLineElement'


def r_list(w, h):
    rng = w.rng
    n = count(rng, 500, 0)
    t, m = rng.randint(1, 5), rng.randint(0, 24)
    w.i('list_type', t)
    w.i('marker_type', m)
    w.f('marker_size', 1, 0, 20)
    w.i('marker_width')
    w.i('number_items', n)
    items = []
    for _ in range(n):
        s = ''.join(rng.choice('ABCDEFGHIJ0123456789') for _ in range(rng.randint(1, 8)))
        items.append(s)
        w.b += pad(rng, s, 9, blanks=False)
    w.skip(9 * (500 - n))
    lat, lon = points(rng, n)
    w.floats(lat)
    w.skip(4 * (500 - n))
    w.floats(lon)
    w.skip(4 * (500 - n))
    w.attrs.update(list_items=('seq', items), lat=('arr', lat, None), lon=('arr', lon, None),
                   list_type_name=LISTS[t], marker_name=MARKER[m])
    return 'ListElement'


def r_text(w, h):
    w.f('rotation', 1, -360, 360)
    w.f('size', 3, 0, 10)
    for k in ('font', 'text_flag', 'width', 'align'):
        w.i(k)
    w.lat()
    w.lon()
    w.i('offset_x')
    w.i('offset_y')
    text_body(w)
    return 'TextElement'


def r_special_text(w, h):
    sptext(w, names={'text_size': 'size'})
    text_body(w)
    return 'SpecialTextElement'


def r_track(w, h, age=None):
    """age 0: latest layout; 1: without fonts; 2: without fonts and skip."""
    rng = w.rng
    age = rng.choice([0, 0, 1, 2]) if age is None else age
    n = count(rng, 50, 1 if age else 0)
    w.i('track_type')
    w.i('total_points', n)
    for k in ('initial_points', 'initial_line_type', 'extrapolated_line_type',
              'initial_mark_type', 'extrapolated_mark_type', 'line_width'):
        w.i(k)
    w.f('speed', 2, 0, 200)
    w.f('direction', 2, 0, 360)
    w.i('increment')
    if age < 2:
        w.i('skip', rng.randint(-3, 4))
    else:
        w.attrs['skip'] = 0
    if age < 1:
        w.i('font', rng.randint(0, 33))
        w.i('font_flag')
        w.f('font_size', 1, 0, 20, little=True)
    else:
        w.attrs.update(font=1, font_flag=2, font_size=('r', 1.0, 1))
    times = []
    for _ in range(n):
        t = dt.datetime(rng.randint(1990, 2030), 1, 1) + dt.timedelta(minutes=rng.randint(0, 500000))
        s = t.strftime('%y%m%d/%H%M')
        times.append(s)
        w.b += s.encode() + bytes(18 - len(s))
    w.skip(18 * (50 - n))
    latlon(w, n)
    w.skip(8 * (50 - n))
    w.attrs['times'] = ('seq', times)
    w.note = f'age{age}'
    return 'TrackElement'


def r_sigmet(w, h):
    v = h['version'] = w.rng.randint(0, 1)
    n = count(w.rng, 100, 0)
    w.i('subtype')
    w.i('number_points', n)
    for k in ('line_type', 'line_width', 'side_of_line'):
        w.i(k)
    w.s('area', 8)
    w.s('flight_info_region', 32)
    w.i('status')
    w.f('distance')
    w.s('message_id', 12)
    w.i('sequence_number')
    w.s('start_time', 20)
    w.s('end_time', 20)
    w.s('remarks', 80)
    w.i('sonic')
    w.s('phenomena', 32)
    if v:
        w.s('phenomena2', 32)
        w.s('phenomena_name', 36)
        w.s('phenomena_lat', 8)
        w.s('phenomena_lon', 8)
        w.i('pressure')
        w.i('max_wind')
        w.s('free_text', 256)
    else:
        w.attrs.update(phenomena2='', phenomena_name='', phenomena_lat='', phenomena_lon='',
                       pressure=-9999, max_wind=-9999, free_text='')
    w.s('trend', 8)
    w.s('movement', 8)
    w.i('type_indicator')
    w.s('type_time', 20)
    w.i('flight_level')
    w.i('speed')
    w.s('direction', 4)
    w.s('tops', 80)
    w.s('forecaster', 16)
    lat, lon = points(w.rng, n)
    w.floats(lat)
    w.floats(lon)
    w.attrs.update(lat=('arr', lat, None), lon=('arr', lon, None))
    w.note = f'v{v}'
    return 'SigmetElement'


def r_ccf(w, h):
    n = count(w.rng, 100, 0)
    w.i('subtype')
    w.i('number_points', n)
    for k in ('coverage', 'storm_tops', 'probability', 'growth'):
        w.i(k)
    w.f('speed', 2, 0, 200)
    w.f('direction', 2, 0, 360)
    for k in ('text_lat', 'arrow_lat'):
        w.lat(k, little=True)
        w.lon(k.replace('lat', 'lon'), little=True)
    for k in ('high_fill', 'med_fill', 'low_fill', 'line_type'):
        w.i(k, little=True)
    w.f('arrow_size', 1, 0, 20, little=True)
    sptext(w, names={'lat': None, 'lon': None, 'text_color': None, 'line_color': None},
           swapped=True)
    w.s('text', 255)
    w.skip(1)
    w.s('text_layout', 256, blanks=False)
    latlon(w, n)
    w.skip(8 * (100 - n))
    return 'CollaborativeConvectiveForecastElement'


def r_volcano(w, h):
    w.s('name', 64)
    w.f('code', 1, 0, 200)
    w.f('size', 1, 0, 20)
    w.i('width')
    for k, n in (('number', 17), ('location', 17), ('area', 33), ('origin_station', 17),
                 ('vaac', 33), ('wmo_id', 8), ('header_number', 9), ('elevation', 9), ('year', 9),
                 ('advisory_number', 9), ('correction', 4), ('info_source', 256),
                 ('additional_source', 256), ('aviation_color', 16), ('details', 256),
                 ('obs_date', 16), ('obs_time', 16), ('obs_ash', 1024), ('forecast_6hr', 1024),
                 ('forecast_12hr', 1024), ('forecast_18hr', 1024), ('remarks', 512),
                 ('next_advisory', 128), ('forecaster', 64)):
        w.s(k, n)
    w.skip(3)
    w.lat()
    w.lon()
    w.i('offset_x')
    w.i('offset_y')
    return 'VolcanoElement'


def r_ash(w, h):
    n = count(w.rng, 50, 0)
    w.i('subtype')
    w.i('number_points', n)
    w.f('distance', 2, 0, 500)
    for k in ('forecast_hour', 'line_type', 'line_width', 'side_of_line'):
        w.i(k)
    w.f('speed', 2, 0, 200)
    w.s('speeds', 16)
    w.s('direction', 4)
    w.s('flight_level1', 16)
    w.s('flight_level2', 16)
    sptext(w, names={'lat': 'text_lat', 'lon': 'text_lon'})
    t = word(w.rng, 254)
    w.b += t.encode() + bytes(256 - len(t.encode()))
    w.attrs['text'] = t
    latlon(w, n)
    w.skip(8 * (50 - n))
    return 'AshCloudElement'


def r_gfa(w, h):
    rng = w.rng
    nb, n = rng.randint(0, 3), count(rng, 500, 0)
    w.i('number_blocks', nb)
    w.i('number_points', n)
    blocks = []
    for _ in range(nb):
        s = ''.join(f'<{word(rng, 8)}>{word(rng, 20)}' for _ in range(rng.randint(0, 30)))
        while len(s.encode()) > 1023:
            s = s[:-1]
        s = s.strip()
        w.b += pad(rng, s, 1024)
        blocks.append(s)
    w.attrs['blocks'] = ('seq', blocks)
    latlon(w, n)
    return 'GraphicalForecastAreaElement'


def sub(rng):
    return W(rng)


def r_jet(w, h):
    rng = w.rng
    n, nb, nh = count(rng, 500, 0), count(rng, 50, 0), count(rng, 50, 0)
    a = sub(rng)
    a.i('line_color')
    a.i('number_points', n)
    for k in ('line_type', 'stroke', 'direction'):
        a.i(k)
    a.f('size', 1, 0, 20)
    a.i('width')
    latlon(a, n)
    a.skip(8 * (500 - n))
    w.b += a.b
    w.attrs['line_attribute'] = ('obj', a.attrs)

    def wind(a):
        for k in ('wind_color', 'number_wind', 'width'):
            a.i(k)
        a.f('size', 1, 0, 20)
        a.i('wind_type')
        a.f('head_size', 1, 0, 20)
        a.f('speed', 2, 0, 300)
        a.f('direction', 2, 0, 360)
        a.lat()
        a.lon()
    w.i('number_barbs', nb)
    barbs = []
    for _ in range(nb):
        a = sub(rng)
        wind(a)
        a.i('flight_level_color')
        sptext(a, names={'rotation': 'text_rotation', 'width': 'text_width', 'lat': 'text_lat',
                         'lon': 'text_lon'})
        a.s('text', 255)
        a.skip(1)
        w.b += a.b
        barbs.append(('obj', a.attrs))
    w.skip((50 - nb) * 360)
    w.i('number_hashes', nh)
    hashes = []
    for _ in range(nh):
        a = sub(rng)
        wind(a)
        w.b += a.b
        hashes.append(('obj', a.attrs))
    w.skip((50 - nh) * 40)
    w.attrs.update(barb_attributes=('seq', barbs), hash_attributes=('seq', hashes))
    return 'JetElement'


def _name(rng, n=12):
    k = rng.random()
    if k < 0.15:
        return rng.choice(['TWENTY-ONE', 'ONE-E', 'SAINT LUCIA', "MARY'S PT.", 'NR 5/A', 'X', 'LA ROMANA (DR)'])
    if k < 0.2:
        n = 60
    return ''.join(rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(rng.randint(1, n)))


def r_tca(w, h):
    rng = w.rng
    a = w.attrs
    a.update(storm_number=rng.randint(1, 99), issue_status=rng.choice('OEXTC'),
             basin=rng.randint(0, 3), advisory_number=rng.randint(1, 99), storm_name=_name(rng),
             storm_type=rng.randint(0, 4), timezone=rng.choice(['EDT', 'AST', 'PDT', 'HST']),
             text_font=rng.randint(1, 33), text_width=rng.randint(1, 9))
    t = dt.datetime(2000, 1, 1) + dt.timedelta(minutes=rng.randint(0, 15000000))
    a['valid_time'] = t.strftime('%y%m%d/%H%M')
    la, lo, sz = round(rng.uniform(-60, 60), 2), round(rng.uniform(-180, 180), 2), \
        round(rng.uniform(0, 5), 2)
    a.update(text_lat=('r', la, 2), text_lon=('r', lo, 2), text_size=('r', sz, 2))
    nw = rng.choice([0, 1, 1, 2, 3, 5, 1, 2, 12])
    a['number_ww'] = nw
    s = (f'<tca_stormNum>{a["storm_number"]}<tca_issueStatus>{a["issue_status"]}'
         f'<tca_basin>{a["basin"]}<tca_advisoryNum>{a["advisory_number"]}'
         f'<tca_stormName>{a["storm_name"]}<tca_stormType>{a["storm_type"]}'
         f'<tca_validTime>{a["valid_time"]}<tca_timezone>{a["timezone"]}'
         f'<tca_textLat>{la:.2f}<tca_textLon>{lo:.2f}<tca_textFont>{a["text_font"]}'
         f'<tca_textSize>{sz:.2f}<tca_textWidth>{a["text_width"]}<tca_wwNum>{nw}')
    ww = []
    for k in range(nw):
        sev, adv, geo, nbk = (rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 2),
                              rng.randint(1, 6) if rng.random() < 0.95 else rng.randint(20, 60))
        pts = [(round(rng.uniform(-60, 60), 2), round(rng.uniform(-180, 180), 2),
                _name(rng) + rng.choice(['', '_A', ' BAY'])) for _ in range(nbk)]
        s += (f'<tca_tcawwStr_{k}>{sev}|{adv}|{geo}<tca_numBreakPts_{k}>{nbk}'
              f'<tca_breakPts_{k}>' + '|'.join(f'{x:.2f}|{y:.2f}|{z}' for x, y, z in pts))
        ww.append(('dict', {'severity': sev, 'advisory_type': adv, 'special_geography': geo,
                            'number_breaks': nbk,
                            'break_points': ('seq', [('seq', [('r', x, 2), ('r', y, 2), z])
                                                     for x, y, z in pts])}))
    a['ww'] = ('seq', ww)
    w.b += s.encode() + bytes(rng.choice([0, 1, 1, 5]))
    return 'TropicalCycloneAdvisoryElement'


def _tc(w):
    rng = w.rng
    w.s('storm_number', 5, str(rng.randint(1, 99)))
    w.s('issue_status', 2, rng.choice('OEXTC'))
    w.s(None, 5, str(b := rng.randint(0, 3)))
    w.attrs['basin'] = b
    w.s('advisory_number', 5, rng.choice([str(rng.randint(1, 99)), f'{rng.randint(1, 99)}A']))
    w.s('storm_name', 128, _name(rng) if rng.random() < 0.9 else None)
    w.s(None, 5, str(t := rng.randint(0, 4)))
    w.attrs['storm_type'] = t
    d = dt.datetime(2000, 1, 1) + dt.timedelta(minutes=rng.randint(0, 15000000))
    w.s(None, 21, d.strftime('%y%m%d/%H%M'))
    w.attrs['valid_time'] = d.replace(tzinfo=dt.timezone.utc)
    w.s('timezone', 4, rng.choice(['EDT', 'AST', 'PDT', 'HST']))
    w.s('forecast_period', 5, str(rng.choice([0, 24, 72, 120])))


def r_tc_error(w, h):
    _tc(w)
    n = count(w.rng, 500, 0)
    for k in ('line_color', 'line_type', 'fill_color', 'fill_type'):
        w.i(k)
    w.i('number_points', n)
    latlon(w, n)
    return 'TropicalCycloneErrorElement'


def r_tc_track(w, h):
    rng = w.rng
    _tc(w)
    n = count(rng, 20, 0)
    w.i('line_color')
    w.i('line_type')
    w.i('number_points', n)
    pts = []
    for _ in range(n):
        a = sub(rng)
        a.lat()
        a.lon()
        for k in ('advisory_date', 'tau', 'max_wind', 'wind_gust', 'minimum_pressure',
                  'development_level', 'development_label', 'direction', 'speed', 'date_label',
                  'storm_source'):
            a.s(k, 50)
        a.skip(2)
        w.b += a.b
        pts.append(('obj', a.attrs))
    w.attrs['track_points'] = ('seq', pts)
    return 'TropicalCycloneTrackElement'


def r_tc_break(w, h):
    rng = w.rng
    _tc(w)
    n = count(rng, 20, 0)
    w.i('line_color')
    w.i('line_width')
    w.i('ww_level', rng.randint(0, 3))
    w.i('number_points', n)
    pts = []
    for _ in range(n):
        a = sub(rng)
        a.lat()
        a.lon()
        a.s('name', 256)
        w.b += a.b
        pts.append(('obj', a.attrs))
    w.attrs['breakpoints'] = ('seq', pts)
    return 'TropicalCycloneBreakPointElement'


def r_sgwx(w, h):
    n = count(w.rng, 256, 0)
    w.i('subtype')
    w.i('number_points', n)
    for k in ('text', 'arrow'):
        w.lat(k + '_lat')
        w.lon(k + '_lon')
    for k in ('line_element', 'line_type', 'line_width'):
        w.i(k)
    w.f('arrow_size', 1, 0, 20)
    w.i('special_symbol')
    w.i('weather_symbol')
    sptext(w, names={'rotation': 'text_rotation', 'width': 'text_width', 'align': 'text_align',
                     'lat': None, 'lon': None})
    w.s('text', 255, blanks=False)
    w.skip(1)
    latlon(w, n, names=('area_lat', 'area_lon'))
    w.skip(8 * (256 - n))
    return 'SignificantWeatherElement'


def r_watch(w, h):
    rng = w.rng
    v = h['version'] = rng.randint(0, 6)
    n = count(rng, 30, 0)
    w.i('number_points', n)
    w.i('style')
    if v == 0:
        w.i('watch_type')
        w.i('number')
        w.s('filename', 128)
        w.i('shape')
    else:
        w.i('shape')
    if v == 6:
        m = w.i('marker_type', rng.randint(0, 24))
        w.f('marker_size', 1, 0, 20)
        w.i('marker_width')
    else:
        m = 1
        w.attrs.update(marker_type=1, marker_size=('r', 1.0, 1), marker_width=1)
    w.attrs['marker_name'] = MARKER[m]
    for k in ('anchor0', 'anchor1'):
        if v >= 3:
            w.s(k + '_station', 8)
            w.lat(k + '_lat')
            w.lon(k + '_lon')
            w.i(k + '_distance')
            w.s(k + '_direction', 4)
        else:
            w.attrs.update({k + '_station': '', k + '_lat': ('r', -9999., 2),
                            k + '_lon': ('r', -9999., 2), k + '_distance': ('r', -9999., 2),
                            k + '_direction': ''})
    strings = (('timezone', 4), ('max_hail', 8), ('max_wind', 8), ('max_tops', 8),
               ('mean_storm_direction', 8), ('mean_storm_speed', 8),
               ('states', 80 if v >= 4 else 20), ('adjacent_areas', 80 if v >= 4 else 20),
               ('replacing', 24), ('forecaster', 64))
    wsm = (('wsm_issue_time', 20), ('wsm_expire_time', 20), ('wsm_reference_direction', 32),
           ('wsm_recent_from_line', 128), ('wsm_md_number', 8), ('wsm_forecaster', 64))
    if v >= 1:
        w.i('status')
        w.i('number')
        w.s('issue_time', 20)
        w.s('expire_time', 20)
        w.i('watch_type')
        w.i('severity')
        for k, z in strings:
            w.s(k, z)
        w.s('filename', 128)
        w.i('issue_flag')
        for k, z in wsm:
            w.s(k, z)
    else:
        w.attrs.update(status=0, issue_time=0, expire_time=0, severity=0, issue_flag=0)
        w.attrs.update({k: '' for k, _ in strings + wsm})
    fips, status = [], []
    nc = 0
    if v >= 2:
        most = 200 if v < 5 else 400
        nc = count(rng, most, 0)
        w.i('number_counties', nc)
        w.i('plot_counties')
        r = random.Random(rng.getrandbits(64))

        def ints(name):
            x = [r.randint(0, 99999) for _ in range(nc)]
            w.b += struct.pack(f'>{nc}i', *x)
            w.skip(4 * (most - nc))
            return x
        if v in (2, 3):
            status = ints('status')
        elif v == 4:
            status = ints('status')
            fips = ints('fips')
        else:
            fips = ints('fips')
        lat, lon = points(rng, nc)
        h['_county'] = (lat, lon, most)
        _county(w, lat, lon, nc, most)
    else:
        lat = lon = []
        w.attrs.update(number_counties=0, plot_counties=1)
    w.attrs.update(county_fips=('arr', fips, None), county_status=('arr', status, None),
                   county_lat=('arr', lat, None), county_lon=('arr', lon, None))
    lat, lon = points(rng, n)
    w.floats(lat)
    w.floats(lon)
    w.attrs.update(lat=('arr', lat, None), lon=('arr', lon, None))
    if n > 2:
        close(w)
    w.note = f'v{v}'
    return 'WatchBoxElement'


def _county(w, lat, lon, n, most):
    # GEMPAK's reader packs the two arrays together, the unused rest follows
    w.floats(lat)
    w.floats(lon)
    w.skip(8 * (most - n))


def r_wind(w, h):
    w.i('number_wind')
    w.i('width')
    w.f('size', 1, 0, 20)
    w.i('wind_type')
    w.f('head_size', 1, 0, 20)
    w.f('speed', 2, 0, 300)
    w.f('direction', 2, 0, 360)
    w.lat()
    w.lon()
    return 'WindElement'


def r_header(w, h):
    w.s('gempak_version', 128)
    t = word(w.rng, rng_len(w.rng))
    w.attrs['notes'] = t
    w.b += pad(w.rng, t, 256)
    return 'FileHeaderElement'


def rng_len(rng):
    return rng.choice([10, 60, 255])


def r_unsupported(w, h):
    if (h['vg_class'], h['vg_type']) == (2, 6):
        h['version'] = w.rng.randint(7, 255)
    elif (h['vg_class'], h['vg_type']) == (11, 28):
        h['version'] = w.rng.randint(2, 255)
    w.b += bytes(w.rng.randrange(256) for _ in range(w.rng.choice([0, 1, 4, 40, 300])))
    return None


KINDS = {
    'front': (1, [2], r_front), 'symbol': (4, [5, 10, 11, 12, 13, 14, 15, 16, 19, 25], r_symbol),
    'circle': (12, [4], r_circle), 'line': (3, [1], r_line),
    'special_line': (3, [20], r_special_line), 'list': (14, [34], r_list),
    'text': (5, [17, 18], r_text), 'special_text': (5, [21], r_special_text),
    'track': (10, [26], r_track), 'sigmet': (11, [27, 28, 29, 30, 31], r_sigmet),
    'ccf': (11, [32], r_ccf), 'volcano': (11, [35], r_volcano), 'ash': (11, [36], r_ash),
    'jet': (15, [37], r_jet), 'gfa': (15, [38], r_gfa), 'tca': (15, [39], r_tca),
    'tc_error': (15, [40], r_tc_error), 'tc_track': (15, [41], r_tc_track),
    'tc_break': (15, [42], r_tc_break), 'sgwx': (15, [43], r_sgwx), 'watch': (2, [6], r_watch),
    'wind': (6, [8, 9, 23, 24], r_wind), 'header': (0, [22], r_header),
}
ELEMENTS = [k for k in KINDS if k != 'header']
_SUPPORTED = {(c, t) for c, ts, _ in KINDS.values() for t in ts}
# classes whose records are decoded whatever their type
_ANYTYPE = {1, 4, 6, 10, 14}
UNSUPPORTED = [(c, t) for c in range(17) for t in list(range(1, 3)) + list(range(4, 44))
               if (c, t) not in _SUPPORTED and c not in _ANYTYPE]


def header(rng, cls, typ):
    la = sorted(num(rng, -90, 90) for _ in range(2))
    lo = sorted(num(rng, -180, 180) for _ in range(2))
    if rng.random() < 0.15:
        la[rng.randint(0, 1)] = 0.0
        la.sort()
    k = rng.random()
    if k < 0.2:  # a point
        la[1], lo[1] = la[0], lo[0]
    elif k < 0.3:  # along a parallel or meridian
        v = rng.choice([la, lo])
        v[1] = v[0]
    if rng.random() < 0.1:
        la, lo = [0., 0.], [0., 0.]
    if rng.random() < 0.04:  # an area across the edge of the map
        lo.reverse()
    return {'delete': 0, 'vg_type': typ, 'vg_class': cls, 'filled': rng.randint(-1, 9),
            'closed': rng.randint(0, 1), 'smooth': rng.randint(0, 2),
            'version': rng.randint(0, 6),
            'group_type': rng.choice([0, 0, 1, 2, 8, 12, rng.randint(0, 255)]),
            'group_number': rng.choice([0, 1, 2, 3, 1, 2, -1, -2, -9999, rng.randint(-2 ** 31, 2 ** 31 - 1),
                                         rng.randint(0, 2 ** 31 - 1)]),
            'major_color': rng.randint(0, 32), 'minor_color': rng.randint(0, 32),
            'record_size': None, 'min_lat': la[0], 'min_lon': lo[0], 'max_lat': la[1],
            'max_lon': lo[1]}


def pack_header(h):
    return struct.pack('>BBBbBBBBiiiiffff', *[h[k] for k in (
        'delete', 'vg_type', 'vg_class', 'filled', 'closed', 'smooth', 'version', 'group_type',
        'group_number', 'major_color', 'minor_color', 'record_size', 'min_lat', 'min_lon',
        'max_lat', 'max_lon')])


def record(rng, kind, deleted=False, extra=0):
    """One record; extra: unused bytes after the content."""
    if kind == 'unsupported':
        c, t = rng.choice(UNSUPPORTED + [(2, 6)] * 20 + [(11, 28)] * 20)
        fn = r_unsupported
    else:
        c, ts, fn = KINDS[kind]
        t = rng.choice(ts)
    h = header(rng, c, t)
    if deleted:
        h['delete'] = 1
    w = W(rng)
    w.note = ''
    cls = fn(w, h)
    if extra and kind not in ('text', 'special_text', 'header', 'tca'):
        w.b += bytes(rng.randrange(256) for _ in range(extra))
    h['record_size'] = 40 + len(w.b)
    attrs = dict(w.attrs)
    for k in ('delete', 'vg_type', 'vg_class', 'filled', 'closed', 'smooth', 'version',
              'group_type', 'group_number', 'major_color', 'minor_color', 'record_size'):
        attrs[k] = h[k]
    for k in ('min_lat', 'min_lon', 'max_lat', 'max_lon'):
        attrs[k] = ('r', h[k], 2)
    if kind == 'header':
        attrs.pop('version')
        attrs['version'] = h['version']
    r = Rec(kind, pack_header(h) + bytes(w.b), cls, attrs, h)
    r.note = w.note
    return r


# ---------------------------------------------------------------- comparison
def _close(got, x, d):
    try:
        got = float(got)
    except (TypeError, ValueError):
        return False
    tol = 1e-6 * abs(x) + (1e-9 if d is None else 0.5 * 10 ** -d * 1.0001)
    return abs(got - x) <= tol


def differs(got, want, where=''):
    """None, or a description of the first difference."""
    if isinstance(want, tuple):
        tag = want[0]
        if tag == 'r':
            return None if _close(got, want[1], want[2]) else f'{where}: {got!r} stored {want[1]!r}'
        if tag == 'arr':
            try:
                g = list(got)
            except TypeError:
                return f'{where}: {got!r} is no sequence'
            if len(g) != len(want[1]):
                return f'{where}: {len(g)} values, stored {len(want[1])}'
            for k, (a, b) in enumerate(zip(g, want[1])):
                if not _close(a, b, want[2]):
                    return f'{where}[{k}]: {a!r} stored {b!r}'
            return None
        if tag == 'empty':  # no coordinates: missing value or an empty sequence
            try:
                return None if len(got) == 0 else f'{where}: {got!r} stored none'
            except TypeError:
                return None if got in (-9999, None) else f'{where}: {got!r} stored none'
        if tag == 'seq':
            if len(got) != len(want[1]):
                return f'{where}: {len(got)} entries, stored {len(want[1])}'
            for k, (a, b) in enumerate(zip(got, want[1])):
                e = differs(a, b, f'{where}[{k}]')
                if e:
                    return e
            return None
        if tag in ('obj', 'dict'):
            for k, b in want[1].items():
                a = got[k] if tag == 'dict' else getattr(got, k)
                e = differs(a, b, f'{where}.{k}')
                if e:
                    return e
            return None
        raise AssertionError(tag)
    if isinstance(want, str):
        g = got.name if hasattr(got, 'name') else got
        return None if g == want else f'{where}: {got!r} stored {want!r}'
    if isinstance(want, int) and isinstance(got, str):
        return f'{where}: {got!r} stored {want!r}'
    return None if got == want else f'{where}: {got!r} stored {want!r}'


def element_differs(elem, rec):
    if type(elem).__name__ != rec.cls:
        return f'{type(elem).__name__} for a {rec.kind} record'
    for k, want in rec.attrs.items():
        if not hasattr(elem, k):
            return f'no attribute {k}'
        e = differs(getattr(elem, k), want, k)
        if e:
            return e
    return None


def without(r, *names):
    q = Rec(r.kind, r.data, r.cls, {k: v for k, v in r.attrs.items() if k not in names}, r.head)
    q.note = r.note
    return q
