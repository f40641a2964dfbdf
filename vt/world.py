"""Random GEMPAK files of every kind made by the independent writer, and what they mean.

A World has
    kind     'grid' | 'snd' | 'raob' | 'sfc'
    spec     dm.Spec of the file
    entries  list of Entry in inventory order: info = inventory tuple without the leading slot
             numbers, slot = (row, col), data = reference content (None for raob: see C16)
"""
import datetime as dt
import numpy as np
from vt import dm, gen, refgrid

VCOORD = {0: 'NONE', 1: 'PRES', 2: 'THTA', 3: 'HGHT', 4: 'SGMA', 5: 'DPTH', 6: 'HYBD', 7: 'PVAB', 8: 'PVBL'}
FTYPE = {0: 'analysis', 1: 'forecast', 2: 'guess', 3: 'initial'}
STN_KEYS = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2']
MISS = -9999.0


class Entry:
    def __init__(self, info, slot, data):
        self.info, self.slot, self.data = info, slot, data


class World:
    def __init__(self, kind, spec, entries, tag):
        self.kind, self.spec, self.entries, self.tag = kind, spec, entries, tag
        self.ext = {'grid': '.grd', 'snd': '.snd', 'raob': '.snd', 'sfc': '.sfc'}[kind]


def f32(v):
    return np.asarray(v, np.float64).astype(np.float32)


def make(rng, kind=None, large=False, **kw):
    """large: some hundred entries (any kind but raob)"""
    if large and kind != 'raob':
        kw['large'] = True
    kind = kind or rng.choice(['grid', 'snd', 'raob', 'sfc', 'sfc'])
    return {'grid': grid, 'snd': snd, 'raob': raob, 'sfc': sfc}[kind](rng, **kw)


# ------------------------------------------------------------------ grids

def grid(rng, n=None, simple=False, large=False):
    nx, ny = rng.randint(1, 9), rng.randint(1, 7)
    if large:
        nx, ny, n = min(nx, 3), min(ny, 3), rng.choice([120, 128, 129, 140, 257, 300])
    n = n or rng.choice([1, 2, 3, 5, 8, 14])
    header = rng.choice([2, 2, 2, 3])
    base = gen.rand_dt(rng, 1975, 2060)
    cols, cells, entries = [], {}, []
    names = ['TMPK', 'UREL', 'VREL', 'HGHT', 'PRES', 'P06M', 'OMEG', 'ABCDEFGH', 'RELHUMIDIT12']
    seen = set()
    while len(cols) < n:
        nm = rng.choice(names)
        t = base + dt.timedelta(hours=rng.choice([0, 6, 12, 24]))
        typ = rng.choice([0, 0, 1, 1, 2, 3])
        hh, mm = (t.hour, t.minute) if typ == 0 else (rng.choice([0, 6, 120, 3]), rng.choice([0, 0, 30]))
        if typ == 0:
            gdt = int(t.strftime('%y%m%d'))
            valid = t
        else:
            gdt = int(t.strftime('%m%d%y%H%M'))
            valid = t + dt.timedelta(hours=hh, minutes=mm)
        gtm = typ * 100000 + hh * 100 + mm
        two = rng.random() < 0.25
        t2 = t + dt.timedelta(hours=rng.choice([0, 3, 6]))
        if two:
            if typ == 0:
                gdt2, gtm2 = int(t2.strftime('%y%m%d')), t2.hour * 100 + t2.minute
                valid2 = t2
            else:
                gdt2, gtm2 = int(t2.strftime('%m%d%y%H%M')), gtm
                valid2 = t2 + dt.timedelta(hours=hh, minutes=mm)
            if gtm2 == 0 and typ == 0:
                two = False
        if not two:
            gdt2, gtm2, valid2 = 0, 0, None
        l1 = rng.choice([0, 500, 850, 1000, 300]) if not large else rng.randint(0, 1050)
        l2 = rng.choice([-1, -1, -1, 0, 700])
        vc = rng.choice([0, 1, 1, 2, 3, 4, 7, 'ETAL'])
        key = (nm, valid, typ, l1, l2, vc, valid2)
        if key in seen:
            continue
        seen.add(key)
        k = len(cols)
        p3 = nm.ljust(12)
        cols.append(dict(GDT1=gdt, GTM1=gtm, GDT2=gdt2, GTM2=gtm2, GLV1=l1, GLV2=l2, GVCD=vc,
                         GPM1=p3[:4], GPM2=p3[4:8], GPM3=p3[8:]))
        packing = rng.choice(['grib', 'none']) if simple else None
        tok, v, tol, tag = refgrid.packed(rng, nx, ny, header, packing=packing)
        cells[(0, k, 0)] = tok
        vcn = vc if isinstance(vc, str) else VCOORD[vc]
        entries.append(Entry((FTYPE[typ], valid, valid2, nm, l1, l2 if l2 >= 0 else None, vcn), (0, k),
                             {'values': v.reshape(ny, nx), 'tol': np.asarray(tol).reshape(ny, nx),
                              'level': l1, 'vcoord': vcn.lower()}))
    nav = dm.nav_block(rng.choice(['CED', 'MER', 'LCC', 'STR']), nx, ny, (20.0, -110.0), (50.0, -60.0),
                       (30.0, -90.0, 0.0))
    if nav[1][1].startswith(b'LCC'):
        nav = dm.nav_block('LCC', nx, ny, (20.0, -110.0), (50.0, -60.0), (30.0, -90.0, 50.0))
    elif not nav[1][1].startswith(b'STR'):
        nav = dm.nav_block(nav[1][1].decode().strip(), nx, ny, (20.0, -110.0), (50.0, -60.0),
                           (0.0, -90.0, 0.0))
    keys = refgrid.GCOLS if rng.random() < 0.9 else rng.sample(refgrid.GCOLS, len(refgrid.GCOLS))
    sp = dm.Spec(3, ['GRID'], keys, [{'GRID': 1}], cols,
                 [dm.Part('GRID', header, 5, [('GRID', 0, 0, 0)])], cells, nav=nav,
                 anl_type=rng.choice([1.0, 2.0, 2.0]))
    return World('grid', sp, entries, ('grid', header))


# ------------------------------------------------------------------ stations and times

def stations(rng, n, long_id=True):
    out = []
    states = ['OK', 'WI', 'CO', '--', '']
    ctry = ['US', 'CA', 'MX']
    for k in range(n):
        sid = gen.name(rng, 3, digits=False) + ('' if rng.random() < 0.6 else gen.name(rng, 1))
        sid = sid[:2] + gen.LETTERS[k % 26] + sid[2:]
        if long_id and len(sid) >= 4 and rng.random() < 0.3:
            sid = sid[:4] + gen.name(rng, rng.randint(1, 4))
        lat = round(rng.uniform(-90, 90), 2)
        lon = round(rng.uniform(-180, 180), 2)
        out.append(dict(STID=sid[:4], STNM=rng.choice([-9999, 72000 + k, k + 1, 999990 + k]),
                        SLAT=round(lat * 100), SLON=round(lon * 100),
                        SELV=rng.choice([-9999, 0, -3, 357, 2200]), STAT=rng.choice(states),
                        COUN=rng.choice(ctry), STD2=sid[4:8]))
    return out


def sinfo(s):
    return (s['STID'].strip() + s['STD2'].strip(), s['STNM'], s['SLAT'] / 100, s['SLON'] / 100, s['SELV'],
            s['STAT'].strip(), s['COUN'].strip())


def times(rng, n, month_safe=False):
    if n > 20:
        base = gen.rand_dt(rng, 1975, 2060).replace(day=rng.randint(1, 20))
        return [base + dt.timedelta(minutes=m) for m in sorted(rng.sample(range(3000), n))]
    base = gen.rand_dt(rng, 1975, 2060)
    if month_safe:
        base = base.replace(day=rng.randint(1, 20))
    out = []
    for _ in range(n * 4):
        t = base + dt.timedelta(minutes=rng.choice([0, 60, 720, 180, 1440, 35, rng.randrange(3000)]))
        if t not in out:
            out.append(t)
        if len(out) == n:
            break
    out.sort()
    if rng.random() < 0.3:  # a file's rows need not be in time order
        rng.shuffle(out)
    return out


def dkeys(t):
    return dict(DATE=int(t.strftime('%y%m%d')), TIME=t.hour * 100 + t.minute)


def occupancy(rng, n, m):
    pairs = [(r, c) for r in range(n) for c in range(m)]
    if rng.random() < 0.6:
        pairs = sorted(rng.sample(pairs, rng.randint(1, len(pairs))))
    return pairs


# ------------------------------------------------------------------ part data

def pack_params(rng, names):
    return [(nm, rng.choice([0, -1, -1, -2, 1, 2, -3]),
             rng.choice([0, 0, -100, 50, 4000, -20000, rng.randint(-1000, 1000)]),
             rng.choice([1, 2, 7, 8, 9, 12, 16, 17, 24, 31, 32, rng.randint(1, 32)])) for nm in names]


def real_params(names):
    return [(nm, 0, 0, 0) for nm in names]


def pack_data(rng, params, nrec, miss=0.15):
    """(tokens, float64 [nrec, nparam] with NaN)"""
    toks, vals = [], []
    bits = [p[3] for p in params]
    for _ in range(nrec):
        f = []
        row = []
        for _nm, sc, of, b in params:
            top = 2 ** b - 1
            k = top if rng.random() < miss else rng.choice(
                [0, 1 & top, top - 1, rng.randint(0, top), rng.randint(0, top)])
            if abs((k + of) * 10.0 ** sc + 9999) < 0.01:
                k = top  # a datum equal to the missing value means nothing
            f.append(k)
            row.append(np.nan if k == top else (k + of) * 10.0 ** sc)
        toks += dm.I(*dm.pack_lsb(f, bits))
        vals.append(row)
    return toks, np.array(vals, float)


def real_data(rng, params, nrec, miss=0.15):
    g = gen.nprng(rng)
    v = f32(np.round(g.normal(0, 300, (nrec, len(params))), rng.choice([0, 1, 3]))).astype(float)
    m = g.random(v.shape) < miss
    return dm.F(*np.where(m, MISS, v).ravel()), np.where(m, np.nan, v)


# ------------------------------------------------------------------ merged soundings

def snd(rng, packed=None, large=False):
    packed = rng.random() < 0.5 if packed is None else packed
    nt, ns = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 5])
    if large:
        nt, ns = rng.choice([(1, 150), (2, 130), (140, 2), (15, 14), (1, 300)])
    ts = times(rng, nt)
    st = stations(rng, ns)
    names = ['PRES'] + rng.sample(['TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT', 'OMEG', 'CFRL'], rng.randint(0, 6))
    if rng.random() < 0.15:
        names[0] = 'HGHT'
        names = names[:1] + [n for n in names[1:] if n != 'HGHT']
    first = names[0]
    if rng.random() < 0.5:
        rng.shuffle(names)
    params = pack_params(rng, names) if packed else real_params(names)
    iv = names.index(first)
    if packed:
        params[iv] = (first, rng.choice([0, -1]), 0, rng.choice([14, 16, 20]))
    std2 = rng.random() < 0.7
    if not std2:
        for s in st:
            s['STD2'] = ''
    header = rng.choice([0, 1, 1, 2])
    cells, entries = {}, []
    occ = occupancy(rng, len(ts), ns)
    for r, c in occ:
        nl = rng.choice([1, 2, 5, 20]) if not large else rng.choice([1, 2])
        if rng.random() < 0.03:
            nl = 0  # a station that reported nothing
        if packed:
            tok, v = pack_packed_sorted(rng, params, nl, iv, first)
        else:
            _t, v = real_data(rng, params, nl)
            lev = sorted({round(rng.uniform(1, 1050) * (1 if first == 'PRES' else 20), 1) for _ in range(nl)},
                         reverse=first == 'PRES')
            while len(lev) < nl:
                lev.append(lev[-1] * 0.9 if first == 'PRES' else lev[-1] + 7)
            v[:, iv] = f32(lev)
            if nl and rng.random() < 0.2:
                v[1:] = v[1:][::-1]
            tok = dm.F(*np.where(np.isnan(v), MISS, v).ravel())
        cells[(r, c, 0)] = dm.I(*[rng.choice([0, 1200, 45])] * header) + tok
        order = np.argsort(v[:, iv])
        if first == 'PRES':
            order = np.argsort(-v[:, iv], kind='stable')
        entries.append(Entry((ts[r],) + sinfo(st[c]), (r, c),
                             {nm: v[order, k] for k, nm in enumerate(names)}))
        entries[-1].first = v[0, iv] if nl else None
    ck = STN_KEYS if std2 else STN_KEYS[:-1]
    rk = ['DATE', 'TIME']
    if rng.random() < 0.1:
        rk, ck = rng.sample(rk, len(rk)), rng.sample(ck, len(ck))
    sp = dm.Spec(2, rk, ck, [dkeys(t) for t in ts], st,
                 [dm.Part('SNDT', header, 4 if packed else 1, params)], cells)
    w = World('snd', sp, entries, ('snd', 'pack' if packed else 'real', std2, first, header))
    w.vcoord = first
    return w


def pack_packed_sorted(rng, params, nl, iv, first):
    """Packed records whose vertical coordinate is distinct (and monotonic)."""
    bits = [p[3] for p in params]
    top = 2 ** bits[iv] - 2
    lev = sorted(rng.sample(range(1, top), nl), reverse=first == 'PRES')
    toks, vals = [], []
    for j in range(nl):
        f, row = [], []
        for k, (_nm, sc, of, b) in enumerate(params):
            t = 2 ** b - 1
            x = lev[j] if k == iv else (t if rng.random() < 0.15 else rng.choice(
                [0, t - 1, rng.randint(0, t), rng.randint(0, t)]))
            f.append(x)
            row.append(np.nan if x == t else (x + of) * 10.0 ** sc)
        toks += dm.I(*dm.pack_lsb(f, bits))
        vals.append(row)
    return toks, np.array(vals, float).reshape(nl, len(params))


# ------------------------------------------------------------------ raobs

RAOB = [('TTAA', ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']), ('TTBB', ['PRES', 'TEMP', 'DWPT']),
        ('PPBB', ['HGHT', 'DRCT', 'SPED']), ('TTCC', ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']),
        ('TTDD', ['PRES', 'TEMP', 'DWPT']), ('PPDD', ['HGHT', 'DRCT', 'SPED']),
        ('PPAA', ['PRES', 'DRCT', 'SPED']), ('PPCC', ['PRES', 'DRCT', 'SPED']),
        ('TRPA', ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED']), ('TRPC', ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED']),
        ('MXWA', ['PRES', 'DRCT', 'SPED']), ('MXWC', ['PRES', 'DRCT', 'SPED'])]
TEXTS = ['TXTA', 'TXTB', 'TXTC', 'TXPB']


def raob(rng, simple=True):
    """Unmerged soundings with unproblematic content (C16 generates the difficult ones)."""
    ts = times(rng, rng.choice([1, 2]))
    st = stations(rng, rng.choice([1, 2, 3]), long_id=False)
    with_text = rng.random() < 0.5
    parts = [dm.Part(n, 1, 1, real_params(p)) for n, p in RAOB]
    if with_text:
        parts += [dm.Part(n, 1, 3, [('TEXT', 0, 0, 0)]) for n in TEXTS]
    cells, entries = {}, []
    for r, c in occupancy(rng, len(ts), len(st)):
        prof = simple_raob(rng)
        for k, (nm, ps) in enumerate(RAOB):
            if nm not in prof:
                continue
            rec = prof[nm]
            nl = len(rec[ps[0]])
            cells[(r, c, k)] = dm.I(1200) + dm.F(*[rec[p][j] for j in range(nl) for p in ps])
        text = {}
        if with_text:
            for k, nm in enumerate(TEXTS):
                if rng.random() < 0.6:
                    text[nm] = (f'{nm} 72357 {rng.randint(0, 99999):05d} ' + 'X' * rng.randint(0, 9)
                                + rng.choice(['', '  //', '\n 51515  10164', '\r\r\n']) + '=')
                    cells[(r, c, len(RAOB) + k)] = dm.I(1200) + dm.S(text[nm])
        e = Entry((ts[r],) + sinfo(st[c]), (r, c), None)
        e.parts, e.text = prof, text
        entries.append(e)
    sp = dm.Spec(2, ['DATE', 'TIME'], STN_KEYS, [dkeys(t) for t in ts], st, parts, cells)
    return World('raob', sp, entries, ('raob', with_text))


def simple_raob(rng):
    psfc = rng.uniform(930, 1010)
    man = [p for p in (925, 850, 700, 500, 400, 300, 250, 200, 150, 100) if p < psfc - 20]
    man = man[:rng.randint(2, len(man))]

    def t_of(p):
        return 15 - 70 * np.log(1000 / p) / np.log(10) + rng.uniform(-3, 3)

    def r1(x):
        return float(np.float32(round(float(x), 1)))
    zsfc = rng.randint(0, 400)

    def z_of(p):
        return round(zsfc + 7800 * np.log(psfc / p))
    ta = {'PRES': [r1(psfc)], 'TEMP': [r1(t_of(psfc))], 'DWPT': [r1(t_of(psfc) - 8)], 'DRCT': [180.0],
          'SPED': [5.0], 'HGHT': [float(zsfc)]}
    for p in man:
        t = t_of(p)
        for nm, v in zip(['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'],
                         [p, t, t - rng.uniform(1, 20), rng.randrange(0, 360, 5), rng.randint(1, 60), z_of(p)]):
            ta[nm].append(r1(v))
    out = {'TTAA': ta}
    if rng.random() < 0.8:
        tb = {'PRES': [ta['PRES'][0]], 'TEMP': [ta['TEMP'][0]], 'DWPT': [ta['DWPT'][0]]}
        lo = min(man)
        for p in sorted({round(rng.uniform(lo, psfc - 5)) for _ in range(rng.randint(1, 6))}, reverse=True):
            t = t_of(p)
            tb['PRES'].append(float(p))
            tb['TEMP'].append(r1(t))
            tb['DWPT'].append(r1(t - rng.uniform(1, 20)))
        out['TTBB'] = tb
    if rng.random() < 0.8:
        top = z_of(min(man))
        zz = sorted({round(rng.uniform(zsfc + 50, top)) for _ in range(rng.randint(1, 6))})
        out['PPBB'] = {'HGHT': [0.0] + [float(z) for z in zz],
                       'DRCT': [180.0] + [float(rng.randrange(0, 360, 5)) for _ in zz],
                       'SPED': [5.0] + [float(rng.randint(1, 60)) for _ in zz]}
    if 'TTBB' in out and rng.random() < 0.15:  # the first message never came
        del out['TTAA']
    return out


# ------------------------------------------------------------------ surface

def sfc(rng, text=None, packed=None, layout=None, large=False, shared=False):
    """shared: some stations go by the same id; ships move."""
    layout = layout or rng.choice(['standard', 'standard', 'ship', 'climate'])
    packed = rng.random() < 0.5 if packed is None else packed
    text = (rng.random() < 0.3) if text is None else text
    nt, ns = rng.choice([1, 2, 3, 4]), rng.choice([2, 2, 3, 5])
    if large:
        nt, ns = rng.choice([(1, 150), (2, 130), (140, 2), (15, 14), (1, 300)])
    ts = times(rng, nt, month_safe=True)
    if layout == 'climate' and rng.random() < 0.8 and len(ts) == 1:
        ts = times(rng, 3, month_safe=True)
    st = stations(rng, ns)
    for s in st:
        s['SPRI'] = rng.choice([0, 1, 2, 5])
    if shared:
        for s in rng.sample(st[1:], rng.randint(1, len(st) - 1)):
            s['STID'], s['STD2'] = st[0]['STID'], st[0]['STD2']
    pool = ['PMSL', 'ALTI', 'TMPC', 'DWPC', 'SKNT', 'DRCT', 'GUST', 'VSBY', 'CHC1', 'CHC2', 'CHC3', 'WNUM']
    names = rng.sample(pool, rng.randint(1, len(pool)))
    params = pack_params(rng, names) if packed else real_params(names)
    header = rng.choice([0, 1, 1])
    parts = [dm.Part('SFDT', header, 4 if packed else 1, params)]
    if text:
        parts += [dm.Part('SFTX', 1, 3, [('TEXT', 0, 0, 0)])]
        if layout == 'standard':
            parts += [dm.Part('SFSP', 2, 3, [('SPCL', 0, 0, 0)])]
    np_ = len(parts)
    cells, entries = {}, []
    if layout == 'ship':
        reps = []
        for s in st:
            for t in ts:
                if rng.random() < 0.7 or not reps:
                    if shared and rng.random() < 0.5:
                        s = dict(s, SLAT=rng.randint(-9000, 9000), SLON=rng.randint(-18000, 18000))
                    reps.append((t, s))
        rows, cols = [{'ROW': 1}], [dict(dkeys(t), **s) for t, s in reps]
        rk, ck = ['ROW'], ['DATE', 'TIME'] + STN_KEYS + ['SPRI']
        slots = [(0, k, t, s) for k, (t, s) in enumerate(reps)]
    elif layout == 'standard':
        rows, cols = [dkeys(t) for t in ts], st
        rk, ck = ['DATE', 'TIME'], STN_KEYS + ['SPRI']
        slots = [(r, c, ts[r], st[c]) for r, c in occupancy(rng, len(ts), len(st))]
    else:
        rows, cols = st, [dkeys(t) for t in ts]
        rk, ck = STN_KEYS + ['SPRI'], ['DATE', 'TIME']
        slots = [(r, c, ts[c], st[r]) for r, c in occupancy(rng, len(st), len(ts))]
    for r, c, t, s in slots:
        present = [0] if not text else [k for k in range(np_) if rng.random() < 0.75] \
            or [rng.randrange(np_)]
        d = {}
        reports = None
        if 0 in present:
            tok, v = (pack_data if packed else real_data)(rng, params, 1)
            cells[(r, c, 0)] = dm.I(*[rng.choice([0, 1200])] * header) + tok
            d = {nm: v[0, k] for k, nm in enumerate(names)}
        if text:
            sid = ('K' + s['STID'])[:4] if len(s['STID']) < 4 else s['STID']
            reports = []
            if 1 in present:
                m = metar(rng, sid, t)
                cells[(r, c, 1)] = dm.I(1200) + dm.S(m)
                reports.append(('text', m, t))
            if 2 in present:
                t2 = t + dt.timedelta(minutes=rng.randint(-10, 10))
                if t2.month != t.month:
                    t2 = t
                m = metar(rng, sid, t2)
                cells[(r, c, 2)] = dm.I(1, 1200) + dm.S(m)
                reports.append(('spcl', m, t2))
            if not reports:
                reports = None
        entries.append(Entry((t,) + sinfo(s), (r, c), {'values': d, 'reports': reports,
                                                       'priority': s['SPRI']}))
    # header keys go by name: any order, the second half of the id and the priority may be absent
    stn_keys = ck if layout != 'climate' else rk
    if rng.random() < 0.15 and all(not s['STD2'] for s in st):
        stn_keys.remove('STD2')
    if rng.random() < 0.1:
        stn_keys.remove('SPRI')
        for e in entries:
            e.data['priority'] = 0
    if rng.random() < 0.15:
        rng.shuffle(rk)
        rng.shuffle(ck)
    sp = dm.Spec(1, rk, ck, rows, cols, parts, cells)
    w = World('sfc', sp, entries, ('sfc', layout, 'pack' if packed else 'real', text))
    w.layout = layout
    # inventory order: row, column
    w.entries.sort(key=lambda e: e.slot)
    return w


def metar(rng, sid, t):
    return (f'{sid} {t:%d%H%M}Z {rng.randrange(0, 36) * 10:03d}{rng.randint(2, 30):02d}KT '
            f'{rng.randint(1, 10)}SM ' + rng.choice(['CLR', 'BKN012', 'OVC008 10/08', 'FEW250 A2992 RMK AO2']))


# ------------------------------------------------------------------ holes

def holes(rng, spec, rows=True, cols=True, empties=True):
    """The same content with unused headers / empty slots inserted: (Spec, number inserted, map)."""
    def insert(heads, ok):
        out, idx, added = [], {}, 0
        for k, h in enumerate(heads):
            while ok and rng.random() < 0.35:
                out.append(None if rng.random() < 0.4 else ('deleted', dict(rng.choice(heads))))
                added += 1
            idx[k] = len(out)
            out.append(h)
        while ok and rng.random() < 0.4:
            out.append(None if rng.random() < 0.5 else ('deleted', dict(rng.choice(heads))))
            added += 1
        return out, idx, added
    r2, ri, a = insert(spec.rows, rows)
    c2, ci, b = insert(spec.cols, cols)
    cells = {(ri[r], ci[c], p): t for (r, c, p), t in spec.cells.items()}
    return dm.Spec(spec.ftype, spec.row_keys, spec.col_keys, r2, c2, spec.parts, cells, nav=spec.nav,
                   source=spec.source, anl_type=spec.anl_type), a + b, (ri, ci)
