"""Random sounding / surface content, how to add it, and the reference model of it."""
import datetime as dt
import numpy as np
from vt import gen

SND = ['PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'UWND', 'VWND', 'OMEG', 'CFRL', 'TKEL', 'RELH',
       'MIXR', 'THTA']
SFC = ['PMSL', 'ALTI', 'TMPC', 'DWPC', 'SKNT', 'DRCT', 'GUST', 'VSBY', 'CHC1', 'CHC2', 'CHC3', 'WNUM',
       'P01I', 'P03D', 'TMPF', 'DWPF', 'WCOD']
MISS = -9999.0


def params(rng, surface, n=None):
    pool = SFC if surface else SND
    n = n or rng.choice([1, 2, 3, 5, 6, 6, 9, 12, 30, 44])
    if surface:
        out = rng.sample(pool, min(n, len(pool)))
    else:
        vc = rng.choice(['PRES', 'PRES', 'PRES', 'HGHT'])
        rest = [p for p in pool if p not in ('PRES',) and p != vc]
        out = [vc] + rng.sample(rest, min(n - 1, len(rest)))
        rng.shuffle(out)
    k = 0
    while len(out) < n:
        k += 1
        out.append(f'X{k:03d}')
    return out


def station(rng, i, info=True):
    lat = rng.choice([rng.uniform(-90, 90), round(rng.uniform(-90, 90), 2), round(rng.uniform(-90, 90), 3),
                      rng.randint(-90, 90), 35.29, -0.01, 32.07])
    lon = rng.choice([rng.uniform(-180, 180), round(rng.uniform(-180, 180), 2),
                      round(rng.uniform(-180, 180), 1), rng.randint(-180, 180), -97.41, 0.07, -179.99])
    if not info:
        return lat, lon, None
    n = rng.choice([3, 4, 4, 4, 5, 6, 8])
    n = min(n, 7) if i > 99 else n
    d = {}
    sid = f'{gen.name(rng, n - 2 if n > 3 else 1)}{i:02d}'
    if rng.random() < 0.95:
        d['station_id'] = sid if rng.random() < 0.8 else sid.lower()
    if rng.random() < 0.8:
        v = rng.randint(1, 99999) if rng.random() < 0.95 else rng.choice([0, -1, -9999, 7223500])
        d['station_number'] = v if rng.random() < 0.8 else str(v)
    if rng.random() < 0.8:
        d['elevation'] = rng.choice([0, -12, 357, 3200, rng.randint(-400, 5000)])
    if rng.random() < 0.7:
        d['state'] = rng.choice(['OK', 'wi', 'CO', 'ABCDE', '--', ''])
    if rng.random() < 0.7:
        d['country'] = rng.choice(['US', 'ca', 'MX', 'AUSTR', ''])
    return lat, lon, d


def when(rng, t, surface):
    """A documented spelling of datetime t."""
    k = rng.random()
    if k < 0.15:  # files keep times to the minute
        return t.replace(second=rng.randint(0, 59), microsecond=rng.choice([0, 999999]))
    if k < 0.5:
        return t
    if k < 0.8 or surface:
        return t.strftime('%Y%m%d%H%M')
    h = rng.choice([0, 3, 12, 48, 120, 1, 240, 1002])
    return (t - dt.timedelta(hours=h)).strftime('%Y%m%d%H%M') + rng.choice('Ff') + str(h)


def content(rng, surface, small=False, nparam=None, exact=None, big=False):
    """exact=(stations, times, parameters): that many, and every combination present.

    {'params': names, 'entries': [(data, lat, lon, time spelling, info)], 'times': [datetimes]}"""
    small = small or exact is not None or big
    ps = params(rng, surface, exact[2] if exact else nparam)
    ns = rng.choice([1, 2, 3]) if small else rng.choice([1, 1, 2, 3, 5, 9])
    nt = rng.choice([1, 2]) if small else rng.choice([1, 1, 2, 3, 5])
    if not small and rng.random() < 0.04:
        ns, nt = rng.choice([(12, 12), (70, 1), (1, 70), (43, 3), (33, 4)])
    if big:
        ns, nt = rng.choice([(300, 1), (1, 200), (150, 2), (2, 140), (129, 1), (17, 16)])
    if exact:
        ns, nt = exact[:2]
    stns = [station(rng, i, exact is not None or rng.random() > (0.05 if i else 0.1)) for i in range(ns)]
    if surface:
        for s in stns:
            if s[2] is not None and rng.random() < 0.5:
                s[2]['priority'] = rng.choice([0, 1, 2, 3, 4, 5, 6, 12, 300, -1])
    if ns > 1 and not exact and rng.random() < 0.15:  # same site, moved
        a = stns[0]
        b = min(85.0, a[0] + 1) if a[0] < 80 else a[0] - 1
        stns[1] = (b, a[1], dict(a[2]) if a[2] is not None else None)
    times = []
    base = gen.rand_dt(rng, 1970, 2067)
    for k in range(nt):
        t = base + dt.timedelta(minutes=rng.choice([0, 1, 60, 720, 1440, 525600, rng.randrange(5000)])
                                if not (exact or big) else 37 * k)
        if t not in times:
            times.append(t)
    pairs = [(s, t) for s in range(ns) for t in times]
    rng.shuffle(pairs)
    if rng.random() < 0.6 and not exact:
        pairs = pairs[:rng.randint(1, len(pairs))]
    if rng.random() < 0.3:
        pairs.append(rng.choice(pairs))  # replacement
    g = gen.nprng(rng)
    entries = []
    for s, t in pairs:
        lat, lon, info = stns[s]
        data = {}
        if surface:
            for p in ps:
                v = float(np.round(g.normal(0, 500), rng.choice([0, 1, 3]))) if rng.random() < 0.8 \
                    else rng.randint(-50, 1050)
                if rng.random() < 0.15:
                    v = float('nan')
                if rng.random() < 0.05:
                    v = MISS
                elif rng.random() < 0.05:
                    v = rng.choice([-9998.0, -9999.5, -10000, -12345.0, -1e6, 99999.0, 1e-3, -0.0])
                data[p] = v
        else:
            nl = 1 if exact else rng.choice([1, 2, 3, 10, 25]) if small else rng.choice([1, 2, 3, 20, 60, 120])
            if not small and rng.random() < 0.02:
                nl = 499
            if not exact and rng.random() < 0.03:
                nl = 0
            top = rng.uniform(5, 500)
            pr = np.sort(g.uniform(top, 1050, nl))[::-1].astype(np.float32).astype(float)
            hg = np.sort(g.uniform(-100, 30000, nl)).astype(np.float32).astype(float)
            for k in range(1, nl):  # distinct levels
                if pr[k] >= pr[k - 1]:
                    pr[k] = np.nextafter(np.float32(pr[k - 1]), np.float32(0))
                if hg[k] <= hg[k - 1]:
                    hg[k] = np.nextafter(np.float32(hg[k - 1]), np.float32(1e9))
            order = np.arange(nl)
            if rng.random() < 0.25:
                order = g.permutation(nl)
            for p in ps:
                if p == 'PRES':
                    v = pr[order]
                elif p == 'HGHT':
                    v = hg[order]
                else:
                    v = np.round(g.normal(0, 300, nl), 2)
                if p not in ('PRES', 'HGHT') or (p == 'HGHT' and 'PRES' in ps):
                    if rng.random() < 0.4:
                        v = np.where(g.random(nl) < 0.3, np.nan, v)
                    if rng.random() < 0.1:
                        v = np.where(g.random(nl) < 0.3, MISS, v)
                    if rng.random() < 0.1:
                        v = np.where(g.random(nl) < 0.3,
                                     rng.choice([-9998.0, -9999.5, -10000, -12345.0, -1e6, 99999.0, -0.0]), v)
                v = v.astype(rng.choice(['f8', 'f8', 'f4']))
                if rng.random() < 0.05 and p not in ('PRES', 'HGHT') and not np.isnan(v).any():
                    v = v.astype('i4')
                data[p] = v
        if rng.random() < 0.3:
            ks = list(data)
            rng.shuffle(ks)
            data = {(k.lower() if rng.random() < 0.3 else k): data[k] for k in ks}
        entries.append((data, lat, lon, when(rng, t, surface), info, t))
    return {'params': ps, 'entries': entries, 'times': times, 'surface': surface}


def add(mon, f, surface, e):
    data, lat, lon, w, info, _t = e
    data = {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in data.items()}
    info = dict(info) if info is not None else None
    return mon.run(f.add_station if surface else f.add_sounding, data, lat, lon, w, info)


def ident(e, surface):
    """Metadata identity the file keeps: everything but the data."""
    _d, lat, lon, _w, info, t = e
    info = info or {}
    sid = str(info.get('station_id', '')).upper()[:8]
    out = (t.replace(second=0, microsecond=0), sid, int(info.get('station_number', -9999)),
           int(info.get('elevation', -9999)), str(info.get('state', '')).upper()[:4].strip(),
           str(info.get('country', '')).upper()[:4].strip())
    if surface:
        out += (int(info.get('priority', 0)),)
    return out + (lat, lon)


def model(c):
    """{identity: {param: float32 array/scalar with NaN for missing}}"""
    out = {}
    for e in c['entries']:
        d = {}
        for k, v in e[0].items():
            a = np.asarray(v, dtype=np.float64).astype(np.float32)
            d[k.upper()] = np.where(np.isnan(a) | (a == np.float32(MISS)), np.float32('nan'), a)
        out[ident(e, c['surface'])] = d
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
