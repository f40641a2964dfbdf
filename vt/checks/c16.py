"""C16: merged raob profiles conserve observations and are physically ordered."""
import datetime as dt
import numpy as np
from vt import dm, observe, raobref, world
from vt.raobref import MISS

ID = 'C16'
LEVEL = 'exploration'
QUICK, THOROUGH = 6000, 90000
RULE = ('each case writes 1-3 random unmerged soundings (random subset of the twelve data parts, text parts, random '
        'missing values, winds on height or pressure, low and high stations, pressures shared between parts, packed '
        'or real) with the independent writer and compares the decoded profile level by level with an independent '
        'merge, besides checking order, observed values, text and listing; a fifth of the cases use arbitrary '
        'unphysical content and check termination and order only; key = (parts present, missing class, coordinates)')
ASSUMPTIONS = ['realistic cases: levels of a part are in decreasing pressure (increasing height) order, dewpoint '
               'only with temperature',
               'values interpolated by the merge are compared with single-precision tolerance']
REQUIRE = {'soundings': 2500, 'levels': 20000, 'observed_values': 50000, 'interpolated_values': 10000,
           'below_ground': 500, 'height_winds': 1500, 'no_ttaa': 100, 'text': 500, 'hostile': 300}

PRM = dict(world.RAOB)
TEMPS = ['TTAA', 'TTBB', 'TTCC', 'TTDD', 'TRPA', 'TRPC']


def r1(x):
    return round(float(x) * 10) / 10


class Air:
    def __init__(self, rng):
        self.rng = rng
        self.elev = rng.choice([0, 5, 100, 357, 800, 1655, 2200, 4000])
        self.psfc = r1(1013 * np.exp(-self.elev / 8000) + rng.uniform(-25, 25))
        k = rng.random()
        if k < 0.05:  # the surface is a mandatory level
            self.psfc = min((1000.0, 925.0, 850.0, 700.0), key=lambda p: abs(p - self.psfc))
        elif k < 0.1 and self.elev < 10:
            self.psfc = r1(rng.uniform(1030, 1060))
        self.t0 = rng.uniform(-30, 35)
        self.half = rng.choice([0, 0, 0, 0.15, 0.5])  # winds lacking one component

    def z(self, p):
        return float(round(self.elev + 7700 * np.log(self.psfc / p)))

    def temp(self, p, miss=0.0):
        if self.rng.random() < miss:
            return MISS, MISS
        t = r1(self.t0 - 60 * np.log(1000 / p) / 2.3 + self.rng.uniform(-4, 4))
        return t, (MISS if self.rng.random() < 0.15 else r1(t - self.rng.uniform(0, 30)))

    def wind(self, miss=0.0):
        if self.rng.random() < miss:
            return MISS, MISS
        d = float(self.rng.choice([0, 5, 90, 355, 360, self.rng.randrange(0, 361, 5)]))
        s = float(self.rng.randint(0, 90))
        if self.half and self.rng.random() < self.half:
            return (d, MISS) if self.rng.random() < 0.6 else (MISS, s)
        return d, s


def realistic(rng):
    a = Air(rng)
    miss = rng.choice([0, 0, 0.1, 0.35])
    parts = {}

    def put(name, recs):
        if recs:
            parts[name] = {k: [r[k] for r in recs] for k in PRM[name]} if 'PRES' not in recs[0] or \
                'PRES' in PRM[name] else {k: [r[k] for r in recs] for k in recs[0]}

    def man(levels):
        out = []
        for p in levels:
            t, d = a.temp(p, miss / 2)
            w = a.wind(max(miss, rng.choice([0, 0.3])))
            under = p > a.psfc
            if under and rng.random() < 0.9:
                t, d, w = MISS, MISS, (MISS, MISS)
            z = a.z(p)
            out.append(dict(PRES=float(p), TEMP=t, DWPT=d, DRCT=w[0], SPED=w[1],
                            HGHT=MISS if rng.random() < miss / 3 else z))
        return out
    low = [p for p in (1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100)]
    top = rng.randint(0, len(low))
    sfct, sfcd = a.temp(a.psfc)
    sfcw = a.wind(miss / 2)
    kind = rng.random()
    sfc = dict(PRES=a.psfc, TEMP=sfct, DWPT=sfcd, DRCT=sfcw[0], SPED=sfcw[1],
               HGHT=rng.choice([float(a.elev), MISS]))
    if kind < 0.12:
        sfc = {k: MISS for k in sfc}
    elif kind < 0.16:
        sfc['TEMP'] = sfc['DWPT'] = MISS
    elif kind < 0.19:
        sfc['PRES'] = rng.choice([1075.5, 1060.5, 1062.0])
    m = man(low[:top])
    if rng.random() < 0.5:
        m = [x for x in m if x['PRES'] <= a.psfc]
    late = kind < 0.12 and rng.random() < 0.4  # mandatory levels start aloft
    if late:
        m = m[rng.choice([4, 5, 6, 7]):]
    if rng.random() < 0.88:
        put('TTAA', [sfc] + m)
    if (top == len(low) and rng.random() < 0.7) or (top == 0 and rng.random() < 0.4):
        high = man([70, 50, 30, 20, 10][:rng.randint(0, 5)])
        put('TTCC', high)
    else:
        high = []
    used = [x['PRES'] for x in m + high]

    def levels(n, lo, hi):
        if hi <= lo:
            return []
        ps = {r1(rng.uniform(lo, hi)) for _ in range(n)} | {float(round(rng.uniform(lo, hi))) for _ in range(n // 2)}
        ps |= {p for p in used if lo <= p <= hi and rng.random() < 0.2}
        return sorted(ps, reverse=True)
    have_sfc = sfc['PRES'] == a.psfc
    psfc = a.psfc
    if rng.random() < 0.75:
        ps = levels(rng.choice([0, 1, 3, 8]), 100, psfc - 1)
        if rng.random() < 0.85:
            ps = [psfc] + ps
        rec = []
        for k, p in enumerate(ps):
            t, d = (sfct, sfcd) if k == 0 and p == psfc and rng.random() < 0.5 else a.temp(p, miss / 2)
            rec.append(dict(PRES=p, TEMP=t, DWPT=d))
        put('TTBB', rec)
    if rng.random() < 0.4:
        put('TTDD', [dict(zip(('PRES', 'TEMP', 'DWPT'), (p,) + a.temp(p, miss / 2)))
                     for p in levels(rng.randint(1, 4), 6, 99.9)])
    mode = rng.choice(['z', 'z', 'negz', 'p'])
    mode2 = mode if rng.random() < 0.9 else rng.choice(['z', 'negz', 'p'])

    def sigw(name, mode, lo, hi, surface):
        ps = levels(rng.choice([0, 1, 3, 8]), lo, hi)
        rec = []
        if mode == 'z':
            zs = sorted({a.z(p) + rng.choice([0, 0, 0.4, 13]) for p in ps})
            if surface:
                w = a.wind(miss / 2)
                rec.append(dict(HGHT=rng.choice([0.0, 0.0, float(a.elev)]), DRCT=w[0], SPED=w[1]))
            for z in zs:
                if rec and z <= rec[-1]['HGHT']:
                    continue
                w = a.wind(miss / 2)
                rec.append(dict(HGHT=MISS if w[0] == MISS and rng.random() < 0.5 else float(z), DRCT=w[0],
                                SPED=w[1]))
                if rec[-1]['HGHT'] != MISS and rng.random() < 0.06:  # nearly the same height twice
                    w = a.wind(miss / 2)
                    rec.append(dict(HGHT=float(z) + rng.choice([0.5, 0.9]), DRCT=w[0], SPED=w[1]))
        else:
            key = 'HGHT' if mode == 'negz' else 'PRES'
            for p in ([psfc] if surface else []) + ps:
                w = a.wind(miss / 2)
                rec.append({key: -p if mode == 'negz' or rng.random() < 0.5 else p, 'DRCT': w[0], 'SPED': w[1]})
        put(name, rec)
    if rng.random() < 0.75:
        sigw('PPBB', mode, 100, psfc - 1, rng.random() < 0.8)
    if rng.random() < 0.4:
        sigw('PPDD', mode2, 6, 99.9, False)
    for name, src in (('PPAA', low), ('PPCC', [70, 50, 30, 20, 10])):
        if rng.random() < 0.35:
            put(name, [dict(zip(('PRES', 'DRCT', 'SPED'), (float(p),) + a.wind(miss / 2)))
                       for p in src if rng.random() < 0.7])
    for name, lo, hi in (('TRPA', 100.1, min(400, psfc - 1)), ('TRPC', 20, 99.9)):
        if rng.random() < 0.35:
            ps = levels(2 if late else rng.choice([1, 1, 2]), lo, hi)[:2]
            if rng.random() < (0.05 if late else 0.25):
                ps = [p for p in used if lo <= p <= hi][:1] or ps
            if ps and rng.random() < 0.15:  # one level reported twice
                ps = [ps[0], ps[0]]
            put(name, [dict(zip(PRM[name], (p,) + a.temp(p, miss / 2) + a.wind(miss))) for p in ps])
    for name, lo, hi in (('MXWA', 100.1, min(500, psfc - 1)), ('MXWC', 20, 99.9)):
        if rng.random() < 0.35:
            ps = levels(rng.choice([1, 1, 2]), lo, hi)[:2]
            if ps and rng.random() < 0.1:
                ps = [ps[0], ps[0]]
            put(name, [dict(zip(PRM[name], (p,) + a.wind(miss / 2))) for p in ps])
    del have_sfc
    return parts, a.elev, (mode, mode2, round(miss, 1))


def hostile(rng):
    parts = {}
    tidy = rng.random() < 0.7
    for name, ps in world.RAOB:
        if rng.random() < 0.5:
            continue
        n = rng.choice([1, 1, 2, 3, 6, 12])
        first = ps[0]
        lev = [float(rng.choice([0, 1, 500, 850, 1000, rng.randint(1, 1100), rng.randint(-10, 30000)]))
               if first == 'HGHT' else float(rng.choice([500, 850, 700, 1000, 100, 70, rng.randint(1, 1100)]))
               for _ in range(n)]
        if tidy:
            lev = sorted(set(lev), reverse=first == 'PRES')
        rec = {first: [MISS if rng.random() < 0.1 else v for v in lev]}
        for p in ps[1:]:
            rate = rng.choice([0, 0.2, 0.8])
            rec[p] = [MISS if rng.random() < rate else
                      float(rng.randint(0, 360) if p == 'DRCT' else rng.randint(-60, 40) if p != 'HGHT'
                            else rng.randint(-100, 20000)) for _ in lev]
        if 'HGHT' in rec and first == 'PRES':
            rec['HGHT'] = [z if z == MISS else r for z, r in
                           zip(rec['HGHT'], sorted(rng.sample(range(-100, 30000), len(lev))))]
        parts[name] = rec
    return parts, rng.choice([-9999, 0, 300, -20]), ('hostile',)


def tokens(rng, packed, params, rec):
    names = [p[0] for p in params]
    n = len(rec[names[0]])
    out = dm.I(rng.choice([0, 1200, -9999]))
    for j in range(n):
        if packed:
            f = [2 ** b - 1 if rec[nm][j] == MISS else round(rec[nm][j] * 10) - of for nm, sc, of, b in params]
            out += dm.I(*dm.pack_lsb(f, [p[3] for p in params]))
        else:
            out += dm.F(*[rec[nm][j] for nm in names])
    return out


def build(rng, sound):
    """Spec for soundings = [(parts, elev, text)], one station each."""
    packed = rng.random() < 0.25
    st = world.stations(rng, len(sound), long_id=False)
    for s, (_p, elev, _t) in zip(st, sound):
        s['SELV'] = elev
    t = world.times(rng, 1)[0]
    order = list(PRM)
    if rng.random() < 0.5:
        rng.shuffle(order)
    parts = []
    for nm in order:
        keys = list(PRM[nm])
        if any(nm in p and 'PRES' in p[nm] and 'HGHT' in keys and 'HGHT' not in p[nm] for p, _e, _t in sound):
            keys[0] = 'PRES'
        if rng.random() < 0.3:
            rng.shuffle(keys)
        parts.append(dm.Part(nm, 1, 4 if packed else 1,
                             [(k, -1, -200000, 22) if packed else (k, 0, 0, 0) for k in keys]))
    texts = world.TEXTS if any(t for _p, _e, t in sound) else []
    parts += [dm.Part(n, 1, 3, [('TEXT', 0, 0, 0)]) for n in texts]
    if rng.random() < 0.3:
        rng.shuffle(parts)
    cells = {}
    for c, (prof, _e, text) in enumerate(sound):
        for k, p in enumerate(parts):
            if p.name in prof:
                cells[(0, c, k)] = tokens(rng, packed, p.params, prof[p.name])
            elif p.name in text:
                cells[(0, c, k)] = dm.I(1200) + dm.S(text[p.name])
    return dm.Spec(2, ['DATE', 'TIME'], world.STN_KEYS, [world.dkeys(t)], st, parts, cells), st, t


def single(parts):
    return {n: {k: [float(np.float32(v)) for v in vs] for k, vs in p.items()} for n, p in parts.items()}


def uniform(sound):
    """All soundings of one file share each part's coordinate."""
    for nm in ('PPBB', 'PPDD'):
        ks = {tuple(sorted(p[nm])) for p, _e, _t in sound if nm in p}
        if len(ks) > 1:
            return False
    return True


def case(mon, rng, i, tier):
    bad = rng.random() < 0.2
    for _ in range(20):
        sound, tags = [], []
        for _k in range(rng.choice([1, 1, 2, 3])):
            parts, elev, tag = (hostile if bad else realistic)(rng)
            text = {}
            if rng.random() < 0.3:
                text = {n: f'{n} 72357 {rng.randint(0, 99999):05d}{" x" * rng.randint(0, 9)}=' for n in world.TEXTS
                        if rng.random() < 0.6}
            if parts:
                sound.append((single(parts), elev, text))
                tags.append(tag)
        if sound and uniform(sound):
            break
    else:
        return
    spec, st, t = build(rng, sound)
    p = mon.put(spec.build(rng.random() < 0.3), '.snd')
    r = mon.must('open', observe.CLS['raob'], p)
    if r is None:
        return
    inv = {s.ID for s in r.sninfo()}
    for s in st:
        s['ID'] = s['STID'].strip() + s['STD2'].strip()
    want = {s['ID'] for s in st}
    if inv != want:
        mon.fail('listing', f'listed {sorted(inv)} expected {sorted(want)}: '
                 f'{[sorted(q) for q, _e, _t in sound]}')
        return
    for (parts, elev, text), s, tag in zip(sound, st, tags):
        mon.seen('soundings')
        mon.key(tag, tuple(sorted(parts)) if rng.random() < 0.5 else len(parts), bool(text))
        out, err = mon.run(r.snxarray, station_id=s['ID'], limit=200000)
        if err or len(out) != 1:
            mon.fail('hostile-raised' if bad else 'merge-raised', f'{err or len(out)}: {parts} elev {elev}')
            return
        ds = out[0]
        if ds.attrs.get('wmo_codes', {}) != {k.lower(): v for k, v in text.items()}:
            mon.fail('text', (ds.attrs.get('wmo_codes'), text))
        mon.seen('text', len(text))
        if np.datetime64(ds.time.values[0], 's').astype(dt.datetime) != t or ds.attrs['elevation'] != elev:
            mon.fail('metadata', (ds.attrs, t, elev))
        if not order(mon, ds, parts, elev, bad):
            return
        if bad:
            mon.seen('hostile')
            continue
        if not compare(mon, ds, parts, elev):
            return
    mon.sample = {'parts': {k: len(next(iter(v.values()))) for k, v in sound[0][0].items()}, 'elev': sound[0][1]}


def order(mon, ds, parts, elev, bad):
    pr = np.asarray(ds.pres.values, float)
    real = pr[pr != MISS]
    man = [v for v in parts.get('TTAA', {}).get('PRES', []) if v != MISS]
    if bad and len(set(man)) < len(man):
        return True  # repeated mandatory levels stay repeated below the ground
    if (np.diff(real) >= 0).any() or np.isnan(pr).any() or (np.diff(pr) > 0).any():
        mon.fail('hostile-order' if bad else 'order', f'{pr.tolist()} from {parts} elev {elev}')
        return False
    if (pr == MISS).sum() > 1 and not bad:
        mon.fail('pressure-missing', f'{pr.tolist()} from {parts} elev {elev}')
        return False
    return True


def compare(mon, ds, parts, elev):
    L, amb = raobref.merge(parts, elev)
    mon.seen('below_ground', sum('BG' in lv.obs.values() for lv in L))
    mon.seen('height_winds', sum('Z' in lv.obs.values() for lv in L))
    mon.seen('no_ttaa', 'TTAA' not in parts)
    mon.seen('levels', len(L))
    sp = ds.attrs['station_pressure']
    if not abs(float(sp) - L[0]['PRES']) < 1e-3:
        mon.fail('station_pressure', f'{sp} expected {L[0]["PRES"]}: {parts} elev {elev}')
        return False
    L = sorted(L, key=lambda lv: -lv['PRES'])
    pr = np.asarray(ds.pres.values, float)
    ref = np.array([lv['PRES'] for lv in L])
    if pr.shape != ref.shape or (np.abs(pr - ref) > 0.002 + 2e-5 * np.abs(ref)).any():
        mon.fail('levels', f'pressures {pr.tolist()} expected {ref.tolist()} from {parts} elev {elev}')
        return False
    span = {f: max([abs(lv[f]) for lv in L if lv[f] != MISS] or [0]) for f in raobref.FIELDS}
    for f in raobref.FIELDS[1:]:
        w = np.asarray(ds[f.lower()].values[0], float)
        for k, lv in enumerate(L):
            got, exp = w[k], lv[f]
            if exp == MISS:
                ok = np.isnan(got)
            elif f in lv.obs and lv.obs[f] and not (f == 'HGHT' and lv.obs[f] != 'BG'):
                mon.seen('observed_values')
                ok = got == np.float32(exp)
            else:
                mon.seen('interpolated_values')
                if f == 'DRCT':
                    ok = amb or abs((got - exp + 180) % 360 - 180) < 0.5
                else:
                    ok = abs(got - exp) <= (0.1 if f != 'HGHT' else 0.05) + 2e-5 * span[f]
            if not ok:
                mon.fail(f'{"observed" if f in lv.obs else "interpolated"}-{f}',
                         f'at {lv["PRES"]}: {got!r} expected {exp!r} {lv.obs}; {parts} elev {elev}')
                return False
    # heights rise as pressure falls (above the surface)
    z = [(lv['PRES'], w) for lv, w in zip(L, np.asarray(ds.hght.values[0], float))
         if not np.isnan(w) and 'BG' not in lv.obs.values()]
    for (p1, z1), (p2, z2) in zip(z, z[1:]):
        if z2 < z1 - 1:
            mon.fail('heights', f'{z1} at {p1}, {z2} at {p2}: {parts} elev {elev}')
            return False
    return True
