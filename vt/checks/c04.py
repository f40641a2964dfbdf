"""C04: soundings survive write+read."""
import numpy as np
from gempakio import GempakSounding, SoundingFile
from vt import stn

ID = 'C04'
LEVEL = 'exploration'
QUICK, THOROUGH = 4000, 60000
RULE = ('each case builds a sounding file from random stations, times and parameter sets (sparse, replaced, '
        'unordered), writes it and compares inventory and every dataset with the reference model; key = '
        '(vertical coordinate, parameter count, station count, time count, sparse, replaced, id length)')
ASSUMPTIONS = ['levels of a sounding are distinct', 'minute resolution times, years 1969-2068',
               'ASCII station text; elevations are integers']
REQUIRE = {'soundings_compared': 800, 'values_compared': 50000, 'big_files': 5, 'without_levels': 100}


def case(mon, rng, i, tier):
    big = i % 400 == 7
    c = stn.content(rng, False, big=big)
    mon.seen('big_files', big)
    f = mon.must('SoundingFile', SoundingFile, c['params'] if rng.random() < 0.8 else
                 tuple(p.lower() for p in c['params']))
    if f is None:
        return
    for e in c['entries']:
        _, err = stn.add(mon, f, False, e)
        if err:
            mon.fail('add_sounding-raised', (err, e[1:5]))
            return
    p = mon.path('.snd')
    _, err = mon.run(f.to_gempak, p)
    if err:
        mon.fail('to_gempak-raised', err)
        return
    g = mon.must('GempakSounding', GempakSounding, p)
    if g is None:
        return
    check(mon, g, stn.model(c), c)
    m = stn.model(c)
    mon.key('PRES' in c['params'], len(c['params']), min(len({k[1:] for k in m}), 6), min(len(c['times']), 4),
            len(m) < len({k[1:] for k in m}) * len({k[0] for k in m}), len(m) < len(c['entries']),
            max(len(k[1]) for k in m))
    mon.sample = {'params': c['params'], 'entries': [[str(x) for x in e[1:5]] for e in c['entries'][:3]]}


def row(s):
    return (s.DATTIM, s.ID, s.NUMBER, s.ELEV, s.STATE, s.COUNTRY, s.LAT, s.LON)


def match(mon, what, rows, m):
    """Pair inventory rows with model keys; None when they do not correspond."""
    rows = sorted(rows)
    keys = sorted(m)
    if len(rows) != len(keys):
        mon.fail(f'{what}-count', f'{len(rows)} listed, {len(keys)} added')
        return None
    for r, k in zip(rows, keys):
        if r[:-2] != k[:-2]:
            mon.fail(f'{what}-metadata', f'listed {r} added {k}')
            return None
        if abs(r[-2] - k[-2]) > 0.0051 or abs(r[-1] - k[-1]) > 0.0051:
            mon.fail(f'{what}-latlon', f'listed {r[-2:]} added {k[-2:]}')
            return None
    return list(zip(rows, keys))


def check(mon, g, m, c):
    inv = mon.must('sninfo', g.sninfo)
    if inv is None:
        return
    if match(mon, 'sninfo', [row(s) for s in inv], m) is None:
        return
    res, err = mon.run(g.snxarray)
    if err:
        mon.fail('snxarray-raised', err)
        return
    if len(res) != len(inv):
        mon.fail('snxarray-count', (len(res), len(inv)))
        return
    rows = []
    for s, ds in zip(inv, res):
        a = ds.attrs
        t = ds['time'].values.astype('datetime64[m]').tolist()
        if len(t) != 1:
            mon.fail('time-axis', t)
            return
        r = (t[0], a['station_id'], a['station_number'], a['elevation'], a['state'], a['country'],
             a['lat'], a['lon'])
        if r != row(s):
            mon.fail('dataset-order', f'dataset {r} inventory {row(s)}')
            return
        rows.append((r, ds))
    rows.sort(key=lambda q: q[0])
    vc = 'PRES' if 'PRES' in c['params'] else 'HGHT'
    for (r, ds), k in zip(rows, sorted(m)):
        want = m[k]
        lev = want[vc]
        o = np.argsort(-lev if vc == 'PRES' else lev, kind='stable')
        if not stn.same(ds[vc.lower()].values.astype(np.float32), lev[o]):
            mon.fail('levels', (k, ds[vc.lower()].values[:6], lev[o][:6]))
            return
        mon.seen('without_levels', lev.size == 0)
        if vc == 'PRES':
            sp = ds.attrs.get('station_pressure')
            if (sp is not None) if lev.size == 0 else not stn.same(np.float32([sp]), lev[:1]):
                mon.fail('station-pressure', f'{k}: {sp}, levels {lev[:3]}')
                return
        names = {p.lower() for p in want} - {vc.lower()}
        if set(ds.data_vars) != names:
            mon.fail('parameters', (set(ds.data_vars), names))
            return
        for q in names:
            got = ds[q].values
            mon.seen('values_compared', got.size)
            if got.shape != (1, lev.size) or not stn.same(got[0].astype(np.float32), want[q.upper()][o]):
                mon.fail('values', f'{k} {q}: read {got[0][:8]} added {want[q.upper()][o][:8]}')
                return
        mon.seen('soundings_compared')
