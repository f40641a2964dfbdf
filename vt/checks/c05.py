"""C05: surface observations survive write+read."""
import numpy as np
from gempakio import GempakSurface, SurfaceFile
from vt import stn
from vt.checks.c04 import match, row

ID = 'C05'
LEVEL = 'exploration'
QUICK, THOROUGH = 9000, 135000
RULE = ('each case builds a surface file from random stations, times and parameter sets (sparse, replaced, '
        'unordered), writes it and compares inventory and every report with the reference model; key = '
        '(parameter count, station count, time count, sparse, replaced, id length, time spellings)')
ASSUMPTIONS = ['minute resolution times, years 1969-2068', 'ASCII station text; elevations are integers']
REQUIRE = {'reports_compared': 1000, 'values_compared': 10000, 'big_files': 5}


def case(mon, rng, i, tier):
    big = i % 400 == 7
    c = stn.content(rng, True, big=big)
    mon.seen('big_files', big)
    f = mon.must('SurfaceFile', SurfaceFile, c['params'])
    if f is None:
        return
    for e in c['entries']:
        _, err = stn.add(mon, f, True, e)
        if err:
            mon.fail('add_station-raised', (err, e[1:5]))
            return
    p = mon.path('.sfc')
    _, err = mon.run(f.to_gempak, p)
    if err:
        mon.fail('to_gempak-raised', err)
        return
    g = mon.must('GempakSurface', GempakSurface, p)
    if g is None:
        return
    m = stn.model(c)
    short = {k[:6] + k[7:]: v for k, v in m.items()}
    inv = mon.must('sfinfo', g.sfinfo)
    if inv is None:
        return
    if len(short) == len(m) and match(mon, 'sfinfo', [row(s) for s in inv], short) is None:
        return
    res, err = mon.run(g.sfjson)
    if err:
        mon.fail('sfjson-raised', err)
        return
    rows = []
    for s, r in zip(inv, res):
        q = r['properties']
        t = (q['date_time'], q['station_id'], q['station_number'], q['elevation'], q['state'],
             q['country'])
        if t + (q['latitude'], q['longitude']) != row(s):
            mon.fail('report-order', f'report {q} inventory {s}')
            return
        rows.append(t + (q['priority'], q['latitude'], q['longitude']))
    pairs = match(mon, 'sfjson', rows, m)
    if pairs is None or len(res) != len(rows):
        if pairs is not None:
            mon.fail('sfjson-count', (len(res), len(rows)))
        return
    by = {r: j for j, r in enumerate(rows)}
    for r, k in pairs:
        got = res[by[r]]['values']
        want = {q.lower(): v for q, v in m[k].items()}
        if set(got) != set(want):
            mon.fail('parameters', (set(got), set(want)))
            return
        for q, w in want.items():
            v = got[q]
            mon.seen('values_compared')
            w = -9999.0 if np.isnan(w) else float(w)
            if np.float32(v) != np.float32(w):
                mon.fail('values', f'{k} {q}: read {v} added {w}')
                return
        mon.seen('reports_compared')
    mon.key(len(c['params']), min(len({k[1:] for k in m}), 6), min(len({k[0] for k in m}), 4),
            len(m) < len(c['entries']), max(len(k[1]) for k in m),
            tuple(sorted({type(e[3]).__name__ for e in c['entries']})))
    mon.sample = {'params': c['params'], 'entries': [[str(x) for x in e[1:5]] for e in c['entries'][:3]]}
