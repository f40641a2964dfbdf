"""C14: METAR/SPECI text is conserved and time-stamped correctly."""
import calendar
import datetime as dt
import numpy as np
from vt import dm, gen, observe, world

ID = 'C14'
LEVEL = 'exploration'
QUICK, THOROUGH = 18000, 270000
RULE = ('each case writes a standard surface file with the independent writer whose slots carry 0-4 regular and '
        '0-4 special reports (random ids, times, separators, bad or absent times, month and year ends, '
        'unrecognised station groups) with or without numeric values, and compares every returned report; '
        'key = (counts, time kind, values present, special asked)')
ASSUMPTIONS = ['reports stored in one slot belong to one station and each starts with its four-character id',
               'the id does not occur elsewhere in the text of a report',
               'blanks around a report are not part of its text',
               'a text time is that moment nearest to the slot time having its day, hour and minute']
REQUIRE = {'slots': 4000, 'reports': 6000, 'specials': 3000, 'multi': 1500, 'bad_time': 300, 'month_cross': 100, 'blank_text': 300, 'long_texts': 20}

WORDS = ['AUTO', 'CLR', 'BKN012', 'OVC003', '10SM', '1/2SM', '-RA', '+TSRA', 'A2992', '22/17', 'M01/M03', 'RMK',
         'AO2', 'SLP132', 'T02220172', '$', 'COR', 'VCSH', 'NOSPECI', '18015G25KT', 'P0001', '60002', 'R17L/2000FT']


def report(rng, sid, stamp):
    body = ' '.join(rng.choice(WORDS) for _ in range(rng.randint(0, 12)))
    txt = f'{sid} {stamp} {body}'.strip() if stamp else f'{sid} {body or "NIL"}'.strip()
    return txt + rng.choice(['', '', '='])


def resolve(slot, d, h, m):
    """The moment nearest to slot with this day of month, hour and minute."""
    best = None
    for k in (-1, 0, 1):
        y, mo = slot.year, slot.month + k
        if mo == 0:
            y, mo = y - 1, 12
        if mo == 13:
            y, mo = y + 1, 1
        if not (1 <= d <= calendar.monthrange(y, mo)[1] and h < 24 and m < 60):
            continue
        t = dt.datetime(y, mo, d, h, m)
        if best is None or abs(t - slot) < abs(best - slot):
            best = t
    return best or slot


def stamp_of(rng, mon, slot):
    """(text time group, resulting time, kind)"""
    k = rng.random()
    if k < 0.1:
        mon.seen('bad_time')
        return '', slot, 'none'
    if k < 0.2:
        mon.seen('bad_time')
        d, h, m = rng.choice([(0, 12, 0), (32, 12, 0), (slot.day, 24, 0), (slot.day, 25, 10), (slot.day, 5, 60),
                              (99, 99, 99), (45, 1, 1)])
        return f'{d:02d}{h:02d}{m:02d}Z', slot, 'bad'
    t = slot + dt.timedelta(minutes=rng.choice([0, -5, -15, 10, 44, -60, rng.randint(-90, 90)]))
    if t.month != slot.month:
        mon.seen('month_cross')
    return f'{t:%d%H%M}Z', resolve(slot, t.day, t.hour, t.minute), 'good'


def case(mon, rng, i, tier):
    big = i % 300 == 13
    mon.seen('long_texts', big)
    ts = world.times(rng, rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        y = rng.randint(1975, 2060)
        mo = rng.randint(1, 12)
        end = dt.datetime(y, mo, calendar.monthrange(y, mo)[1], 23, rng.choice([0, 55]))
        ts = [end, end + dt.timedelta(minutes=rng.choice([5, 60]))]
    st = world.stations(rng, rng.choice([1, 2, 4]) if not big else 1)
    for s in st:
        s['SPRI'] = 0
    names = ['TMPC', 'PMSL', 'WNUM'][:rng.randint(1, 3)]
    packed = rng.random() < 0.4
    params = world.pack_params(rng, names) if packed else world.real_params(names)
    order = rng.choice([(0, 1, 2), (0, 1, 2), (2, 1, 0), (1, 0, 2)])
    base = [dm.Part('SFDT', 1, 4 if packed else 1, params), dm.Part('SFTX', 1, 3, [('TEXT', 0, 0, 0)]),
            dm.Part('SFSP', 2, 3, [('SPCL', 0, 0, 0)])]
    parts = [base[k] for k in order]
    pos = {k: j for j, k in enumerate(order)}
    cells, want = {}, {True: [], False: []}
    for r, t in enumerate(ts):
        for c, s in enumerate(st):
            ntx, nsp = rng.choice([0, 1, 1, 1, 2, 4]), rng.choice([0, 0, 1, 1, 2, 4])
            if big:
                ntx, nsp = rng.choice([(1, 1), (40, 1), (1, 40), (12, 0), (0, 12)])
            vals = {}
            if rng.random() < 0.7:
                tok, v = (world.pack_data if packed else world.real_data)(rng, params, 1)
                cells[(r, c, pos[0])] = dm.I(1200) + tok
                vals = {n.lower(): (-9999.0 if np.isnan(x) else x) for n, x in zip(names, v[0])}
            if not (ntx or nsp or vals):
                continue
            both = not ntx and not nsp and rng.random() < 0.4  # values with two blank texts
            mon.seen('slots')
            sid = gen.name(rng, 4)
            while any(sid in w for w in WORDS + ['METAR', 'SPECI']):
                sid = gen.name(rng, 4)
            odd = rng.random() < 0.08  # no recognisable station group
            lists = []
            for n, p, pre in ((ntx, 1, (1200,)), (nsp, 2, (nsp, 1200))):
                got = []
                if n:
                    n = 1 if odd else n
                    raw = []
                    for _ in range(n):
                        stamp, when, kind = stamp_of(rng, mon, t)
                        lead = rng.choice(['METAR ' + sid, 'SPECI ' + sid, 'AB', '12345']) if odd else sid
                        txt = report(rng, lead, stamp)
                        if big and n < 5:  # a long report
                            txt += ' ' + ' '.join(rng.choice(WORDS) for _ in range(rng.choice([40, 200, 900])))
                        if odd and rng.random() < 0.5:
                            txt += rng.choice([' ---- RMK ----', ' --------'])
                        raw.append(txt)
                        got.append((txt, when))
                        mon.key(ntx, nsp, kind, bool(vals), p, odd)
                    blob = rng.choice([' ', '  ', '\r\n', '']).join(raw) if not odd else raw[0]
                    if not odd and [(sid + x).strip() for x in blob.split(sid)[1:]] != raw:
                        blob = ' '.join(raw)  # the end of a report and the next id spelled the id
                    cells[(r, c, pos[p])] = dm.I(*pre) + dm.S(blob)
                elif both or rng.random() < 0.1 and (vals or ntx or nsp):  # a text part holding no text
                    cells[(r, c, pos[p])] = dm.I(*pre) + dm.S(rng.choice([' ', '    ', ' ' * 9, '\r\n  ']))
                    mon.seen('blank_text')
                lists.append(got)
            tx, sp = lists
            mon.seen('multi', len(tx) > 1 or len(sp) > 1)
            mon.seen('reports', len(tx))
            mon.seen('specials', len(sp))

            def rep(when, extra):
                info = world.sinfo(s)
                return {'properties': {'date_time': when, 'station_id': info[0], 'station_number': info[1],
                                       'longitude': info[3], 'latitude': info[2], 'elevation': info[4],
                                       'state': info[5], 'country': info[6], 'priority': 0},
                        'values': extra}
            for special in (True, False):
                o = want[special]
                if not tx and not sp:
                    o.append(rep(t, vals))
                for txt, _when in tx:
                    o.append(rep(t, {**vals, 'text': txt}))
                if special:
                    for txt, when in sp:
                        o.append(rep(when, {**({} if tx else vals), 'spcl': txt}))
    if not cells:
        return
    spec = dm.Spec(1, ['DATE', 'TIME'], world.STN_KEYS + ['SPRI'], [world.dkeys(t) for t in ts], st, parts, cells)
    p = mon.put(spec.build(rng.random() < 0.3), '.sfc')
    g = mon.must('open', observe.CLS['sfc'], p)
    if g is None:
        return
    for special in (False, True):
        got, err = mon.run(g.sfjson, include_special=special)
        if err:
            mon.fail('raised', err)
            return
        w = want[special]
        texts = [(x['values'].get('text'), x['values'].get('spcl')) for x in got]
        expt = [(x['values'].get('text'), x['values'].get('spcl')) for x in w]
        if texts != expt:
            k = next((j for j, (a, b) in enumerate(zip(texts, expt)) if a != b), min(len(texts), len(expt)))
            mon.fail('text', f'special={special}: {len(texts)} reports, expected {len(expt)}; at {k}: '
                     f'{texts[k:k + 2]} expected {expt[k:k + 2]}')
            return
        for a, b in zip(got, w):
            d = observe.same_report(a, b)
            if d:
                mon.fail('time' if d.startswith('prop') else 'values', f'special={special}: '
                         f'{b["values"].get("text") or b["values"].get("spcl")!r}: {d}')
                return
    mon.sample = {'slots': len(cells), 'first': str(want[True][:1])[:300]}
