"""C13: nearest_time returns the closest report of each selected station."""
import copy
import datetime as dt
import numpy as np
from vt import observe, world
from vt.checks.c12 import mixed, unchanged

ID = 'C13'
LEVEL = 'exploration'
QUICK, THOROUGH = 16000, 240000
RULE = ('each case opens one random surface file (standard, ship, climate; with and without METAR/SPECI text) '
        'and makes 8 nearest_time requests (times before, after, between and on the reports; every filter and '
        'spelling; none or several filters); the reference picks the nearest known report per station; key = '
        '(layout, text, filter, spelling, stations selected, special)')
ASSUMPTIONS = ['a station is identified by its id (by its number when asked by number) and the state, country or box asked for',
               'of reports equally near any one may be returned',
               'selected stations without any report of the requested kind contribute nothing']
REQUIRE = {'requests': 4000, 'stations': 4000, 'refused': 300, 'ties': 50, 'special_nearest': 100, 'large_files': 15, 'shared_ids': 100}


def case(mon, rng, i, tier):
    large = i % 400 in (3, 8)
    mon.seen('large_files', large)
    shared = rng.random() < 0.2 and not large
    w = world.sfc(rng, text=i % 2 == 0, large=large, shared=shared)
    mon.seen('shared_ids', shared)
    p = mon.put(w.spec.build(rng.random() < 0.3), '.sfc')
    r = mon.must('open', observe.CLS['sfc'], p)
    if r is None:
        return
    infos = [e.info for e in w.entries]
    ts = sorted({x[0] for x in infos})
    for _ in range(8):
        k = rng.random()
        t = rng.choice(ts)
        if k < 0.3:
            t = t + dt.timedelta(minutes=rng.randint(-90, 90))
        elif k < 0.5 and len(ts) > 1:
            a, b = rng.sample(ts, 2)
            t = a + (b - a) / 2
            t = t.replace(second=0)
        elif k < 0.6:
            t = t + dt.timedelta(days=rng.choice([-400, 400]))
        elif k < 0.65:
            t = t + dt.timedelta(seconds=rng.randint(-3000, 3000))
        arg_t = t.strftime('%Y%m%d%H%M') if rng.random() < 0.4 and t.second == 0 else t
        special = rng.random() < 0.5
        name = rng.choice(['station_id', 'station_id', 'station_number', 'state', 'country', 'bbox'])
        col = {'station_id': 1, 'station_number': 2, 'state': 6, 'country': 7, 'bbox': 3}[name]
        groups, arg, tag, unknown = pick(rng, name, col, infos)
        kw = {name: arg, 'include_special': special}
        mode = rng.random()
        if mode < 0.08:
            del kw[name]
            tag = 'no-filter'
        elif mode < 0.16:
            other = rng.choice([n for n in ('station_id', 'station_number', 'state', 'country', 'bbox')
                                if n != name])
            kw[other] = {'station_id': infos[0][1], 'station_number': infos[0][2], 'state': infos[0][6] or 'OK',
                         'country': infos[0][7], 'bbox': (-180, 180, -90, 90)}[other]
            tag = 'several'
        before = copy.deepcopy(kw)
        got, err = mon.run(r.nearest_time, arg_t, **kw)
        mon.seen('requests')
        desc = f'{w.tag} t={t} {before}'
        for a, v in before.items():
            if not unchanged(kw[a], v):
                mon.fail('argument-modified', f'{a}: {v} became {kw[a]}')
        if tag in ('no-filter', 'several'):
            mon.seen('refused')
            mon.key(tag, name)
            if err is None or not isinstance(err.exc, (ValueError, NotImplementedError)):
                mon.fail('not-refused', f'{desc}: {err or got}')
            continue
        if unknown:
            if err is None or not isinstance(err.exc, KeyError):
                mon.fail('unknown-station', f'{desc}: {err or got}')
            continue
        if err is not None:
            if groups or not isinstance(err.exc, KeyError):
                mon.fail('raised', f'{desc}: {err}')
            continue
        want = []
        for g in groups:
            exp = observe.expected_sfc([e for e, x in zip(w.entries, infos) if g(x)], special)
            if exp:
                best = min(abs(x['properties']['date_time'] - t) for x in exp)
                want.append([x for x in exp if abs(x['properties']['date_time'] - t) == best])
        mon.seen('stations', len(want))
        mon.seen('ties', any(len(x) > 1 for x in want))
        mon.seen('special_nearest', any('spcl' in y['values'] for x in want for y in x))
        mon.key(w.tag, name, tag, min(len(want), 3), special)
        if len(got) != len(want):
            mon.fail('count', f'{desc}: {len(got)} reports for {len(want)} stations')
            continue
        left = list(want)
        for a in got:
            j = next((j for j, c in enumerate(left) if any(observe.same_report(a, b) is None for b in c)), None)
            if j is None:
                mon.fail('not-nearest', f'{desc}: returned {a["properties"]}, candidates '
                         f'{[[b["properties"] for b in c] for c in left][:3]}')
                break
            left.pop(j)
    mon.sample = {'tag': str(w.tag), 'times': list(map(str, ts)), 'filter': name, 'stations': len(want)
                  if tag not in ('no-filter', 'several') and not unknown and err is None else None}


def pick(rng, name, col, infos):
    """(groups [whether a report belongs], argument, tag, unknown requested)"""
    if name == 'bbox':
        a, b = rng.choice(infos), rng.choice(infos)
        lat, lon = sorted([a[3], b[3]]), sorted([a[4], b[4]])
        if rng.random() < 0.1:
            return [], (-200.0, -199.0, -90, 90), 'none', False
        box = [lon[0], lon[1], lat[0], lat[1]]
        arg = rng.choice([tuple, list, np.array])(box)
        return by_id(infos, lambda x: lon[0] <= x[4] <= lon[1] and lat[0] <= x[3] <= lat[1]), arg, \
            type(arg).__name__, False
    have = sorted({x[col] for x in infos})
    vals = rng.sample(have, rng.randint(1, min(3, len(have))))
    unknown = rng.random() < 0.08
    if unknown:
        if name == 'station_number':
            new = rng.choice([11, vals[0] + 1, vals[0] * 10, vals[0] // 10])
        else:  # an unknown name, or almost a name of the file
            v = vals[0]
            new = rng.choice(['QQQQ', v + 'X', v + v, v[:-1] or 'Q', v[1:] or 'Q', 'X' + v])
        unknown = new not in have
        vals = vals + [new] * unknown
    spelled = [mixed(rng, v) if isinstance(v, str) else v for v in vals]
    if name == 'station_number' and rng.random() < 0.3:
        spelled = [str(v) for v in spelled]
    if rng.random() < 0.15:  # asked for twice
        v = rng.choice(spelled)
        spelled.insert(rng.randrange(len(spelled) + 1), mixed(rng, v) if isinstance(v, str) else v)
    if len(spelled) == 1 and rng.random() < 0.5:
        arg, tag = spelled[0], 'scalar'
        if arg == '':
            arg, tag = [arg], 'list'
    else:
        kind = rng.choice([list, tuple, np.array])
        arg, tag = kind(spelled), kind.__name__
    if name in ('state', 'country'):
        return by_id(infos, lambda x: x[col] in vals), arg, tag, False
    return [(lambda x, v=v: x[col] == v) for v in vals], arg, tag, unknown


def by_id(infos, chosen):
    """One group of reports per station id among those chosen."""
    return [(lambda x, s=s: x[1] == s and chosen(x)) for s in {x[1] for x in infos if chosen(x)}]
