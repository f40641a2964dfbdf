"""C12: query filters select exactly the matching entries."""
import copy
import datetime as dt
import numpy as np
from vt import observe, world

ID = 'C12'
LEVEL = 'exploration'
QUICK, THOROUGH = 3000, 45000
RULE = ('each case opens one random file (independent writer, with and without unused slots) and makes 10 random '
        'queries with 1-4 filters in every documented spelling (scalar, list, tuple, set, array, any letter '
        'case, datetime or string, first/last, inclusive boxes, values that match nothing); the result must be '
        'the entries selected by a reference filter over the known content, in inventory order; key = (kind, '
        'filters and spellings, number selected)')
ASSUMPTIONS = ['array-like means list, tuple, set or one-dimensional numpy array',
               '"first"/"last" refer to all entries of the file, not to those left by the other filters']
REQUIRE = {'queries': 5000, 'empty_queries': 500, 'multi_filter': 1500, 'selected': 8000, 'first_last': 400, 'large_files': 15}

FIELD = {'grid': {'parameter': 3, 'date_time': 1, 'coordinate': 6, 'level': 4, 'date_time2': 2, 'level2': 5},
         'stn': {'station_id': 1, 'station_number': 2, 'date_time': 0, 'state': 6, 'country': 7, 'bbox': None}}


def mixed(rng, s):
    return rng.choice([s, s, s.lower(), s.upper(), ''.join(rng.choice([c.lower(), c.upper()]) for c in s)])


def spell(rng, name, vals):
    """A documented spelling of a filter accepting vals (a list): (argument, tag)."""
    if name.startswith('date_time'):
        out = [v if rng.random() < 0.5 else v.strftime('%Y%m%d%H%M') for v in vals]
    elif name in ('parameter', 'coordinate', 'station_id', 'state', 'country'):
        out = [mixed(rng, v) for v in vals]
    else:
        out = [rng.choice([v, v, np.int64(v), float(v) if name.startswith('level') else v]) for v in vals]
    if len(out) == 1 and rng.random() < 0.45:
        return out[0], 'scalar'
    k = rng.choice(['list', 'list', 'tuple', 'array', 'set'])
    if k == 'tuple':
        return tuple(out), k
    if k == 'set':
        return set(out), k
    if k == 'array':
        a = np.empty(len(out), dtype=object) if name.startswith('date_time') else np.array(out)
        if name.startswith('date_time'):
            a[:] = out
        return a, k
    return out, k


def absent(name):
    return {'parameter': 'ZZZZ', 'coordinate': 'ZZZZ', 'level': 12345, 'level2': 54321, 'station_id': 'QQQQ',
            'station_number': 11, 'state': 'ZZ', 'country': 'QQ'}.get(name, dt.datetime(1971, 2, 3, 4, 5))


def draw(rng, name, infos, col):
    """(argument, predicate over info, tag)"""
    if name == 'bbox':
        a, b = rng.choice(infos), rng.choice(infos)
        lat, lon = sorted([a[3], b[3]]), sorted([a[4], b[4]])
        k = rng.random()
        if k < 0.5:  # edges exactly on stations
            box = [lon[0], lon[1], lat[0], lat[1]]
            tag = 'edge'
        elif k < 0.65:  # just outside the station on one side
            box = [lon[0], lon[1], lat[0], lat[1]]
            j = rng.randrange(4)
            box[j] = float(box[j]) + (0.005 if j in (0, 2) else -0.005)
            tag = 'just-out'
        elif k < 0.9:
            box = [lon[0] - rng.uniform(0, 40), lon[1] + rng.uniform(0, 40), lat[0] - rng.uniform(0, 20),
                   lat[1] + rng.uniform(0, 20)]
            tag = 'wide'
        else:
            box = [-200, -190, 91, 92]
            tag = 'none'
        arg = rng.choice([list, tuple, np.array])(box)
        le, ri, bo, to = box
        return arg, lambda i: le <= i[4] <= ri and bo <= i[3] <= to, tag
    if name.startswith('date_time') and rng.random() < 0.3:
        word = rng.choice(['first', 'FIRST', 'last', 'LAST'])
        have = [i[col] for i in infos if i[col] is not None]
        v = (min if word.lower() == 'first' else max)(have) if have else object()
        return word, lambda i: i[col] == v, word.lower()
    pool = [i[col] for i in infos if i[col] is not None]
    n = rng.choice([1, 1, 1, 2, 3])
    if len(infos) > 100 and rng.random() < 0.5 or rng.random() < 0.01:
        n = rng.choice([20, 60, 130, 300])
    vals = []
    nearly = ''
    for _ in range(n):
        vals.append(rng.choice(pool) if pool and rng.random() < 0.88 else absent(name))
        if isinstance(vals[-1], str) and vals[-1] and rng.random() < 0.12:  # almost a name of the file
            v = vals[-1]
            vals[-1] = rng.choice([v + 'X', v + '0', v[:-1], v[1:], 'X' + v, v + v, v[:-1] + '?', '?' + v[1:]])
            nearly = 'near'
        elif isinstance(vals[-1], dt.datetime) and rng.random() < 0.1:
            vals[-1] += dt.timedelta(minutes=rng.choice([1, -1, 60, -60, 1440, -1440, 525600]))
            nearly = 'near'
        elif isinstance(vals[-1], int) and rng.random() < 0.1:
            vals[-1] = rng.choice([vals[-1] + 1, vals[-1] - 1, vals[-1] // 10, vals[-1] * 10])
            nearly = 'near'
    if rng.random() < 0.03:
        vals = []
    arg, tag = spell(rng, name, vals) if vals else ([], 'empty')
    return arg, lambda i: i[col] is not None and i[col] in vals, tag + nearly


def frozen(a):
    return copy.deepcopy(a)


def unchanged(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and all(
            x == y and type(x) is type(y) for x, y in zip(a.tolist(), b.tolist()))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(
            x == y and type(x) is type(y) for x, y in zip(a, b))
    return a == b


def case(mon, rng, i, tier):
    large = i % 150 in (3, 76)
    w = world.make(rng, rng.choice(['grid', 'snd', 'sfc']) if large else ['grid', 'snd', 'sfc', 'raob', 'grid', 'sfc'][i % 6],
                   large)
    mon.seen('large_files', large)
    spec = w.spec
    if rng.random() < 0.3:
        spec, _n, _ = world.holes(rng, w.spec, w.kind != 'grid' and getattr(w, 'layout', '') != 'ship', True)
    p = mon.put(spec.build(rng.random() < 0.3), w.ext)
    r = mon.must('open', observe.CLS[w.kind], p)
    if r is None or not observe.check_all(mon, w, r):
        return
    if w.kind != 'sfc':
        full, err = mon.run(observe.query, r, w.kind)
        if err or len(full) != len(w.entries):
            mon.fail('full-query', err or len(full))
            return
        full = [observe.canon(x) for x in full]
    infos = [e.info for e in w.entries]
    fields = FIELD['grid' if w.kind == 'grid' else 'stn']
    for _ in range(10):
        names = rng.sample(list(fields), rng.choice([1, 1, 2, 2, 3, 4]))
        kw, preds, tags = {}, [], []
        for n in names:
            kw[n], pr, tag = draw(rng, n, infos, fields[n])
            preds.append(pr)
            tags.append((n, tag))
        special = rng.random() < 0.5 if w.kind == 'sfc' else None
        want = [k for k, inf in enumerate(infos) if all(pr(inf) for pr in preds)]
        before = {k: frozen(v) for k, v in kw.items()}
        if special is not None:
            kw['include_special'] = special
        got, err = mon.run(observe.query, r, w.kind, **kw)
        mon.seen('queries')
        mon.seen('multi_filter', len(names) > 1)
        mon.seen('first_last', any(t in ('first', 'last') for _n, t in tags))
        mon.seen('selected', len(want))
        mon.key(w.kind, sorted(tags), min(len(want), 2))
        desc = f'{w.tag} {before} tags {tags}'
        for k, v in before.items():
            if not unchanged(kw[k], v):
                mon.fail('argument-modified', f'{k}: {v} became {kw[k]}')
        if not want:
            mon.seen('empty_queries')
            if err is None:
                mon.fail('no-KeyError', f'{desc}: returned {len(got)} entries, none match')
            elif not isinstance(err.exc, KeyError):
                mon.fail('wrong-error', f'{desc}: {err}')
            continue
        if err is not None:
            mon.fail('query-raised', f'{desc}: {err}; {len(want)} entries match')
            continue
        if w.kind == 'sfc':
            exp = observe.expected_sfc([w.entries[k] for k in want], special)
            if len(exp) != len(got):
                mon.fail('selection', f'{desc}: {len(got)} reports, expected {len(exp)}')
                continue
            for a, b in zip(got, exp):
                d = observe.same_report(a, b)
                if d:
                    mon.fail('selection', f'{desc}: {d}')
                    break
        elif [observe.canon(x) for x in got] != [full[k] for k in want]:
            mon.fail('selection', f'{desc}: returned {len(got)} entries, expected {[infos[k] for k in want][:4]}')
    mon.sample = {'tag': str(w.tag), 'query': {k: str(v) for k, v in kw.items()}, 'selected': len(want)}
