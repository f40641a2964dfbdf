"""C02: grid inventory and metadata survive write+read."""
import datetime as dt
from collections import Counter

import numpy as np
from gempakio import GempakGrid, GridFile
from vt import gen

ID = 'C02'
LEVEL = 'exploration'
QUICK, THOROUGH = 4500, 67500
RULE = ('each case adds 1-8 tagged grids with random time spelling/type/offset, second time, levels, '
        'coordinate and parameter (from small pools so that keys collide and mix) and compares gdinfo() '
        'and gdxarray() with the model; key = (time form, type, offset digits, second-time form, '
        'level2 present, coordinate, name length)')
ASSUMPTIONS = ['years 1969-2068 (two-digit years in the format)', 'levels are non-negative integers',
               'names without blanks']
REQUIRE = {'entries_compared': 3000, 'second_times': 300, 'typed_times': 800, 'big_files': 5}

COORDS = ['none', 'pres', 'thta', 'hght', 'sgma', 'dpth', 'hybd', 'pvab', 'pvbl', None]
TYPE = {'A': 'analysis', 'F': 'forecast', 'V': 'forecast', 'G': 'guess', 'I': 'initial'}
CODE = {'analysis': 0, 'forecast': 1, 'guess': 2, 'initial': 3}
VAR = {'PRES': 'p', 'HGHT': 'z', 'THTA': 'theta'}


def time_spec(rng, base, force_type=None):
    """(argument, type name, identity key, valid time, tag)"""
    init = rng.choice(base)
    form = rng.choice(['dt', 'str', 'typed', 'typed', 'typed'])
    if force_type not in (None, 'analysis') and form == 'typed':
        letters = [c for c in TYPE if TYPE[c] == force_type]
    elif force_type == 'analysis' and form == 'typed':
        letters = ['A']
    else:
        letters = list(TYPE)
    if form == 'dt':
        if rng.random() < 0.3:  # files keep times to the minute
            return (init.replace(second=rng.randint(1, 59), microsecond=rng.choice([0, 5])), 'analysis',
                    ('analysis', init), init, ('dt', 'seconds'))
        return init, 'analysis', ('analysis', init), init, ('dt',)
    s = init.strftime('%Y%m%d%H%M')
    if form == 'str':
        return s, 'analysis', ('analysis', init), init, ('str',)
    t = rng.choice(letters)
    nd = rng.choice([0, 1, 2, 3, 3, 5, 5])
    h = mi = 0
    if nd in (1, 2, 3):
        h = rng.randrange(10 ** nd)
        off = f'{h:0{nd}d}'
    elif nd == 5:
        h, mi = rng.randrange(0, 500), rng.randrange(60)
        off = f'{h:03d}{mi:02d}'
    else:
        off = ''
    valid = init + dt.timedelta(hours=h, minutes=mi)
    if valid.year > 2068:
        valid, h, mi, off = init, 0, 0, ''
    key = ('analysis', valid) if t == 'A' else (TYPE[t], init, h, mi)
    low = rng.random() < 0.2
    return s + (t.lower() if low else t) + off, TYPE[t], key, valid, ('typed', t, nd)


def case(mon, rng, i, tier):
    nx, ny = rng.randint(3, 5), rng.randint(3, 5)
    big = i % 450 == 11
    mon.seen('big_files', big)
    gf = mon.must('GridFile', gen.eqc_file, GridFile, nx, ny)
    if gf is None:
        return
    base = [gen.rand_dt(rng, 1970, 2067) for _ in range(rng.randint(1, 3))]
    names = [gen.name(rng, rng.choice([1, 2, 3, 4, 4, 5, 8, 9, 12])) for _ in range(2)]
    names.append(rng.choice(['TMPK', 'PRES', 'HGHT', 'THTA', 'UREL', 'P06M', 'CAPEC1234567']))
    levels = [rng.choice([0, 1, 2, 10, 500, 850, 1000, 100000]) for _ in range(2)]
    if big:
        levels = rng.sample(range(2000), 300)
    model = {}
    log = []
    tags = []
    for k in range(rng.choice([140, 300, 700]) if big else rng.randint(1, 8)):
        a1, typ, key1, v1, tag1 = time_spec(rng, base)
        kw = {}
        v2 = None
        key2 = None
        tag2 = None
        if rng.random() < 0.4:
            a2, typ2, key2, v2, tag2 = time_spec(rng, base, typ)
            kw['date_time2'] = a2
        l2 = None
        if rng.random() < 0.3:
            l2 = rng.choice(levels)
            kw['level2'] = l2
        pname = rng.choice(names)
        coord = rng.choice(COORDS)
        lev = rng.choice(levels)
        pa = pname.lower() if rng.random() < 0.2 else pname
        ca = coord.upper() if coord and rng.random() < 0.5 else coord
        lva = float(lev) if rng.random() < 0.1 else lev
        g = np.full((ny, nx), float(10 * k))
        g[0, 0] += 1
        log.append((pa, ca, lva, a1, kw))
        _, err = mon.run(gf.add_grid, g, pa, ca, lva, a1, **kw)
        if tag2 is not None and tag2[0] == 'typed' and typ2 != typ:
            # documented rejection of mixed types
            if err is None:
                mon.fail('type-mismatch-accepted', log[-1])
                return
            mon.seen('rejected_mismatch')
            continue
        if err is not None:
            mon.fail('add_grid-raised', (err, log))
            return
        cname = (coord or 'none').upper()
        model[(key1, key2, pname, cname, lev, l2)] = (
            (typ, v1, v2, pname, lev, l2, cname), float(10 * k))
        tags.append((tag1, tag2, l2 is not None, cname, len(pname)))
        mon.seen('typed_times', tag1[0] == 'typed')
        mon.seen('second_times', tag2 is not None)
    if not model:
        return
    p = mon.path('.grd')
    _, err = mon.run(gf.to_gempak, p)
    if err:
        mon.fail('to_gempak-raised', (err, log))
        return
    gg = mon.must('GempakGrid', GempakGrid, p)
    if gg is None:
        return
    info = mon.must('gdinfo', gg.gdinfo)
    grids = mon.must('gdxarray', gg.gdxarray)
    if info is None or grids is None:
        return
    got = Counter((g.TYPE, g.DATTIM1, g.DATTIM2, g.PARM, g.LEVEL1, g.LEVEL2, g.COORD) for g in info)
    want = Counter(v[0] for v in model.values())
    if got != want:
        mon.fail('inventory', f'missing {list((want - got))[:3]} extra {list((got - want))[:3]} log {log}')
        return
    if len(grids) != len(info):
        mon.fail('data-count', (len(grids), len(info)))
        return
    datas = Counter()
    for g, x in zip(info, grids):
        vals = x.values.reshape(ny, nx)
        tag = float(vals[-1, -1])
        ok = vals[0, 0] == tag + 1 and (vals.ravel()[1:] == tag).all()
        if not ok:
            mon.fail('values', (g, vals))
            return
        datas[((g.TYPE, g.DATTIM1, g.DATTIM2, g.PARM, g.LEVEL1, g.LEVEL2, g.COORD), tag)] += 1
        t = x['time'].values
        if len(t) != 1 or t[0] != np.datetime64(g.DATTIM1):
            mon.fail('time-coordinate', (t, g))
        vc = g.COORD.lower()
        if vc not in x.dims or x[vc].values.tolist() != [g.LEVEL1]:
            mon.fail('level-coordinate', (x.dims, g))
        if x.attrs.get('grid_type') != g.TYPE:
            mon.fail('grid-type', (x.attrs.get('grid_type'), g))
        if x.name != VAR.get(g.PARM, g.PARM.lower()):
            mon.fail('variable-name', (x.name, g))
        mon.seen('entries_compared')
    want = Counter(model.values())
    if datas != want:
        mon.fail('data-under-wrong-entry', f'{(want - datas)} vs {(datas - want)}')
    for t in tags:
        mon.key(t)
    mon.sample = {'adds': [repr(x) for x in log]}
