"""C24: reading is repeatable and independent of query history."""
import datetime as dt
import os

import numpy as np
import xarray as xr
from vt import vgrec, world
from vt.checks import c20
from vt.observe import CLS, canon

ID = 'C24'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: random interleaved query histories on several readers with returned objects overwritten in between; every answer compared with that of a fresh reader'
RULE = 'distinct (file kind, query, previous query, previous failed, previous result overwritten, same reader) seen by the history monitor'
ASSUMPTIONS = ['elements, groups and inventories held by a reader (attributes) are shared objects; the objects returned by queries are the caller\'s']
QUICK = 800
THOROUGH = 12000
REQUIRE = {'answers': 3800, 'overwritten': 1400, 'failing': 150, 'switches': 800, 'files_unchanged': 200,
           'repeat': 300}


def scramble(o, depth=0):
    """Overwrite whatever can be overwritten in a query result."""
    if depth > 6:
        return
    if isinstance(o, (xr.DataArray, xr.Dataset)):
        for k in list(o.coords) + ([] if isinstance(o, xr.DataArray) else list(o.data_vars)):
            scramble(o[k].variable.values, depth + 1)
        if isinstance(o, xr.DataArray):
            scramble(o.values, depth + 1)
        for k in list(o.attrs):
            o.attrs[k] = 'changed'
    elif isinstance(o, np.ndarray):
        try:
            if o.dtype.kind in 'fiu':
                o[...] = 77
            elif o.dtype.kind == 'M':
                o[...] = np.datetime64('1970-01-01')
            if isinstance(o, np.ma.MaskedArray):
                o.mask = True
        except (ValueError, TypeError):
            pass  # read-only
    elif isinstance(o, dict):
        for k in list(o):
            scramble(o[k], depth + 1)
            if not isinstance(o[k], (dict, list)):
                o[k] = 'changed'
        o['extra'] = 1
    elif isinstance(o, list):
        for x in o:
            scramble(x, depth + 1)
        o.clear()


# ------------------------------------------------------------------ operations: (name, callable of reader)

def some(rng, vals, p=0.7):
    """A filter argument: a present value, a list of them, or one that is absent."""
    v = rng.choice(vals)
    return [v, rng.choice(vals)] if rng.random() < 0.3 else v


BAD = ['not a date', object(), 5.5, {'a': 1}]


def grid_ops(rng, w):
    es = w.entries
    out = [('gdinfo', lambda r: r.gdinfo()), ('all', lambda r: r.gdxarray()),
           ('latlon', lambda r: [r.lat, r.lon, r.x, r.y, r.crs.to_string()])]
    for _ in range(4):
        e = rng.choice(es)
        kw = {'parameter': e.info[3], 'date_time': e.info[1], 'coordinate': e.info[6], 'level': e.info[4]}
        kw = {k: v for k, v in kw.items() if rng.random() < 0.5}
        if rng.random() < 0.2:
            kw['parameter'] = 'NOPE'
        out.append(('gdxarray' + ','.join(kw), lambda r, kw=kw: r.gdxarray(**kw)))
    lon, lat = rng.uniform(-100, -70), rng.uniform(25, 45)
    out.append(('project', lambda r: r.project_point(lon, lat)))
    bad = rng.choice(BAD)
    out.append(('bad', lambda r: r.gdxarray(date_time=bad)))
    return out


def stn_ops(rng, w):
    meth = 'sfjson' if w.kind == 'sfc' else 'snxarray'
    es = w.entries
    out = [('info', lambda r: r.sfinfo() if w.kind == 'sfc' else r.sninfo()),
           ('all', lambda r: getattr(r, meth)())]
    for _ in range(5):
        kw = {}
        for k, j in (('date_time', 0), ('station_id', 1), ('station_number', 2), ('state', 6), ('country', 7)):
            if rng.random() < 0.35:
                kw[k] = some(rng, [e.info[j] for e in es])
        if rng.random() < 0.15:
            kw['station_id'] = 'ZZZZ'
        if w.kind == 'sfc' and rng.random() < 0.5:
            kw['include_special'] = True
        out.append((meth + ','.join(kw), lambda r, kw=kw: getattr(r, meth)(**kw)))
    if w.kind == 'sfc':
        for _ in range(2):
            t = rng.choice(es).info[0] + dt.timedelta(minutes=rng.randint(-90, 90))
            sid = rng.choice(es).info[1]
            out.append(('nearest', lambda r, t=t, sid=sid: r.nearest_time(t, station_id=sid)))
        out.append(('nearest-two', lambda r: r.nearest_time(es[0].info[0], station_id='A', state='OK')))
    bad = rng.choice(BAD)
    out.append(('bad', lambda r: getattr(r, meth)(date_time=bad)))
    return out


def vgf_ops(rng, recs):
    def canon_elems(x):
        return None if x is None else [canon(vars(e)) for e in x]
    names = ['fronts', 'text', 'special_text', 'symbols', 'special_symbols', 'markers', 'special_lines', 'lines',
             'winds', 'tracks', 'watch_box', 'sigmet', 'met']
    out = [('elements', lambda r: canon_elems(r.elements)), ('json', lambda r: r.to_json()),
           ('bounds', lambda r: r.bounds), ('groups', lambda r: tuple(r.groups)),
           ('header', lambda r: r.header and canon(vars(r.header)))]
    for nm in rng.sample(names, 4):
        out.append((f'get_{nm}', lambda r, nm=nm: VgfResult(getattr(r, f'get_{nm}')())))
        out.append((f'has_{nm}', lambda r, nm=nm: getattr(r, f'has_{nm}')))
    heads = [r.head for r in recs]
    for _ in range(3):
        h = rng.choice(heads)
        kw = rng.choice([{'vg_class': h['vg_class']}, {'vg_type': h['vg_type']},
                         {'vg_class': h['vg_class'], 'vg_type': rng.choice(heads)['vg_type'], 'operation': 'or'}])
        out.append(('filter' + ','.join(kw), lambda r, kw=kw: VgfResult(r.filter_elements(**kw))))
        out.append(('group', lambda r, g=h['group_type']: GroupResult(r.get_group(g))))
    out.append(('bad', lambda r: r.filter_elements(vg_class=1, operation='xor')))
    return out


class VgfResult:
    """A list of elements handed out by a query."""

    def __init__(self, x):
        self.x = x

    def canon(self):
        return None if self.x is None else [canon(vars(e)) for e in self.x]

    def scramble(self):
        if self.x:
            self.x.reverse()
            self.x.append(self.x[0])
            del self.x[0]


class GroupResult(VgfResult):
    def canon(self):
        return None if self.x is None else [(g.group_type, g.group_number, g.group_size,
                                             [canon(vars(e)) for e in g]) for g in self.x]

    def scramble(self):
        for g in self.x or []:
            g.add_element(g.elements[0])
            g.elements.reverse()
        if self.x:
            self.x.clear()


def answer(mon, r, op):
    """(comparable answer, raw result)"""
    res, err = mon.run(op, r)
    if err:
        return ('raised', str(err).split(' @')[0].split(':')[0]), None
    return (res.canon() if isinstance(res, VgfResult) else canon(res)), res


def case(mon, rng, i, tier):
    kinds = ['grid', 'snd', 'raob', 'sfc', 'vgf']
    files = []
    for _ in range(rng.choice([1, 1, 2])):
        kind = kinds[i % 5] if not files else rng.choice(kinds)
        if kind == 'vgf':
            from gempakio import VectorGraphicFile as cls
            recs = c20.sequence(rng, rng.choice([3, 6]))
            data, ext, ops = b''.join(r.data for r in recs), '.vgf', vgf_ops(rng, recs)
        else:
            w = world.make(rng, kind)
            data, ext, cls = w.spec.build(), w.ext, CLS[kind]
            ops = (grid_ops if kind == 'grid' else stn_ops)(rng, w)
        p = mon.put(data, ext)
        readers = []
        for _r in range(rng.choice([1, 2])):
            r, err = mon.run(cls, p)
            if err:
                mon.fail(f'{kind}-open-raised', err)
                return
            readers.append(r)
        base = []
        for nm, op in ops:
            fresh, err = mon.run(cls, p)
            base.append(answer(mon, fresh, op)[0])
        files.append((kind, p, data, ops, base, readers, os.stat(p).st_mtime_ns))
    prev = None
    mon.sample = {'files': [(f[0], len(f[2]), len(f[5])) for f in files]}
    for _step in range(rng.choice([8, 15, 30])):
        f = rng.choice(files)
        kind, p, data, ops, base, readers, _m = f
        k = rng.randrange(len(ops))
        if prev and prev[0] is f and rng.random() < 0.15:
            k = prev[1]
            mon.seen('repeat')
        q = rng.randrange(len(readers))
        ans, res = answer(mon, readers[q], ops[k][1])
        mon.seen('answers')
        failed = isinstance(ans, tuple) and ans[:1] == ('raised',)
        mon.seen('failing', failed)
        same = bool(prev) and prev[0] is f and prev[2] == q
        mon.seen('switches', bool(prev) and not same)
        mon.key(kind, ops[k][0], prev and prev[3], prev and prev[4], prev and prev[5], same)
        if ans != base[k]:
            mon.fail('history', f'{kind}: {ops[k][0]} answers differently after {prev and prev[3]} '
                     f'(failed {prev and prev[4]}, result overwritten {prev and prev[5]}, same reader {same}): '
                     f'{diff(ans, base[k])}')
            return
        over = False
        if res is not None and rng.random() < 0.6:
            res.scramble() if isinstance(res, VgfResult) else ops[k][0] == 'latlon' or scramble(res)
            over = True
            mon.seen('overwritten')
        prev = (f, k, q, ops[k][0], failed, over)
    for kind, p, data, _ops, _b, _r, mtime in files:
        with open(p, 'rb') as fo:
            now = fo.read()
        mon.seen('files_unchanged')
        if now != data or os.stat(p).st_mtime_ns != mtime:
            mon.fail('file-modified', kind)


def diff(a, b, where=''):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f'{where}[{k}]')
    return f'{where} {str(a)[:150]} instead of {str(b)[:150]}'
