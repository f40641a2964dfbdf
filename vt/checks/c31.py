"""C31: inputs that mean the same make the same file."""
import copy
import datetime as dt
import numpy as np
from gempakio import GridFile, SoundingFile, SurfaceFile
from gempakio.encode import vgf as ev
from vt import build, gen, vgw

ID = 'C31'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: the same content is given to the builders in differently spelled but equivalent '
             'arguments; the bytes written are compared')
QUICK, THOROUGH = 5000, 80000
RULE = ('each case builds a file from random content, then again with every argument respelled (memory layout, byte '
        'order, writability, lists, letter case, key order, number types, time spellings, missing-value spellings, '
        'positional or keyword), and compares the bytes; key = (kind, respellings used)')
ASSUMPTIONS = ['arrays keep their precision (float32 stays float32)', 'single-precision values where the number type changes']
REQUIRE = {'files': 4500, 'respelled': 9000}


def layout(rng, a, used):
    """The same array: other layout, byte order, writability."""
    k = rng.choice(['C', 'F', 'view', 'rev', 'swap', 'ro', 'swapF', 'copy'])
    used.add(k)
    if k == 'C':
        return np.ascontiguousarray(a)
    if k == 'F':
        return np.asfortranarray(a)
    if k == 'view':
        b = np.full(tuple(2 * n + 1 for n in a.shape), 7, a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 'rev':
        return np.ascontiguousarray(a[::-1])[::-1]
    if k in ('swap', 'swapF'):
        return np.array(a, dtype=a.dtype.newbyteorder('>'), order='F' if k == 'swapF' else 'C')
    b = np.array(a)
    if k == 'ro':
        b.setflags(write=False)
    return b


def missing(rng, a, used):
    """Missing cells spelled as NaN or as the missing value."""
    if a.dtype.kind != 'f':
        return a
    m = np.isnan(a) | (a == -9999)
    if m.any():
        used.add('missing')
        a = np.array(a)
        a[m] = np.where(gen.nprng(rng).random(int(m.sum())) < rng.choice([0, 0.5, 1]), np.nan, -9999.0)
    return a


def cased(rng, s, used):
    used.add('case')
    return rng.choice([s, s.lower(), s.upper(), s.title(), ''.join(rng.choice([c.lower(), c.upper()]) for c in s)])


def num(rng, v, used):
    used.add('number')
    return rng.choice([v, int(v), float(v), np.float64(v)]) if str(float(v)) == f'{int(v)}.0' else rng.choice([v, np.float64(v)])


def respell_time(rng, t, used):
    """A grid time given as datetime or string: another spelling of it."""
    if not isinstance(t, dt.datetime):
        s = str(t)
        if len(s) == 12:
            t = dt.datetime.strptime(s, '%Y%m%d%H%M')
        else:
            init, typ, off = s[:12], s[12].upper(), s[13:]
            h, m = int(off[:3] or 0), int(off[3:] or 0)
            used.add('typed')
            typ = rng.choice({'F': 'FfVv', 'V': 'FfVv', 'G': 'Gg', 'I': 'Ii', 'A': 'Aa'}[typ])
            forms = [f'{h:03d}{m:02d}']
            if not m:
                forms += [f'{h:03d}', str(h)] + ([''] if not h else [])
            return init + typ + rng.choice(forms)
    used.add('time')
    s = t.strftime('%Y%m%d%H%M')
    return rng.choice([t, t.replace(second=rng.randint(0, 59)), s, s + 'A', s + 'a000', s + 'A00000',
                       (t - dt.timedelta(hours=3)).strftime('%Y%m%d%H%M') + 'A003'])


def respell_grid(rng, op, used):
    (a, nm, vc, lev, when), kw = op
    kw = dict(kw)
    d = [layout(rng, missing(rng, a, used), used), cased(rng, nm, used),
         rng.choice([None, 'NONE', 'none']) if (vc or 'none').lower() == 'none' else cased(rng, vc, used),
         rng.choice([lev, float(lev), np.float64(lev)]), respell_time(rng, when, used)]
    if kw.get('level2') is not None:
        kw['level2'] = rng.choice([int, float])(kw['level2'])
    elif rng.random() < 0.3:
        kw['level2'] = None
    if kw.get('date_time2') is not None:
        plain = [isinstance(x, dt.datetime) or len(x) == 12 for x in (when, kw['date_time2'])]
        if all(plain):
            # both stay untyped or both become typed
            x, y = respell_time(rng, when, used), respell_time(rng, kw['date_time2'], used)
            d[4], kw['date_time2'] = x, y
        elif not any(plain):
            kw['date_time2'] = respell_time(rng, kw['date_time2'], used)
    elif rng.random() < 0.3:
        kw['date_time2'] = None
    names = ['grid', 'parameter_name', 'vertical_coordinate', 'level', 'date_time']
    k = rng.choice([5, 5, 0, 3])
    kw.update(zip(names[k:], d[k:]))
    used.add(f'positional{k}')
    return tuple(d[:k]), kw


def respell_station(rng, op, surface, used):
    (data, lat, lon, when, info), kw = op
    keys = list(data)
    rng.shuffle(keys)
    out = {}
    for k in keys:
        v = data[k]
        if surface:
            if np.isnan(v) or v == -9999:
                used.add('missing')
                v = rng.choice([float('nan'), -9999.0, -9999, np.float32('nan'), np.float64(-9999)])
            else:
                used.add('number')
                v = rng.choice([v, float(v), np.float64(v), np.float32(v)] + ([int(v)] if str(float(v)) == f'{int(v)}.0' else []))
        else:
            v = layout(rng, missing(rng, np.asarray(v), used), used)
            r = rng.random()
            if r < 0.2:
                used.add('list')
                v = v.tolist()
            elif r < 0.4 and v.dtype.kind == 'f':
                used.add('dtype')
                v = v.astype('f4')
        out[cased(rng, k, used)] = v
    if isinstance(when, dt.datetime):
        t = when
    elif 'F' in when.upper():
        b, h = when.upper().split('F')
        t = dt.datetime.strptime(b, '%Y%m%d%H%M') + dt.timedelta(hours=int(h))
    else:
        t = dt.datetime.strptime(when, '%Y%m%d%H%M')
    s = t.strftime('%Y%m%d%H%M')
    forms = [t, s, t.replace(second=rng.randint(0, 59), microsecond=5)]
    if not surface:
        forms += [s + 'F0', s + 'f00', (t - dt.timedelta(hours=30)).strftime('%Y%m%d%H%M') + 'F030']
    used.add('time')
    if info is None or not info:
        info = rng.choice([None, {}])
    else:
        keys = list(info)
        rng.shuffle(keys)
        new = {}
        for k in keys:
            v = info[k]
            if k in ('station_number', 'elevation', 'priority'):
                v = rng.choice([int(v), str(v), np.int64(v), np.int32(v)])
            elif k in ('station_id', 'state', 'country') and isinstance(v, str):
                v = cased(rng, v, used)
            new[k] = v
        info = new
    d = [out, num(rng, lat, used), num(rng, lon, used), rng.choice(forms), info]
    names = ['data', 'slat', 'slon', 'date_time', 'station_info']
    k = rng.choice([5, 4, 0, 1])
    used.add(f'positional{k}')
    return tuple(d[:k]), dict(zip(names[k:], d[k:]))


def case(mon, rng, i, tier):
    if i % 4 == 3:
        vgf_case(mon, rng)
        return
    c = build.Content(rng, ['grid', 'snd', 'sfc'][i % 4])
    ref = c.built(mon)
    if ref is None:
        return
    used = set()
    other = copy.deepcopy(c)
    for j, op in enumerate(c.ops):
        other.ops[j] = (respell_grid(rng, op, used) if c.kind == 'grid' else
                        respell_station(rng, op, c.kind == 'sfc', used))
        mon.seen('respelled')
    if c.kind != 'grid':
        ps = [cased(rng, p, used) for p in c.c['params']]
        ps = rng.choice([list, tuple, np.array])(ps)
        b, err = mon.run(SurfaceFile if c.kind == 'sfc' else SoundingFile, ps)
    else:
        b, err = mon.run(grid_file, c)
    for op in other.ops:
        if not err:
            _, err = mon.run(c.adder(b), *op[0], **op[1])
            if err:
                mon.fail('respelled-refused', f'{c.kind} {[(type(x).__name__, str(x)[:60]) for x in op[0]]} '
                         f'{ {k: (type(x).__name__, str(x)[:60]) for k, x in op[1].items()} }: {err}')
                return
    data, err = c.write(mon, b) if not err else (None, err)
    if err:
        mon.fail('respelled-raised', f'{c.kind}: {err}')
        return
    mon.seen('files')
    mon.key(c.kind, tuple(sorted(used)))
    if data != ref:
        j = next((k for k in range(min(len(data), len(ref))) if data[k] != ref[k]), -1)
        mon.fail('different-file', f'{c.kind}: {len(ref)} and {len(data)} bytes, first difference at {j}; '
                 f'{[str(x)[:60] for x in c.ops[0][0][1:]]} / {[str(x)[:60] for x in other.ops[0][0][1:]]} '
                 f'{ {k: str(x)[:60] for k, x in other.ops[0][1].items()} } {sorted(used)}')
    mon.sample = {'kind': c.kind, 'respellings': sorted(used), 'adds': len(c.ops)}


def grid_file(c):
    b = gen.eqc_file(GridFile, c.nx, c.ny)
    b.precision = c.bits
    return b


# ------------------------------------------------------------------ vector graphics

def respell_element(rng, s, used):
    kind, d, after = copy.deepcopy(s)
    for k in ('lon', 'lat'):
        v = d[k]
        if np.ndim(v):
            r = rng.choice(['list', 'tuple', 'array', 'f4', 'items'])
            used.add(r)
            v = np.asarray(v, float)
            d[k] = (v.tolist() if r == 'list' else tuple(v.tolist()) if r == 'tuple' else
                    layout(rng, v, used) if r == 'array' else v.astype('f4') if r == 'f4' else list(v))
        else:
            d[k] = num(rng, v, used)
    for k, v in list(d.items()):
        if k not in ('lon', 'lat', 'text') and type(v) is int:
            used.add('number')
            d[k] = rng.choice([v, np.int64(v), np.int32(v), v])
    keys = list(d)
    rng.shuffle(keys)
    return kind, {k: d[k] for k in keys}, after


def vgf_case(mon, rng):
    specs = [vgw.spec(rng) for _ in range(rng.randint(1, 5))]
    v = vgw.vgfile(mon, specs)
    if v is None:
        return
    ref, err = vgw.write(mon, v)
    if err:
        mon.fail('to_vgf-raised', err)
        return
    used = set()
    els = []
    for s in specs:
        t = respell_element(rng, s, used)
        mon.seen('respelled')
        e, err = vgw.make(mon, t)
        if err:
            mon.fail('respelled-refused', f'{s[0]} {err} { {k: type(x).__name__ for k, x in t[1].items()} }')
            return
        els.append(e)
    k = rng.choice([0, len(els)])
    w = ev.VGFile.from_elements(*els[:k])
    for e in els[k:]:
        w.add_element(e)
    data, err = vgw.write(mon, w)
    if err:
        mon.fail('respelled-raised', f'{[s[0] for s in specs]}: {err}')
        return
    mon.seen('files')
    mon.key('vgf', tuple(sorted({s[0] for s in specs})), tuple(sorted(used)))
    if data != ref:
        j = next((k for k in range(min(len(data), len(ref))) if data[k] != ref[k]), -1)
        mon.fail('different-file', f'{[s[0] for s in specs]}: {len(ref)} and {len(data)} bytes, first difference at {j}')
    mon.sample = {'kind': 'vgf', 'elements': [s[0] for s in specs], 'respellings': sorted(used)}
