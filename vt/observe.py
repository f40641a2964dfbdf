"""Canonical, comparable forms of what the readers return."""
import datetime as dt
import enum
import numpy as np
import xarray as xr
from gempakio import GempakGrid, GempakSounding, GempakSurface

CLS = {'grid': GempakGrid, 'snd': GempakSounding, 'raob': GempakSounding, 'sfc': GempakSurface}


def canon(o):
    if isinstance(o, xr.DataArray):
        return ('DA', o.name, o.dims, canon(o.values), tuple((k, canon(v.values)) for k, v in o.coords.items()),
                canon(dict(o.attrs)))
    if isinstance(o, xr.Dataset):
        return ('DS', tuple((k, v.dims, canon(v.values)) for k, v in o.variables.items()),
                canon(dict(o.attrs)))
    if isinstance(o, np.ma.MaskedArray):
        return ('MA', canon(o.filled(np.nan)), canon(np.ma.getmaskarray(o)))
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'f':
            a = o.copy()
            a[np.isnan(a)] = np.nan
            return (str(o.dtype), o.shape, (a + 0.0).tobytes())
        if o.dtype.kind == 'O':
            return ('O', o.shape, tuple(canon(x) for x in o.ravel()))
        return (str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, dict):
        return tuple((k, canon(v)) for k, v in o.items())
    if isinstance(o, (tuple, list)):
        return tuple(canon(x) for x in o)
    if isinstance(o, (float, np.floating)):
        return ('f', float(o).hex())
    if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
        return int(o)
    if type(o).__module__.split('.')[0] == 'gempakio' and getattr(o, '__dict__', None) and not isinstance(o, enum.Enum):
        return (type(o).__name__, canon(vars(o)))
    return o if isinstance(o, (str, bytes, bool, type(None), dt.datetime, dt.date, dt.time)) else repr(o)


def inventory(r, kind):
    """Inventory tuples without slot numbers."""
    if kind == 'grid':
        return [tuple(g[1:]) for g in r.gdinfo()]
    if kind in ('snd', 'raob'):
        return [tuple(s[2:]) for s in r.sninfo()]
    return [tuple(s[2:]) for s in r.sfinfo()]


def query(r, kind, **kw):
    if kind == 'grid':
        return r.gdxarray(**kw)
    if kind in ('snd', 'raob'):
        return r.snxarray(**kw)
    return r.sfjson(**kw)


def everything(r, kind):
    out = [('inventory', canon(inventory(r, kind)))]
    if kind == 'sfc':
        out.append(('all', canon(r.sfjson())))
        out.append(('special', canon(r.sfjson(include_special=True))))
    else:
        out.append(('all', canon(query(r, kind))))
    if kind == 'grid':
        out.append(('xy', canon([r.x, r.y, r.lat, r.lon])))
        out.append(('crs', r.crs.to_string()))
    return out


def expected_sfc(entries, special=False):
    """Reference sfjson output for world surface entries."""
    out = []
    for e in entries:
        t, sid, num, lat, lon, elev, stat, coun = e.info
        d = e.data
        vals = {k.lower(): (-9999.0 if np.isnan(v) else v) for k, v in d['values'].items()}

        def rep(when, values):
            return {'properties': {'date_time': when, 'station_id': sid, 'station_number': num,
                                   'longitude': lon, 'latitude': lat, 'elevation': elev, 'state': stat,
                                   'country': coun, 'priority': d['priority']}, 'values': values}
        if d['reports'] is None:
            out.append(rep(t, vals))
            continue
        has_text = any(k == 'text' for k, _m, _t in d['reports'])
        for k, m, when in d['reports']:
            if k == 'text':
                out.append(rep(t, {**vals, 'text': m}))
            elif special:
                out.append(rep(when, {**(vals if not has_text else {}), 'spcl': m}))
    return out


def same_report(a, b):
    """Compare an actual sfjson entry with a reference one; returns a difference or None."""
    if a['properties'] != b['properties']:
        return f'properties {a["properties"]} != {b["properties"]}'
    if set(a['values']) != set(b['values']):
        return f'values {sorted(a["values"])} != {sorted(b["values"])}'
    for k, v in b['values'].items():
        w = a['values'][k]
        if isinstance(v, str):
            if v != w:
                return f'{k}: {w!r} != {v!r}'
        elif not abs(float(w) - v) <= 2.0 ** -22 * abs(v):
            return f'{k}: {w!r} != {v!r}'
    return None


def same_sounding(ds, e, vcoord):
    """Compare a returned sounding Dataset with a world entry."""
    t, sid, num, lat, lon, elev, stat, coun = e.info
    at = ds.attrs
    got = (np.datetime64(ds.time.values[0], 's').astype(dt.datetime), at['station_id'], at['station_number'],
           at['lat'], at['lon'], at['elevation'], at['state'], at['country'])
    if got != e.info:
        return f'metadata {got} != {e.info}'
    for nm, v in e.data.items():
        key = nm.lower()
        if key not in ds.variables:
            return f'{key} absent'
        w = np.asarray(ds[key].values, float)
        w = w if nm == vcoord else w[0]
        if w.shape != v.shape:
            return f'{key}: shape {w.shape} != {v.shape}'
        if (np.isnan(w) != np.isnan(v)).any():
            return f'{key}: missing differs: {w.tolist()} != {v.tolist()}'
        if (np.abs(w - v) > 2.0 ** -22 * np.abs(v)).any():
            return f'{key}: {w.tolist()} != {v.tolist()}'
    return None


def same_grid(da, e):
    t1 = np.datetime64(da.time.values[0], 's').astype(dt.datetime)
    typ, valid, _v2, nm, l1, _l2, vc = e.info
    names = {'PRES': 'p', 'HGHT': 'z', 'THTA': 'theta'}
    if (da.name, t1, da.attrs.get('grid_type'), da.dims[1]) != (names.get(nm, nm.lower()), valid, typ, vc.lower()):
        return f'metadata {(da.name, t1, da.attrs.get("grid_type"), da.dims)} != {e.info}'
    if da.values.shape[2:] != e.data['values'].shape or float(da[da.dims[1]].values[0]) != l1:
        return f'shape/level {da.values.shape}'
    w, v = np.asarray(da.values[0, 0], float), e.data['values']
    if (np.isnan(w) != np.isnan(v)).any():
        return 'missing cells differ'
    bad = np.abs(w - v) > e.data['tol'] + 2.0 ** -22 * np.abs(v)
    if bad.any():
        return f'values {w[bad][:3]} != {v[bad][:3]}'
    return None


def check_all(mon, w, r, label=''):
    """Everything a reader of world w returns against the world's content."""
    ok = True
    inv = inventory(r, w.kind)
    want = [e.info for e in w.entries]
    if inv != want:
        k = next((j for j, (a, b) in enumerate(zip(inv, want)) if a != b), min(len(inv), len(want)))
        mon.fail(f'{label}inventory', f'{w.tag}: listed {len(inv)} expected {len(want)}; at {k}: '
                 f'{inv[k:k + 1]} != {want[k:k + 1]}')
        return False
    if w.kind == 'raob':
        return True
    if w.kind == 'sfc':
        for sp in (False, True):
            want = expected_sfc(w.entries, sp)
            got, err = mon.run(r.sfjson, include_special=sp)
            if err:
                mon.fail(f'{label}query-raised', err)
                return False
            if len(got) != len(want):
                mon.fail(f'{label}count', f'{w.tag}: {len(got)} reports, expected {len(want)}')
                return False
            for a, b in zip(got, want):
                d = same_report(a, b)
                mon.seen('reports_compared')
                if d:
                    mon.fail(f'{label}report', f'{w.tag}: {d}')
                    ok = False
                    break
        return ok
    got, err = mon.run(query, r, w.kind)
    if err:
        mon.fail(f'{label}query-raised', err)
        return False
    if len(got) != len(w.entries):
        mon.fail(f'{label}count', f'{w.tag}: {len(got)} returned, expected {len(w.entries)}')
        return False
    for a, e in zip(got, w.entries):
        d = same_grid(a, e) if w.kind == 'grid' else same_sounding(a, e, w.vcoord)
        mon.seen('entries_compared')
        if d:
            mon.fail(f'{label}entry', f'{w.tag}: {d}')
            return False
    return ok
