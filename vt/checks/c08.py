"""C08: rejected or failed operations leave builders and files intact."""
import builtins
import datetime as dt
import io
import os
import numpy as np
from gempakio import SoundingFile, SurfaceFile
from gempakio.encode import gempak as eg
from gempakio.encode import vgf as ev
from vt import build, dm, vgw

ID = 'C08'
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 12000, 180000
RULE = ('fault list = every invalid argument kind of each add call (injected at a random position of a valid '
        'add sequence, including first), the entry limit reached at each add, unencodable content at each '
        'entry/element, and an I/O error on open / first write / later write / close; key = (writer, fault, '
        'position class, error type)')
ASSUMPTIONS = ['the entry limit is lowered by rebinding MMHDRS in the encoder module',
               'I/O faults are injected through builtins.open']
REQUIRE = {'rejected_adds': 200, 'failed_writes': 60, 'io_faults': 100, 'limit_hits': 20, 'limits_judged': 20, 'parameter_limits': 20, 'must_refuse': 200, 'bad_precisions': 20}

T = dt.datetime(2020, 5, 6, 12)
UTC = T.replace(tzinfo=dt.timezone.utc)


# Content the format or the documentation rules out; taking it in silently would store something else.
MUST = {'shape', 'transposed', 'flat', 'extra-axis', 'scalar-grid', 'not-array', '1d', 'name-long', 'name-blanks',
        'name-type', 'date-type', 'date-short', 'date-bad', 'date-offset', 'date2-short', 'date2-bad', 'date2-type',
        'coord', 'coord-long', 'level-str', 'level-none',
        'not-dict', 'param-missing', 'param-extra', 'length', 'longer', 'shorter', 'too-many', 'vector',
        'lat-str', 'lon-none', 'date-empty'}


def bad_grid(rng, op, c):
    a, k = op
    a = list(a)
    n = rng.randint(13, 30)
    more = {
        'flat': ([np.arange(float(c.nx * c.ny))] + a[1:], k),
        'extra-axis': ([np.zeros((1, c.ny, c.nx)) if rng.random() < 0.5 else np.zeros((c.ny, c.nx, 1))] + a[1:], k),
        'scalar-grid': ([np.array(5.0)] + a[1:], k),
        'name-blanks': (a[:1] + ['TMPK'.ljust(n) if rng.random() < 0.5 else 'T'.rjust(n)] + a[2:], k),
        'name-long': (a[:1] + ['ABCDEFGHIJKLMNOPQRSTUVWXYZABCD'[:n]] + a[2:], k),
        'coord-long': (a[:2] + [rng.choice(['PRESS', 'HGHTS', 'NONE '])] + a[3:], k),
    }
    if c.nx != c.ny:
        more['transposed'] = ([np.ones((c.nx, c.ny))] + a[1:], k)
    if c.nx * c.ny > 1:
        more['shape'] = ([np.zeros((1, 1)) if rng.random() < 0.5 else np.zeros((c.ny, c.nx + 1))] + a[1:], k)
    out = {
        'shape': ([np.zeros((c.ny + 1, c.nx))] + a[1:], k), 'not-array': (['x'] + a[1:], k),
        '1d': ([np.zeros(c.nx * c.ny)] + a[1:], k),
        'name-long': (a[:1] + ['ABCDEFGHIJKLM'] + a[2:], k), 'name-type': (a[:1] + [5] + a[2:], k),
        'coord': (a[:2] + ['nope'] + a[3:], k), 'coord-type': (a[:2] + [7] + a[3:], k),
        'level-str': (a[:3] + ['500'] + a[4:], k), 'level-none': (a[:3] + [None] + a[4:], k),
        'level-nan': (a[:3] + [float('nan')] + a[4:], k),
        'date-short': (a[:4] + ['20200101'], k), 'date-bad': (a[:4] + ['202013450000'], k),
        'date-type': (a[:4] + [20200101], k), 'date-letters': (a[:4] + ['202001010000F006G002'], k),
        'date-offset': (a[:4] + ['202001010000Fxx'], k),
        'level2-str': (a, {**k, 'level2': 'x'}), 'level2-nan': (a, {**k, 'level2': float('nan')}),
        'date2-short': (a, {**k, 'date_time2': '2020'}),
        'date2-bad': (a, {**k, 'date_time2': '202001320000'}), 'date2-type': (a, {**k, 'date_time2': 5}),
        'date2-mismatch': (a[:4] + ['202001010000F006'], {**k, 'date_time2': '202001010000G006'}),
        'object-array': ([np.full((c.ny, c.nx), 'q', dtype=object)] + a[1:], k),
        'complex': ([np.zeros((c.ny, c.nx), dtype='U3')] + a[1:], k),
        'mixed-timezones': (a[:4] + [UTC], {}),
    }
    return {**out, **more}


def bad_station(rng, op, c):
    a, k = op
    data, lat, lon, when, info = a
    p0 = c.c['params'][0]
    miss = {q: v for q, v in data.items() if q.upper() != p0.upper()}
    out = {
        'not-dict': ((list(data), lat, lon, when, info), k),
        'param-missing': ((miss, lat, lon, when, info), k),
        'param-extra': (({**data, 'ZZZZ': data[next(iter(data))]}, lat, lon, when, info), k),
        'lat-str': ((data, '35', lon, when, info), k), 'lon-none': ((data, lat, None, when, info), k),
        'date-bad': ((data, lat, lon, '202013010000', info), k),
        'date-type': ((data, lat, lon, 5, info), k), 'date-empty': ((data, lat, lon, '', info), k),
        'number-bad': ((data, lat, lon, when, {**(info or {}), 'station_number': 'abc'}), k),
        'elevation-bad': ((data, lat, lon, when, {**(info or {}), 'elevation': None}), k),
        'info-type': ((data, lat, lon, when, ['KMSN']), k),
    }
    if c.kind == 'snd':
        q = next(iter(data))
        if len(data) > 1:
            out['length'] = (({**data, q: np.append(data[q], 1.0)}, lat, lon, when, info), k)
            q = rng.choice(list(data))
            out['longer'] = (({**data, q: np.append(data[q], np.arange(rng.randint(1, 9)) + 0.5)},
                              lat, lon, when, info), k)
            out['shorter'] = (({p: np.asarray(v)[:1] if p == q else np.append(v, [1.0, 2.0])
                                for p, v in data.items()}, lat, lon, when, info), k)
        n = rng.choice([501, 501, 502, 512, 600, 1000])
        out['too-many'] = (({p: np.arange(float(n)) for p in data}, lat, lon, when, info), k)
        out['offset-bad'] = ((data, lat, lon, '202001010000Fx', info), k)
        out['strings'] = (({p: np.array(['a'] * 3) for p in data}, lat, lon, when, info), k)
    else:
        q = next(iter(data))
        out['vector'] = (({**data, q: np.array([1.0, 2.0])}, lat, lon, when, info), k)
        out['value-none'] = (({**data, q: None}, lat, lon, when, info), k)
        out['value-str'] = (({**data, q: 'x'}, lat, lon, when, info), k)
        out['priority-type'] = ((data, lat, lon, when, {**(info or {}), 'priority': None}), k)
        out['priority-str'] = ((data, lat, lon, when, {**(info or {}), 'priority': 'high'}), k)
    return out


def case(mon, rng, i, tier):
    k = i % 8
    if k < 4:
        rejected(mon, rng, i)
    elif k == 4:
        if rng.random() < 0.1:
            parameters(mon, rng, i)
        limit(mon, rng, i)
    elif k == 5:
        unencodable(mon, rng, i)
    elif k == 6:
        vgf(mon, rng, i)
    else:
        io_fault(mon, rng, i)


def rejected(mon, rng, i):
    c = build.Content(rng, ['grid', 'snd', 'sfc'][i // 8 % 3])
    ref = c.built(mon)
    if ref is None:
        return
    pos = rng.randint(0, len(c.ops))
    bads = (bad_grid if c.kind == 'grid' else bad_station)(rng, rng.choice(c.ops), c)
    name = rng.choice(sorted(bads))
    if name == 'mixed-timezones':
        pos = max(1, pos)
    b = c.new(mon)
    for j in range(len(c.ops) + 1):
        if j == pos:
            _, err = c.add(mon, b, bads[name])
            if err is None:
                if name in MUST:
                    mon.fail('bad-argument-accepted', f'{c.kind} {name}: {bads[name]}'[:400])
                mon.seen('bad_argument_accepted')
                return
            if name in MUST:
                mon.seen('must_refuse')
            mon.seen('rejected_adds')
            kind = type(err.exc).__name__
        if j < len(c.ops):
            _, err = c.add(mon, b, c.ops[j])
            if err:
                mon.fail('add-after-rejected-add-raised', f'{c.kind} {name} at {pos}: {err}')
                return
    data, err = c.write(mon, b)
    if err:
        mon.fail('write-after-rejected-add-raised', f'{c.kind} {name} at {pos} of {len(c.ops)}: {err}')
    elif data != ref:
        mon.fail('rejected-add-changed-output', f'{c.kind} {name} ({kind}) at {pos} of {len(c.ops)}: '
                 f'{len(data)} vs {len(ref)} bytes')
    mon.key(c.kind, name, pos == 0, pos == len(c.ops), kind)
    mon.sample = {'writer': c.kind, 'fault': name, 'position': pos, 'error': kind}


def headers(mon, c, ops):
    """Row plus column headers of the file these operations make."""
    data = c.built(mon, ops)
    if data is None:
        return None
    p = dm.parse(data)
    return p.nr + p.nc


def limit(mon, rng, i):
    """The maximum number of entries is hit by one add; that add must leave no trace."""
    c = build.Content(rng, ['grid', 'snd', 'sfc'][i // 8 % 3], small=False)
    if len(set(c.ids)) < 2:
        return
    old = eg.MMHDRS
    b = c.new(mon)
    kept = []
    refused = None
    try:
        eg.MMHDRS = 0
        effective = c.add(mon, c.new(mon), c.ops[0])[1] is not None
        most = eg.MMHDRS = rng.choice([2, 2, 3, 3, 4, 4, 5, 6])
        for op in c.ops:
            _, err = c.add(mon, b, op)
            if err is None:
                kept.append(op)
            else:
                refused = refused or (len(kept), op)
                mon.seen('limit_hits')
    finally:
        eg.MMHDRS = old
    if effective:
        count = headers(mon, c, kept)
        if count is not None and kept and count > most:
            mon.fail('more-entries-than-the-limit', f'{c.kind}: {count} headers, limit {most}')
        if refused:
            count = headers(mon, c, kept[:refused[0]] + [refused[1]])
            if count is not None and count <= most:
                mon.fail('refused-below-the-limit', f'{c.kind}: {count} headers, limit {most}')
            mon.seen('limits_judged')
    if len(kept) == len(c.ops):
        return
    ref = c.built(mon, kept)
    data, err = c.write(mon, b)
    if err:
        mon.fail('write-after-limit-raised', f'{c.kind}: {err}')
    elif data != ref:
        mon.fail('limit-add-changed-output', f'{c.kind}: {len(kept)} of {len(c.ops)} adds accepted')
    mon.key(c.kind, 'limit', len(kept), len(c.ops))


def parameters(mon, rng, i):
    """At most 44 parameters."""
    cls = rng.choice([SoundingFile, SurfaceFile])
    n = rng.choice([44, 45, 45, 46, 50, 60])
    _, err = mon.run(cls, [f'P{k:03d}' for k in range(n)])
    if (err is None) != (n <= 44):
        mon.fail('parameter-limit', f'{cls.__name__} {n}: {err}')
    mon.seen('parameter_limits')


def unencodable(mon, rng, i):
    """An entry whose data cannot be encoded: the old file survives, replacing the entry repairs it."""
    c = build.Content(rng, ['grid', 'snd', 'sfc'][i // 8 % 3])
    ref = c.built(mon)
    if ref is None:
        return
    k = rng.randrange(len(c.ops))
    a, kw = c.ops[k]
    a = list(a)
    how = rng.choice(['huge', 'text', 'inf', 'object'])
    if c.kind == 'grid' and rng.random() < 0.3:
        bad_precision(mon, rng, c, ref)
        return
    if c.kind == 'grid':
        a[0] = np.full((c.ny, c.nx), 1.0, dtype=object if how == 'object' else float)
        a[0][0, 0] = {'huge': 1e300, 'text': 1e40, 'inf': float('inf'), 'object': 5.0}[how]
    elif c.kind == 'snd':
        q = rng.choice(sorted(a[0]))
        v = np.asarray(a[0][q], dtype=float).copy()
        if not v.size:
            v = np.zeros(1)
            a[0] = {p: np.array([1000.0]) for p in a[0]}
        v[rng.randrange(len(v))] = {'huge': 1e300, 'text': -1e39, 'inf': 1e308, 'object': 1e40}[how]
        a[0] = {**a[0], q: v}
    else:
        q = rng.choice(sorted(a[0]))
        a[0] = {**a[0], q: {'huge': 1e300, 'text': -1e39, 'inf': 1e308, 'object': 1e40}[how]}
    b = c.new(mon)
    for j, op in enumerate(c.ops):
        op = (tuple(a), kw) if j == k else op
        _, err = c.add(mon, b, op)
        if err and j == k:
            return
    p = mon.path(c.ext)
    old = rng.choice([ref, b'precious', b''])
    with open(p, 'wb') as f:
        f.write(old)
    _, err = mon.run(b.to_gempak, p)
    if err is None:
        mon.seen('accepted_content')
        return
    mon.seen('failed_writes')
    if open(p, 'rb').read() != old:
        mon.fail('existing-file-destroyed', f'{c.kind} {how}: {err}')
    q = mon.path(c.ext)
    _, err2 = mon.run(b.to_gempak, q)
    if err2 and os.path.exists(q):
        mon.fail('partial-file-left', f'{c.kind} {how}: {os.path.getsize(q)} bytes')
    c.add(mon, b, c.ops[k])
    for j in range(k + 1, len(c.ops)):
        if c.ids[j] == c.ids[k]:
            c.add(mon, b, c.ops[j])
    data, err = c.write(mon, b)
    if err:
        mon.fail('write-after-repair-raised', (c.kind, how, err))
    elif data != ref:
        mon.fail('write-after-repair-differs', (c.kind, how))
    mon.key(c.kind, 'unencodable', how, k == 0)


def bad_precision(mon, rng, c, ref):
    """A bit width no grid can be packed with is refused; the old file survives, a valid width works."""
    b = c.new(mon)
    for op in c.ops:
        c.add(mon, b, op)
    p = mon.path(c.ext)
    with open(p, 'wb') as f:
        f.write(ref)
    bits = rng.choice([0, -1, 32, 33, 64, 100, -16, None, 'x'])
    good = b.precision
    b.precision = bits
    _, err = mon.run(b.to_gempak, p)
    mon.seen('bad_precisions')
    if err is None:
        mon.fail('bad-precision-accepted', bits)
    elif open(p, 'rb').read() != ref:
        mon.fail('existing-file-destroyed', f'precision {bits}: {err}')
    b.precision = good
    data, err = c.write(mon, b)
    if err or data != ref:
        mon.fail('write-after-bad-precision-differs', (bits, good, err))
    mon.key('grid', 'precision', bits)


class Broken(io.RawIOBase):
    pass


def faulty_open(path, when, budget, hits):
    real = builtins.open

    class F:
        def __init__(self, f):
            self.f, self.left = f, budget

        def write(self, data):
            data = bytes(data)
            if when == 'write':
                part = data[:self.left]
                self.f.write(part)
                self.left -= len(part)
                if len(part) < len(data):
                    hits.append('write')
                    raise OSError(28, 'No space left on device')
                return len(data)
            return self.f.write(data)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
            return False

        def close(self):
            self.f.close()
            if when == 'close':
                hits.append('close')
                raise OSError(5, 'Input/output error')

        def __getattr__(self, n):
            return getattr(self.f, n)

    def opener(name, mode='r', *a, **k):
        if not isinstance(name, int) and os.fspath(name) == path and 'w' in mode:
            if when == 'open':
                hits.append('open')
                raise OSError(13, 'Permission denied')
            return F(real(name, mode, *a, **k))
        return real(name, mode, *a, **k)
    return opener


def io_fault(mon, rng, i):
    kind = ['grid', 'snd', 'sfc', 'vgf'][i // 8 % 4]
    if kind == 'vgf':
        specs = [vgw.spec(rng) for _ in range(rng.randint(1, 4))]
        b = vgw.vgfile(mon, specs)
        if b is None:
            return
        write = b.to_vgf
        ref, err = vgw.write(mon, b)
    else:
        c = build.Content(rng, kind)
        ref = c.built(mon)
        b = c.new(mon)
        for op in c.ops:
            c.add(mon, b, op)
        write = b.to_gempak
    if ref is None:
        return
    when = rng.choice(['open', 'write', 'write', 'close', 'dir', 'isdir'])
    p = mon.path('.out')
    real = builtins.open
    hits = []
    if when == 'dir':
        p = os.path.join(mon.tmp, 'nonexistent', 'x.out')
        _, err = mon.run(write, p)
    elif when == 'isdir':
        _, err = mon.run(write, mon.tmp)
    else:
        try:
            builtins.open = io.open = faulty_open(
                p, when, rng.choice([0, 1, 100, len(ref) // 2, len(ref) - 1]), hits)
            _, err = mon.run(write, p)
        finally:
            builtins.open = io.open = real
        if not hits and err is None:  # written in a way the fault does not reach
            return
        mon.seen('faults_delivered', bool(hits))
    if err is None:
        mon.fail('io-error-swallowed', f'{kind} {when}')
        return
    mon.seen('io_faults')
    q = mon.path('.out')
    _, err = mon.run(write, q)
    if err:
        mon.fail('write-after-io-error-raised', (kind, when, err))
    else:
        with open(q, 'rb') as f:
            if f.read() != ref:
                mon.fail('write-after-io-error-differs', (kind, when))
    mon.key(kind, 'io', when)


def vgf(mon, rng, i):
    """An element that cannot be encoded must not destroy the file written before."""
    specs = [vgw.spec(rng) for _ in range(rng.randint(1, 4))]
    v = vgw.vgfile(mon, specs)
    if v is None:
        return
    ref, err = vgw.write(mon, v)
    if err:
        mon.fail('to_vgf-raised', err)
        return
    how = rng.choice(['group', 'foreign', 'latlon', 'none', 'raises'])
    k = rng.randint(1, len(v.elements))
    bad = {'foreign': 'not an element', 'none': None}.get(how)
    if how in ('group', 'latlon'):
        bad, err = vgw.make(mon, ('Marker', {'lon': 1.0, 'lat': 2.0, 'symbol_code': 3, 'color': 4}, {}))
        if how == 'group':
            _, err = mon.run(setattr, bad, 'group_number', 2 ** 40)
        else:
            bad, err = vgw.make(mon, ('Marker', {'lon': 1e300, 'lat': 2.0, 'symbol_code': 3, 'color': 4}, {}))
        if err:
            return
    if how == 'raises':
        class Boom(ev.Element):
            def encode(self):
                raise RuntimeError('boom')
        bad = Boom()
    v.elements.insert(k, bad)
    p = mon.path('.vgf')
    old = rng.choice([ref, b'precious'])
    with open(p, 'wb') as f:
        f.write(old)
    try:
        _, err = mon.run(v.to_vgf, p)
    except RuntimeError as e:  # our own element's error passed through
        err = e
    if err is None:
        return
    mon.seen('failed_writes')
    if open(p, 'rb').read() != old:
        mon.fail('existing-file-destroyed', f'vgf {how} element {k} of {len(v.elements)}: {err}')
    del v.elements[k]
    data, err = vgw.write(mon, v)
    if err or data != ref:
        mon.fail('write-after-repair-differs', ('vgf', how, err))
    mon.key('vgf', how, k == 1)
