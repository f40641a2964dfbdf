"""C22: VGF elements are validated and their records describe their content."""
import numpy as np
from gempakio.encode import vgf as ev
from vt import gen, vgw

ID = 'C22'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: constructor calls and attribute-change histories with admissible and inadmissible values; every encode() compared byte for byte with a reference encoder of the documented content'
RULE = 'distinct (element kind, attribute or constructor argument, accepted/rejected, value) seen by the validation monitor'
ASSUMPTIONS = ['documented ranges in the constructor docstrings and setter messages; record layouts of vgstruct.h; '
               'whether 0 is a marker code is not settled by the documentation and not tried']
QUICK = 20000
THOROUGH = 300000
REQUIRE = {'encoded': 6000, 'rejected': 2000, 'accepted': 4000, 'ctor_rejected': 600, 'shape_rejected': 200,
           'unchanged': 2000, 'extremes': 2000, 'readonly': 200}
GETTER = {'edgecolor': 'line_color', 'facecolor': 'fill_color'}


def plain(d):
    return {k: x for k, x in d.items() if k not in ('lon', 'lat')}


def check_bytes(mon, e, m, what):
    got, err = mon.run(e.encode)
    if err:
        mon.fail('encode-raised', (m.kind, what, err))
        return False
    mon.seen('encoded')
    want = m.bytes()
    if bytes(got) != want:
        k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), -1)
        mon.fail('record', f'{m.kind} after {what}: {len(got)} bytes, expected {len(want)}; first difference at '
                 f'byte {k}: {bytes(got[k:k + 4]).hex()} != {want[k:k + 4].hex()} ({where(m, k)})')
        return False
    box = [getattr(e, n) for n in ('min_lat', 'max_lat', 'min_lon', 'max_lon')]
    ext = [min(m.lat), max(m.lat), min(m.lon), max(m.lon)]
    mon.seen('extremes')
    if any(np.float32(a) != b for a, b in zip(box, ext)):
        mon.fail('bounding-box', f'{m.kind}: {box} coordinates reach {ext}')
    return True


def where(m, k):
    """Name of the field at byte k of a record."""
    off = 0
    for n in vgw.HEAD + vgw.BODY[m.kind]:
        n, _, c = n.partition(':')
        off += 1 if c in ('B', 'b') else 4
        if k < off:
            return n
    return 'points or text'


def values(m, name):
    f = m.f
    if name in GETTER:
        return f[GETTER[name]]
    return f['points'] if name == 'size' and m.kind == 'SpecialText' else f[name]


def check_getters(mon, e, m, what):
    for k in vgw.RULES[m.kind]:
        if not hasattr(type(e), k):
            continue
        if getattr(e, k) != values(m, k):
            mon.fail('getter', f'{m.kind}.{k} is {getattr(e, k)!r} after {what}, expected {values(m, k)!r}')
            return False
    return True


def edits(mon, rng, e, m):
    for _ in range(rng.randint(3, 12)):
        k = rng.choice(list(vgw.RULES[m.kind]))
        if m.kind == 'SpecialText' and rng.random() < 0.35:  # the two attributes that depend on each other
            k = rng.choice(['text_type', 'turbulence_symbol'])
        good, bad = vgw.RULES[m.kind][k]
        if k == 'text_type' and rng.random() < 0.5:
            good = lambda r: r.choice([7, 9, 12])  # noqa: E731
        if m.kind == 'SpecialText' and k == 'turbulence_symbol':
            bad = {7: [-1, 9, 15], 9: [-1, 9, 15], 12: [-1, 11, 15]}.get(m.f['text_type'], [])
            if m.f['text_type'] == 12 and rng.random() < 0.3:
                good = lambda r: r.choice([9, 10])  # noqa: E731
        if bad and rng.random() < 0.45:
            v = rng.choice(bad)
            if rng.random() < 0.15 and isinstance(v, int):
                v = np.int64(v)
            _, err = mon.run(setattr, e, k, v)
            mon.key(m.kind, k, 'bad', v)
            if not err:
                mon.fail('accepted', f'{m.kind}.{k} = {v!r} accepted')
                return
            mon.seen('rejected')
            mon.seen('unchanged')
            what = f'rejected {k}={v!r}'
        elif m.kind == 'SpecialText' and rng.random() < 0.06:  # software fonts only
            k, v = 'text_flag', rng.choice([0, 3, -1, 'x', None, 1.5])
            _, err = mon.run(setattr, e, k, v)
            if not err:
                mon.fail('accepted', f'{m.kind}.{k} = {v!r} accepted')
                return
            mon.seen('rejected')
            what = f'rejected {k}={v!r}'
        elif rng.random() < 0.06:
            k = rng.choice(['vg_class', 'vg_type', 'delete', 'min_lat', 'max_lat', 'min_lon', 'max_lon'])
            _, err = mon.run(setattr, e, k, 1)
            if not err:
                mon.fail('accepted', f'{m.kind}.{k} can be overwritten')
                return
            mon.seen('readonly')
            what = f'rejected {k}'
        elif rng.random() < 0.1 and hasattr(e, 'flip'):
            mon.run(e.flip)
            m.set('flip', None)
            what = 'flip'
        else:
            v = good(rng)
            if m.kind == 'SpecialLine' and k == 'line_type' and v in (24, 25):
                continue
            if isinstance(v, int) and rng.random() < 0.15:
                v = np.int64(v)
            _, err = mon.run(setattr, e, k, v)
            mon.key(m.kind, k, 'good', v if isinstance(v, int) and abs(v) < 600 else 'x')
            if err:
                mon.fail('refused', f'{m.kind}.{k} = {v!r}: {err}')
                return
            mon.seen('accepted')
            m.set(k, v)
            what = f'{k}={v!r}'
        if not (check_getters(mon, e, m, what) and check_bytes(mon, e, m, what)):
            return


def bad_constructor(mon, rng, kind, d):
    k = rng.choice(vgw.CTOR[kind] + ['color'])
    if k == 'color':
        k = vgw.COLORARG[kind]
        bad = vgw.COLOR[1]
    else:
        bad = vgw.RULES[kind][k][1]
    d = dict(d)
    d[k] = rng.choice(bad)
    if kind == 'SpecialLine' and rng.random() < 0.2:
        d['line_type'], k = rng.choice([24, 25]), 'stroke'
        d['stroke'] = rng.choice([24, 76, 0, -1, 100])
    elif kind == 'SpecialText' and rng.random() < 0.2:
        d['text_type'], d['turbulence_symbol'] = rng.choice([(7, 9), (9, 9), (12, 11), (7, -1), (12, -1)])
        k = 'turbulence_symbol'
    mon.key(kind, k, 'ctor', d[k])
    _, err = mon.run(getattr(ev, kind), **d)
    if not err:
        mon.fail('constructor-accepted', f'{kind}({k}={d[k]!r})')
        return
    mon.seen('ctor_rejected')


def bad_shape(mon, rng, kind, d):
    d = dict(d)
    if kind in ('SpecialText', 'SpecialSymbol', 'Marker'):
        if kind == 'SpecialText':
            d['text'] = rng.choice(['x' * 255, 'y' * 300, 'é' * 128, None, 5, b'abc'])
            what = f'text {str(d["text"])[:5]!r}'
        elif rng.random() < 0.5:
            d['symbol_code'], what = rng.choice(['10', None, 1.5]), 'symbol_code'
        else:
            return
    else:
        g = gen.nprng(rng)
        what = rng.choice(['differ', 'one', 'none', 'many'])
        n, q = {'differ': (4, 5), 'one': (1, 1), 'none': (0, 0), 'many': (501, 501)}[what]
        if what == 'differ' and rng.random() < 0.5:
            n, q = q, n
        d['lon'], d['lat'] = g.uniform(-180, 180, n), g.uniform(-90, 90, q)
    mon.key(kind, 'shape', what)
    _, err = mon.run(getattr(ev, kind), **d)
    if not err:
        mon.fail('constructor-accepted', f'{kind} with {what}')
        return
    mon.seen('shape_rejected')


def case(mon, rng, i, tier):
    kind, d, after = vgw.spec(rng, vgw.KINDS[i % len(vgw.KINDS)])
    mon.sample = {'kind': kind, **{k: repr(v)[:40] for k, v in plain(d).items()}}
    if rng.random() < 0.3:  # put documented extremes into the constructor
        for k in vgw.CTOR[kind]:
            if rng.random() < 0.4:
                d[k] = vgw.RULES[kind][k][0](rng)
        if kind == 'SpecialLine' and d['line_type'] in (24, 25):
            d['stroke'] = rng.choice([25, 75, rng.randint(25, 75)])
    e, err = mon.run(getattr(ev, kind), **d)
    if err:
        mon.fail('constructor-refused', (kind, plain(d), err))
        return
    for k, v in plain(d).items():
        mon.key(kind, 'given', k, v if isinstance(v, int) and abs(v) < 600 else 'x')
    m = vgw.Model(kind, d)
    mon.seen('accepted')
    if not check_bytes(mon, e, m, 'construction'):
        return
    for k, v in after.items():
        _, err = mon.run(setattr, e, k, v)
        if err:
            mon.fail('refused', (kind, k, v, err))
            return
        m.set(k, v)
    edits(mon, rng, e, m)
    bad_constructor(mon, rng, kind, d)
    bad_shape(mon, rng, kind, d)
