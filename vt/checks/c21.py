"""C21: VGF queries, groups, bounds and JSON export agree with the element list."""
import json

import numpy as np
from vt import vgrec
from vt.checks.c20 import sequence
from vt.observe import canon

ID = 'C21'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every accessor of random VGF files compared with the answer computed from the decoded element list and from the records written'
RULE = 'distinct (accessor or filter, class, type, operation, result size class) seen by the query monitor'
ASSUMPTIONS = ['an element whose bounding box is all zeros has none; plain text means types text and justified text',
               'JSON numbers may be rounded to 2 decimals']
QUICK = 9000
THOROUGH = 135000
REQUIRE = {'accessors': 8000, 'true_accessors': 1500, 'filters': 10000, 'filters_hit': 1500, 'groups': 300,
           'bounds': 400, 'bounds_with_zero': 100, 'point_boxes': 300, 'json_elements': 1500, 'json_attributes': 30000,
           'group_refused': 100, 'coords': 500}
# accessor: (class, types or None)
ACCESS = {'fronts': (1, None), 'text': (5, (17, 18)), 'special_text': (5, (21,)), 'symbols': (4, None),
          'special_symbols': (4, (15,)), 'markers': (4, (19,)), 'special_lines': (3, (20,)), 'lines': (3, (1,)),
          'winds': (6, None), 'tracks': (10, None), 'watch_box': (2, None), 'sigmet': (11, None), 'met': (15, None)}


def ids(x):
    return [id(e) for e in x]


def size(n):
    return n if n < 4 else 4


def case(mon, rng, i, tier):
    from gempakio import VectorGraphicFile
    recs = sequence(rng)
    if rng.random() < 0.25:  # several elements of few kinds in few groups
        kinds = rng.sample(vgrec.ELEMENTS, 2)
        recs = [vgrec.record(rng, rng.choice(kinds)) for _ in range(rng.randint(2, 12))]
    v, err = mon.run(VectorGraphicFile, mon.put(b''.join(r.data for r in recs), '.vgf'))
    if err:
        mon.fail('raised', err)
        return
    elems = list(v.elements)
    want = [r for r in recs if r.cls is not None and r.kind != 'header']
    cts = [(r.head['vg_class'], r.head['vg_type']) for r in want]
    if [(e.vg_class, e.vg_type) for e in elems] != cts:
        if not any(r.head['delete'] for r in want):
            mon.fail('elements', ([(e.vg_class, e.vg_type) for e in elems], cts))
        return
    mon.sample = {'elements': [r.kind for r in want][:12]}
    accessors(mon, v, elems)
    filters(mon, rng, v, elems)
    groups(mon, rng, v, elems, want)
    bounds(mon, v, elems)
    to_json(mon, rng, v, elems)
    coords(mon, rng)
    if ids(v.elements) != ids(elems):
        mon.fail('elements-changed', 'queries changed the element list')


def accessors(mon, v, elems):
    for nm, (c, ts) in ACCESS.items():
        want = [e for e in elems if e.vg_class == c and (ts is None or e.vg_type in ts)]
        has, err = mon.run(lambda: getattr(v, f'has_{nm}'))
        got, err2 = mon.run(getattr(v, f'get_{nm}'))
        mon.seen('accessors')
        mon.key(nm, size(len(want)))
        if err or err2:
            mon.fail('accessor-raised', (nm, err or err2))
            return
        if has:
            mon.seen('true_accessors')
        if ids(got or []) != ids(want):
            mon.fail(f'get_{nm}', f'{got!r}, the file has {want!r} among {elems!r}')
        if bool(has) != bool(want):
            mon.fail(f'has_{nm}', f'{has!r} but the file has {len(want)}')


def filters(mon, rng, v, elems):
    present = [(e.vg_class, e.vg_type) for e in elems]
    for _ in range(25):
        c, t = rng.randint(0, 16), rng.choice([0, rng.randint(1, 43), rng.randint(1, 43), rng.randint(1, 43)])
        if present and rng.random() < 0.7:
            c = rng.choice(present)[0]
        if present and rng.random() < 0.7:
            t = rng.choice(present)[1]
        k = rng.randrange(4)
        op = rng.choice(['and', 'or'])
        kw = [{'vg_class': c}, {'vg_type': t}, {'vg_class': c, 'vg_type': t, 'operation': op},
              {'vg_class': c, 'vg_type': t}][k]
        if k == 0:
            want = [e for e in elems if e.vg_class == c]
        elif k == 1:
            want = [e for e in elems if e.vg_type == t]
        elif k == 2 and op == 'or':
            want = [e for e in elems if e.vg_class == c or e.vg_type == t]
        else:
            want = [e for e in elems if e.vg_class == c and e.vg_type == t]
        if rng.random() < 0.2:
            from gempakio.decode.vgf import VGClass, VGType
            if 'vg_class' in kw:
                kw['vg_class'] = VGClass(c)
            if 'vg_type' in kw and t in VGType.__members__.values():
                kw['vg_type'] = VGType(t)
        got, err = mon.run(v.filter_elements, **kw)
        mon.seen('filters')
        mon.seen('filters_hit', bool(want))
        mon.key('filter', k, op if k == 2 else None, size(len(want)), c)
        if err:
            mon.fail('filter-raised', (kw, err))
            return
        if ids(got or []) != ids(want):
            mon.fail('filter', f'{kw}: {got!r}, expected {want!r} of {elems!r}')
            return
    got, err = mon.run(v.filter_elements, vg_class=1, operation=rng.choice(['xor', 'AND', '', None]))
    if not err:
        mon.fail('filter-operation', 'an unknown operation was accepted')


def groups(mon, rng, v, elems, want):
    listed = []
    for r in want:
        g = r.head['group_type']
        if g and g not in listed:
            listed.append(g)
    if list(v.groups) != listed:
        mon.fail('groups', f'{v.groups}, the elements are in {listed}')
        return
    for g in listed[:4] + [rng.randint(0, 255), 0]:
        num = sorted({e.group_number for e in elems if e.group_type == g})
        got, err = mon.run(v.get_group, g)
        mon.seen('groups')
        mon.key('group', g == 0, size(len(num)))
        if err:
            mon.fail('get_group-raised', (g, err))
            return
        got = got or []
        if [x.group_number for x in got] != num:
            mon.fail('get_group', f'type {g}: numbers {[x.group_number for x in got]}, expected {num}')
            return
        for x, n in zip(got, num):
            mem = [e for e in elems if e.group_type == g and e.group_number == n]
            if ids(x.elements) != ids(mem) or ids(list(x)) != ids(mem) or x.group_size != len(mem) \
                    or x.group_type != g:
                mon.fail('get_group', f'type {g} number {n}: {x.elements!r} size {x.group_size} type '
                         f'{x.group_type}, expected {mem!r}')
                return
            other = next((e for e in elems if (e.group_type, e.group_number) != (g, n)), None)
            if other is not None:
                _, err = mon.run(x.add_element, other)
                mon.seen('group_refused')
                if not err or ids(x.elements) != ids(mem) or x.group_size != len(mem):
                    mon.fail('group-mixed', f'group {g}/{n} took {other!r} of {other.group_type}/'
                             f'{other.group_number}')
                    return


def bounds(mon, v, elems):
    boxes = [(e.min_lat, e.min_lon, e.max_lat, e.max_lon) for e in elems]
    boxes = [b for b in boxes if any(b)]
    got, err = mon.run(lambda: v.bounds)
    if err:
        mon.fail('bounds-raised', err)
        return
    if not boxes:
        return
    mon.seen('bounds')
    mon.seen('bounds_with_zero', any(0 in b for b in boxes))
    mon.seen('point_boxes', any(b[:2] == b[2:] for b in boxes))
    want = tuple(f(b[k] for b in boxes) for k, f in enumerate((min, min, max, max)))
    if tuple(got) != want:
        mon.fail('bounds', f'{got}, the elements reach {want}')


def same(j, a, where):
    """None or the first difference between parsed JSON and an attribute."""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        if not isinstance(j, list) or len(j) != len(a):
            return f'{where}: {j!r} for {a!r}'
        return next((d for k, (x, y) in enumerate(zip(j, a)) if (d := same(x, y, f'{where}[{k}]'))), None)
    if isinstance(a, dict):
        if not isinstance(j, dict) or set(j) != {str(k) for k in a}:
            return f'{where}: {j!r} for {a!r}'
        return next((d for k, x in a.items() if (d := same(j[str(k)], x, f'{where}.{k}'))), None)
    if hasattr(a, 'isoformat'):
        return None if isinstance(j, str) and a.strftime('%H:%M:%S') in j and (
            a.strftime('%Y-%m-%d') in j) else f'{where}: {j!r} for {a!r}'
    if isinstance(a, (bool, np.bool_, str, type(None))):
        return None if j == a else f'{where}: {j!r} for {a!r}'
    if isinstance(a, (int, float, np.number)):
        if isinstance(j, (int, float)) and (j == a or abs(j - a) <= 0.00501 + 1e-6 * abs(a) or a != a != j != j):
            return None
        return f'{where}: {j!r} for {a!r}'
    if hasattr(a, '__dict__'):
        return same(j, vars(a), where)
    return f'{where}: {j!r} for {a!r}'


class Other(json.JSONEncoder):
    """A caller's own encoder."""
    made = 0

    def __init__(self, *a, **k):
        type(self).made += 1
        super().__init__(*a, **k)

    def default(self, obj):
        if isinstance(obj, np.ndarray):
            return obj.tolist()
        if hasattr(obj, 'isoformat'):
            return obj.isoformat()
        return obj.item() if isinstance(obj, np.generic) else vars(obj)


def to_json(mon, rng, v, elems):
    before = canon([vars(e) for e in elems])
    kw = rng.choice([{}, {}, {}, {'indent': 2}, {'sort_keys': True}, {'cls': Other}, {'separators': (',', ':')}])
    Other.made = 0
    s, err = mon.run(v.to_json, **kw)
    if not err and 'cls' in kw and not Other.made:
        mon.fail('json-encoder', 'the encoder asked for was not used')
    if not err and 'indent' in kw and elems and '\n  ' not in s:
        mon.fail('json-indent', s[:80])
    if err:
        mon.fail('json-raised', (kw, err, sorted({type(e).__name__ for e in elems})))
        return
    try:
        j = json.loads(s)
    except ValueError as e:
        mon.fail('json-invalid', e)
        return
    if len(j) != len(elems):
        mon.fail('json-count', f'{len(j)} of {len(elems)}')
        return
    mon.key('json', tuple(kw))
    for k, (a, e) in enumerate(zip(j, elems)):
        mon.seen('json_elements')
        mon.seen('json_attributes', len(vars(e)))
        mon.key('json', type(e).__name__)
        d = same(a, vars(e), type(e).__name__)
        if d:
            mon.fail('json', f'element {k}: {d}')
            return
    if canon([vars(e) for e in elems]) != before:
        mon.fail('json-side-effect', 'exporting changed the elements')


def coords(mon, rng):
    from gempakio import VectorGraphicFile as V
    n = rng.choice([1, 2, 3, 10])
    x = [rng.uniform(-180, 180) for _ in range(n)]
    y = [rng.uniform(-90, 90) for _ in range(n)]
    for form in (list, np.array):
        for fn, want in ((V.close_coordinates, (x + x[:1], y + y[:1])), (V.flip_coordinates, (x[::-1], y[::-1]))):
            a, b = form(x), form(y)
            got, err = mon.run(fn, a, b)
            mon.seen('coords')
            if err or tuple(list(map(float, g)) for g in got) != want:
                mon.fail('coordinates', f'{fn.__name__} of {form.__name__}: {err or got!r}')
                return
            if list(a) != x or list(b) != y:
                mon.fail('coordinates-argument', f'{fn.__name__} changed its argument')
                return
    for fn in (V.close_coordinates, V.flip_coordinates):
        _, err = mon.run(fn, list(x), np.array(y))
        if not err:
            mon.fail('coordinates-mixed', fn.__name__)
