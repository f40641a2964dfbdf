"""C07: writing is deterministic, repeatable and free of side effects on inputs."""
import copy
import datetime as dt
import numpy as np
from gempakio.encode import vgf as ev
import pyproj
from gempakio import GridFile, SoundingFile, SurfaceFile
from vt import build, vgw

ID = 'C07'
LEVEL = 'exploration'
QUICK, THOROUGH = 6000, 90000
RULE = ('each case takes random content of one writer class and compares the bytes written by seven '
        'differently ordered add / re-add / write / mutate-caller-object histories; key = (kind, history, '
        'number of adds, replaced entries, value types)')
ASSUMPTIONS = ['adds are admissible', 'vector graphic elements are live objects: only the arrays and lists '
               'given to their constructors are covered by the aliasing clause']
PROJ = ['+proj=eqc', '+proj=merc', '+proj=lcc +lat_1=30 +lat_2=50 +lon_0=-95', '+proj=stere +lat_0=90 +lon_0=-100',
        '+proj=laea +lat_0=40 +lon_0=-90', '+proj=aeqd +lat_0=40 +lon_0=-90', '+proj=ortho +lat_0=40 +lon_0=-90',
        '+proj=gnom +lat_0=40 +lon_0=-90']
REQUIRE = {'histories': 2500, 'args_compared': 1500, 'vgf_files': 100, 'constructors': 500}


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype
                and a.shape == b.shape and a.tobytes() == b.tobytes())
    if isinstance(a, dict):
        return (isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return np.float64(a).tobytes() == np.float64(b).tobytes()
    return type(a) is type(b) and a == b


def scramble(x):
    """Overwrite everything mutable reachable from x."""
    if isinstance(x, np.ndarray):
        x[...] = 77
    elif isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
            if not isinstance(x[k], (np.ndarray, dict, list)):
                x[k] = 66 if not isinstance(x[k], str) else 'ZZ'
        x['EXTRA'] = 1.0
    elif isinstance(x, list):
        x[:] = [3.0] * (len(x) + 1)
    elif isinstance(x, tuple):
        for y in x:
            scramble(y)


def case(mon, rng, i, tier):
    if i % 4 == 3:
        vgf_case(mon, rng)
        return
    c = build.Content(rng, ['grid', 'snd', 'sfc'][i % 4])
    if c.kind != 'grid' and rng.random() < 0.3:  # lists are accepted for profile data too
        for (a, _k) in c.ops:
            for p in a[0]:
                if isinstance(a[0][p], np.ndarray):
                    a[0][p] = a[0][p].tolist()
    if rng.random() < 0.4:  # same metadata again with other data
        k = rng.randrange(len(c.ops))
        c.ops.append(other_data(rng, c, c.ops[k]))
        c.ids.append(c.ids[k])
    ref = c.built(mon)
    if ref is None:
        return

    def differs(what, data):
        mon.seen('histories')
        mon.key(c.kind, what, len(c.ops), len(set(c.ids)) < len(c.ids))
        if data is not None and data != ref:
            j = next((k for k in range(min(len(data), len(ref))) if data[k] != ref[k]), -1)
            mon.fail(what, f'{c.kind}: {len(data)} bytes vs {len(ref)}, first difference at {j}; '
                     f'{len(c.ops)} adds')

    # inputs untouched, later caller changes ignored
    b = c.new(mon)
    for op in c.ops:
        live = copy.deepcopy(op)
        _, err = c.add(mon, b, live, fresh=False)
        if err:
            mon.fail('add-raised', err)
            return
        mon.seen('args_compared')
        if not equal(live, op):
            mon.fail('input-modified', (c.kind, [str(x)[:80] for x in live[0]]))
            return
        mon_live = live
        if rng.random() < 0.7:
            scramble(mon_live)
    data, err = c.write(mon, b)
    if err:
        mon.fail('write-raised', err)
        return
    differs('caller-change-leaks', data)
    data, err = c.write(mon, b)
    if err:
        mon.fail('second-write-raised', err)
        return
    differs('second-write', data)
    constructor(mon, rng, c)
    # untouched inputs through a write
    b = c.new(mon)
    live = copy.deepcopy(c.ops)
    for op in live:
        c.add(mon, b, op, fresh=False)
    data, err = c.write(mon, b)
    if err is None and not equal(live, c.ops):
        mon.fail('input-modified-by-write', c.kind)
    # insertion order
    last = {}
    for op, k in zip(c.ops, c.ids):
        last[k] = op
    ops = list(last.values())
    rng.shuffle(ops)
    differs('insertion-order', c.built(mon, ops))
    # add some, write, add the rest
    b = c.new(mon)
    cut = rng.randint(0, len(c.ops))
    for op in c.ops[:cut]:
        c.add(mon, b, op)
    _, err = c.write(mon, b)
    if err:
        mon.fail('early-write-raised', (err, c.kind, cut))
        return
    for op in c.ops[cut:]:
        _, err = c.add(mon, b, op)
        if err:
            mon.fail('add-after-write-raised', err)
            return
    differs('add-after-write', c.write(mon, b)[0])
    # replace with other data and put the original back
    k = rng.randrange(len(c.ops))
    if c.ops[k] is last[c.ids[k]]:
        b = c.new(mon)
        for op in c.ops:
            c.add(mon, b, op)
        c.add(mon, b, other_data(rng, c, c.ops[k]))
        differs_from_other = c.write(mon, b)[0]
        c.add(mon, b, c.ops[k])
        differs('re-add', c.write(mon, b)[0])
        if differs_from_other == ref:
            mon.seen('replacement_same_bytes')
        else:
            mon.seen('replacement_visible')
    # two builders side by side
    c2 = build.Content(rng, c.kind)
    ref2 = c2.built(mon)
    b, b2 = c.new(mon), c2.new(mon)
    todo = [(c, b, op) for op in c.ops] + [(c2, b2, op) for op in c2.ops]
    order = [0] * len(c.ops) + [1] * len(c2.ops)
    rng.shuffle(order)
    its = [iter(c.ops), iter(c2.ops)]
    for o in order:
        (c, c2)[o].add(mon, (b, b2)[o], next(its[o]))
    del todo
    d2 = c2.write(mon, b2)[0]
    differs('interleaved-builders', c.write(mon, b)[0])
    if ref2 is not None and d2 is not None and d2 != ref2:
        mon.fail('interleaved-builders', f'{c2.kind} second builder')
    mon.sample = {'kind': c.kind, 'adds': len(c.ops), 'distinct': len(set(c.ids)), 'bytes': len(ref)}


def constructor(mon, rng, c):
    """What a builder was made from stays the caller's."""
    if c.kind == 'grid':
        s = rng.choice(PROJ)
        proj = pyproj.Proj(s + ' +R=6371200')
        x0, y0 = proj(rng.uniform(-110, -80), rng.uniform(25, 45))
        x, y = x0 + 25000.0 * np.arange(c.nx), y0 + 25000.0 * np.arange(c.ny)
        xy = rng.random() < 0.3
        args = [x, y] if xy else [np.asarray(q) for q in proj(*np.meshgrid(x, y), inverse=True)]
        if rng.random() < 0.3:
            args = [q.astype(np.float32) for q in args]

        def make(a):
            return mon.must('GridFile', GridFile, a[0], a[1], proj, use_xy=xy)
    else:
        cls = SoundingFile if c.kind == 'snd' else SurfaceFile
        args = [list(c.c['params'])]
        if rng.random() < 0.3:
            args = [np.array(args[0])]

        def make(a):
            return mon.must(cls.__name__, cls, a[0])

    def fill(b):
        if c.kind == 'grid':
            b.precision = c.bits
        for op in c.ops:
            c.add(mon, b, op)
    want = make(copy.deepcopy(args))
    live = copy.deepcopy(args)
    got = make(live)
    if want is None or got is None:
        return
    fill(want)
    late = rng.random() < 0.5
    if late:
        fill(got)
    if not equal(live, args):
        mon.fail('constructor-modified', (c.kind, str(args)[:200]))
    for a in live:
        if isinstance(a, np.ndarray):
            a[...] = 'ZZ' if a.dtype.kind == 'U' else 7
        else:
            a[:] = ['ZZ'] * (len(a) + 1)
    if not late:
        fill(got)
    mon.seen('constructors')
    (d1, e1), (d2, e2) = c.write(mon, want), c.write(mon, got)
    if e1 or e2 or d1 != d2:
        mon.fail('constructor-leaks', (c.kind, s if c.kind == 'grid' else '', e1, e2))


def other_data(rng, c, op):
    a, k = copy.deepcopy(op)
    a = list(a)
    if c.kind == 'grid':
        a[0] = np.asarray(a[0], dtype=float) * 0 + rng.randint(1, 9)
        a[0] = np.where(np.isnan(a[0]), 5.0, a[0])
    else:
        a[0] = {p: ((np.asarray(v, dtype=float) * 0 + 3.0) if c.kind == 'snd' else 3.0)
                for p, v in a[0].items()}
    return tuple(a), k


def vgf_case(mon, rng):
    specs = [vgw.spec(rng) for _ in range(rng.randint(1, 6))]
    v = vgw.vgfile(mon, specs)
    if v is None:
        return
    ref, err = vgw.write(mon, v)
    if err:
        mon.fail('to_vgf-raised', (err, [s[0] for s in specs]))
        return
    mon.seen('vgf_files')

    def differs(what, data):
        mon.seen('histories')
        mon.key('vgf', what, tuple(sorted({s[0] for s in specs})), len(specs))
        if data is not None and data != ref:
            mon.fail(what, f'vgf {[s[0] for s in specs]}: {len(data)} vs {len(ref)} bytes')
    differs('second-write', vgw.write(mon, v)[0])
    elems = []
    for s in specs:
        live = copy.deepcopy(s)
        e, err = vgw.make(mon, live)
        if err:
            mon.fail('element-raised', err)
            return
        mon.seen('args_compared')
        if not equal(live, s):
            mon.fail('input-modified', s[0])
        e1 = mon.must('encode', e.encode)
        scramble(live[1])
        if mon.must('encode', e.encode) != e1:
            mon.fail('caller-change-leaks', s[0])
        elems.append(e)
    w = mon.must('from_elements', ev.VGFile.from_elements, *elems)
    if w is not None:
        differs('from_elements', vgw.write(mon, w)[0])
        other = ev.VGFile()
        other.add_element(elems[0])
        differs('shared-state', vgw.write(mon, w)[0])
        one, err = vgw.write(mon, other)
        if one is not None and one != ref[:424] + elems[0].encode():
            mon.fail('shared-state', 'second VGFile')
    x = ev.VGFile()
    cut = rng.randint(0, len(elems))
    for e in elems[:cut]:
        x.add_element(e)
    vgw.write(mon, x)
    for e in elems[cut:]:
        x.add_element(e)
    differs('add-after-write', vgw.write(mon, x)[0])
    mon.sample = {'kind': 'vgf', 'elements': [s[0] for s in specs]}
