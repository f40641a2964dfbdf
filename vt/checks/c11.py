"""C11: unused slots and absent entries never disturb the entries that exist."""
from vt import dm, observe, world

ID = 'C11'
LEVEL = 'exploration'
QUICK, THOROUGH = 8000, 120000
RULE = ('each case builds one random file of any kind twice with the independent writer: compact, and with '
        'unused (never used or deleted, stale keys left behind) row/column headers inserted anywhere, headers '
        'without data, absent parts, shuffled data blocks and free space holding junk; both must list and decode '
        'exactly the content; key = kind and layout, which headers have holes, byte order')
ASSUMPTIONS = ['an unused header has its flag word cleared and keeps its full length, as in GEMPAK',
               'a header that is in use but has no data in any part is an absent entry']
REQUIRE = {'holes': 1500, 'files_with_holes': 500, 'entries_compared': 1500, 'reports_compared': 2000}


def case(mon, rng, i, tier):
    w = world.make(rng, ['grid', 'snd', 'raob', 'sfc'][i % 4], i % 200 in (4, 13, 23))
    mode = rng.choice(['rows', 'cols', 'both', 'both'])
    ship = w.kind == 'sfc' and w.layout == 'ship'
    rows = mode != 'cols' and w.kind != 'grid' and not ship
    cols = mode != 'rows' or w.kind == 'grid' or ship
    spec, n, _ = world.holes(rng, w.spec, rows, cols)
    if ship and rng.random() < 0.4:  # room for rows a ship file never uses
        more = rng.randint(1, 3)
        spec.rows = list(spec.rows) + [None] * more
        n += more
    if rng.random() < 0.3 and (w.kind == 'grid' or ship):
        n += vacate(rng, w, spec)
    elif rng.random() < 0.25 and len(w.entries) > 1 and w.kind != 'grid':
        n += vacate(rng, w, spec)
    big = rng.random() < 0.3
    base = None
    if w.kind == 'raob':
        p = mon.put(w.spec.build(big), w.ext)
        r = mon.must('open-compact', observe.CLS[w.kind], p)
        if r is None:
            return
        base, err = mon.run(observe.everything, r, w.kind)
        if err:
            mon.fail('compact-raised', err)
            return
    p = mon.put(spec.build(big, rng=rng if rng.random() < 0.7 else None, gaps=rng.random() < 0.7), w.ext)
    r = mon.must('open', observe.CLS[w.kind], p)
    mon.seen('holes', n)
    mon.seen('files_with_holes', n > 0)
    mon.key(w.tag, rows, cols, big, n > 0)
    mon.sample = {'tag': str(w.tag), 'rows': [h is not None and not isinstance(h, tuple) for h in spec.rows],
                  'cols': [h is not None and not isinstance(h, tuple) for h in spec.cols]}
    if r is None:
        return
    if not observe.check_all(mon, w, r):
        return
    if base is not None:
        res, err = mon.run(observe.everything, r, w.kind)
        if err:
            mon.fail('query-raised', err)
            return
        for (nme, a), (_n, b) in zip(res, base):
            mon.seen('raob_compared')
            if a != b:
                mon.fail(f'{nme}-differs', f'{w.tag}: {str(a)[:300]} compact {str(b)[:300]}')


def vacate(rng, w, spec):
    """Remove the data of some entries (headers stay in use) from both specs and the expectation."""
    drop = rng.sample(range(len(w.entries)), rng.randint(1, max(1, len(w.entries) // 2)))
    if len(drop) == len(w.entries):
        drop = drop[:-1]
    slots = {w.entries[k].slot for k in drop}
    # the same slots in the holed spec: match through the cell token identity
    ids = {id(t) for (r, c, p), t in w.spec.cells.items() if (r, c) in slots}
    for s in (w.spec, spec):
        for key in [k for k, t in s.cells.items() if id(t) in ids]:
            del s.cells[key]
    w.entries = [e for k, e in enumerate(w.entries) if k not in drop]
    return len(drop)
