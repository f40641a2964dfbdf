"""C20: VGF elements decode independently of their neighbours."""
from vt import vgrec

ID = 'C20'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: sequences of independently written VGF records, the decoded sequence compared with the per-record expectation'
RULE = 'distinct (ordered pair of neighbouring record kinds with their special conditions) seen by the sequence monitor'
ASSUMPTIONS = ['a record occupies record_size bytes; classes/types follow GEMPAK vgstruct.h/drwids.h; '
               'a header with invalid codes ends the file as in GEMPAK (cvgrdhdr.c)']
QUICK = 9000
THOROUGH = 135000
REQUIRE = {'elements': 3000, 'unsupported': 300, 'deleted': 100, 'longer': 200, 'no_points': 50,
           'framed': 1000, 'ended': 500}


def frames(data):
    """Offsets at which records start when the file is followed by record sizes."""
    off, out = 0, []
    while off + 40 <= len(data):
        out.append(off)
        off += int.from_bytes(data[off + 20:off + 24], 'big')
    return out, off


def sequence(rng, n=None):
    n = n or (rng.choice([1, 2, 3, 3, 5, 8, 20]) if rng.random() < 0.998 else rng.choice([129, 260, 300]))
    recs = []
    if rng.random() < 0.7:
        recs.append(vgrec.record(rng, 'header'))
    fav = rng.choice(vgrec.ELEMENTS) if rng.random() < 0.3 else None
    for _ in range(n):
        k = rng.random()
        kind = 'unsupported' if k < 0.15 else fav if fav and k < 0.4 else rng.choice(vgrec.ELEMENTS)
        extra = rng.choice([4, 8, 40, 200, 3]) if rng.random() < 0.12 else 0
        r = vgrec.record(rng, kind, deleted=rng.random() < 0.06, extra=extra)
        r.extra = extra
        recs.append(r)
        if rng.random() < 0.03:
            recs.append(vgrec.record(rng, 'header'))
    return recs


def invalid(rng):
    """(what, records that start with one no reader takes, followed by good ones)"""
    r = vgrec.record(rng, rng.choice(vgrec.ELEMENTS))
    after = b''.join(vgrec.record(rng, rng.choice(vgrec.ELEMENTS)).data for _ in range(rng.choice([0, 1, 3])))
    h = dict(r.head)
    k = rng.choice(['delete', 'vg_type', 'vg_class', 'major_color', 'minor_color', 'short', 'beyond', 'beyond'])
    if k == 'short':
        h['record_size'] = rng.choice([39, 38, 20, 1, 0, -1, -40, -2 ** 31])
    elif k == 'beyond':
        h['record_size'] = len(r.data) + len(after) + rng.choice([1, 2, 4, 39, 40, 41, 80, 1000, 2 ** 30])
    else:
        h[k] = rng.choice({'delete': [2, 3, 255], 'vg_type': [0, 3, 44, 45, 100, 255], 'vg_class': [17, 18, 100, 255],
                           'major_color': [-1, -2, 33, 34, 256, 2 ** 31 - 1], 'minor_color': [-1, -2, 33, 34, 256, -2 ** 31]}[k])
    return k, vgrec.pack_header(h) + r.data[40:] + after


def tag(r):
    return (r.kind, r.note, bool(getattr(r, 'extra', 0)), r.head['delete'], r.cls is None)


def case(mon, rng, i, tier):
    from gempakio import VectorGraphicFile
    recs = sequence(rng)
    data = b''.join(r.data for r in recs)
    end = None
    if rng.random() < 0.2:
        end, tail = invalid(rng)
        data += tail
        mon.seen('ended')
        mon.key('ended', end)
    mon.sample = {'records': [repr(r) for r in recs][:8], 'bytes': len(data)}
    v, err = mon.run(VectorGraphicFile, mon.put(data, '.vgf'))
    if err:
        mon.fail('raised', ([tag(r) for r in recs], err))
        return
    if not end:
        offs, last = frames(data)
        assert last == len(data) and len(offs) == len(recs)
    mon.seen('framed')
    for a, b in zip([None] + recs, recs):
        mon.key(tag(a) if a else None, tag(b))
    for r in recs:
        mon.seen('unsupported', r.kind == 'unsupported')
        mon.seen('deleted', r.head['delete'])
        mon.seen('longer', bool(getattr(r, 'extra', 0)))
        mon.seen('no_points', r.cls is None and r.kind != 'unsupported')
    want = [r for r in recs if r.cls is not None and r.kind != 'header']
    got = list(v.elements)
    # deleted records may be passed over, they must not change anything else
    k = 0
    for r in want:
        if k < len(got):
            e = got[k]
            d = vgrec.element_differs(e, vgrec.without(r, 'status') if r.kind == 'sigmet' else r)
        else:
            e, d = None, 'missing'
        if d and r.head['delete']:
            continue
        if d:
            mon.fail('sequence', f'element {k} {tag(r)}: {d}; records {[tag(x) for x in recs]}')
            return
        mon.seen('elements')
        k += 1
    if k != len(got):
        mon.fail('invented', f'{len(got) - k} elements too many, first {got[k]!r}; ended by {end}; {[tag(x) for x in recs]}')
    heads = [r for r in recs if r.kind == 'header']
    if heads:
        d = [vgrec.element_differs(v.header, r) for r in heads]
        if all(d):
            mon.fail('file-header', d[0])
    # each record read on its own gives the same
    if rng.random() < (0.15 if tier == 'quick' else 0.3) and len(recs) < 12:
        alone = []
        for r in recs:
            w, err = mon.run(VectorGraphicFile, mon.put(r.data, '.vgf'))
            if err:
                mon.fail('alone-raised', (tag(r), err))
                return
            alone += list(w.elements)
            mon.seen('read_alone')
        from vt.observe import canon
        a, b = [canon(vars(e)) for e in alone], [canon(vars(e)) for e in got]
        if a != b:
            mon.fail('context', f'{len(a)} vs {len(b)} elements; {[tag(x) for x in recs]}')
