"""C06: every written GEMPAK file is structurally valid (strict independent parser)."""
from vt import build, dm, stn

ID = 'C06'
LEVEL = 'exploration'
QUICK, THOROUGH = 10000, 150000
RULE = ('each case writes a random grid/sounding/surface file (sometimes empty, sometimes sized to record '
        'boundaries) and parses it with a strict independent parser that claims every region; key = (kind, '
        'rows mod 128 class, columns class, records, sparse, empty)')
ASSUMPTIONS = ['contents are admissible (checked by C01-C05 generators)']
REQUIRE = {'files_parsed': 800, 'cells_parsed': 2000, 'empty_files': 10, 'sparse_files': 50,
           'region_ends_on_record': 3}
# numbers of entries for which a region of the file ends exactly with a record (or just misses it)
EXACT = {'grid': [57, 58, 58, 59, 128, 127],
         'snd': [(1, 1, 31), (1, 2, 30), (2, 1, 32), (42, 2, 2), (41, 5, 1), (64, 2, 1), (32, 4, 1), (85, 1, 1),
                 (1, 1, 31), (1, 1, 44)],
         'sfc': [(1, 1, 31), (2, 2, 30), (1, 1, 32), (11, 6, 2), (25, 2, 1), (64, 2, 1), (16, 8, 1), (1, 128, 1),
                 (2, 1, 31), (1, 1, 44)]}


def case(mon, rng, i, tier):
    kind = ['grid', 'snd', 'sfc'][i % 3]
    c = build.Content(rng, kind, small=False,
                      exact=rng.choice(EXACT[kind]) if rng.random() < 0.04 else None)
    if rng.random() < 0.04:
        c.ops, c.ids = [], []
    data = c.built(mon)
    if data is None:
        return
    try:
        P = dm.parse(data)
    except dm.Bad as e:
        mon.fail('malformed', f'{c.kind}: {e} (rows/cols from {len(c.ops)} adds)')
        return
    mon.seen('files_parsed')
    ids = set(c.ids)
    if P.big or P.n_free or (P.ftype != {'grid': 3, 'snd': 2, 'sfc': 1}[c.kind]):
        mon.fail('label', (c.kind, P.ftype, P.n_free, P.big))
    if c.kind == 'grid':
        cols, rows = ids, {1}
        keys = (['GRID'], ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3'])
        part = 'GRID'
    else:
        rows = {k[0] for k in ids}
        cols = {k[1:] for k in ids}
        keys = (['DATE', 'TIME'], ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2']
                + (['SPRI'] if c.kind == 'sfc' else []))
        part = 'SNDT' if c.kind == 'snd' else 'SFDT'
    if (P.row_keys, P.col_keys) != keys:
        mon.fail('keys', (P.row_keys, P.col_keys))
    if [p.name for p in P.parts] != [part]:
        mon.fail('parts', [p.name for p in P.parts])
        return
    if (P.nr, P.nc) != (len(rows), len(cols)):
        mon.fail('counts', f'{c.kind}: file {P.nr}x{P.nc}, content {len(rows)}x{len(cols)}')
        return
    if None in P.rows or None in P.cols:
        mon.fail('unused-header', 'a written header is marked unused')
    if len(P.cells) != len(ids):
        mon.fail('cells', f'{len(P.cells)} data blocks for {len(ids)} entries')
        return
    if P.cells:
        if P.next_free != P.end_of_data:
            mon.fail('next-free-word', (P.next_free, P.end_of_data))
    else:
        mon.seen('empty_files')
        if P.next_free < P.end_of_data or (P.next_free - 1) % 128:
            mon.fail('next-free-word', (P.next_free, P.end_of_data))
    if P.nwords < P.next_free - 1 or P.nwords - (P.next_free - 1) >= 128 + (0 if P.cells else 128):
        mon.fail('file-size', (P.nwords, P.next_free))
    if len(P.cells) < P.nr * P.nc:
        mon.seen('sparse_files')
    mon.seen('cells_parsed', len(P.cells))
    npar = sum(len(p.params) for p in P.parts)
    if not ((P.chp + P.nc * (len(P.col_keys) + 1) - 1) % 128
            and (4 * len(P.parts) + 4 * npar) % 128 and (P.nr * P.nc * len(P.parts)) % 128):
        mon.seen('region_ends_on_record')
    content(mon, c, P)
    mon.key(c.kind, P.nr % 128 < 2, min(P.nc, 13), min(P.nwords // 128, 40), len(P.cells) < P.nr * P.nc,
            not P.cells)
    mon.sample = {'kind': c.kind, 'rows': P.nr, 'columns': P.nc, 'cells': len(P.cells), 'words': P.nwords}


def content(mon, c, P):
    if c.kind == 'grid':
        if set(P.file_heads) != {'NAVB', 'ANLB'} or P.file_heads['NAVB'][2] != 256 \
                or P.file_heads['ANLB'][2] != 128:
            mon.fail('file-headers', P.file_heads)
            return
        at = P.file_heads['NAVB'][1]
        if P.wf(at)[0] != 2.0 or P.ws(at + 1)[0] != b'CED ' or P.wf(at + 2, 4) != (1, 1, c.nx, c.ny):
            mon.fail('navigation', (P.wf(at)[0], P.ws(at + 1), P.wf(at + 2, 4)))
        if P.wf(P.file_heads['ANLB'][1])[0] != 2.0:
            mon.fail('analysis', P.wf(P.file_heads['ANLB'][1]))
        n = c.nx * c.ny
        for (r, k, p), (ptr, ln) in P.cells.items():
            want = 2 + 6 + (n * c.bits + 31) // 32
            if ln != want:
                mon.fail('grid-length', f'length {ln} want {want} for {n} cells of {c.bits} bits')
                return
            nx, ny, pk, bits, mflag, kxky = P.w(ptr + 1, 6)
            if (nx, ny, pk, bits, kxky) != (c.nx, c.ny, 1, c.bits, n):
                mon.fail('grid-header', (nx, ny, pk, bits, mflag, kxky))
                return
        return
    m = stn.model(c.c) if c.ops else {}
    npar = len(c.c['params'])
    if [q[0] for q in P.parts[0].params] != c.c['params'] or P.parts[0].dtype != 1:
        mon.fail('parameters', (P.parts[0].params, c.c['params']))
    # match blocks through their headers
    want = {}
    for k, d in m.items():
        t = k[0]
        sid = k[1].ljust(8)
        key = (int(t.strftime('%y%m%d')), int(t.strftime('%H%M')), sid[:4], sid[4:]) + k[2:-2]
        want.setdefault(key, []).append(1 + npar * (len(next(iter(d.values()))) if c.kind == 'snd' else 1))
    got = {}
    for (r, k, p), (ptr, ln) in P.cells.items():
        R, C = P.rows[r], P.cols[k]
        key = (R['DATE'], R['TIME'], C['STID'], C['STD2'], C['STNM'], C['SELV'], C['STAT'].strip(),
               C['COUN'].strip()) + ((C['SPRI'],) if c.kind == 'sfc' else ())
        got.setdefault(key, []).append(ln)
        if P.w(ptr + 1)[0] != R['TIME']:
            mon.fail('data-time', (P.w(ptr + 1)[0], R))
            return
    for d in (want, got):
        for v in d.values():
            v.sort()
    if got != want:
        bad = [(k, got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)]
        mon.fail('blocks', f'{c.kind}: {bad[:2]}')
