"""C10: decoding does not depend on the byte order of the file."""
from vt import build, observe, world

ID = 'C10'
LEVEL = 'exploration'
QUICK, THOROUGH = 2400, 36000
RULE = ('each case builds one random file (grid of every packing, merged sounding real/packed, raob with text, '
        'standard/ship/climate surface with text) in both byte orders with the independent writer, or '
        'byte-swaps a file written by the library, and compares everything both readers return with each other '
        'and with the content; key = file kind, part type and layout')
ASSUMPTIONS = ['a swapped file keeps text (names, ids, reports, character vertical coordinates) as text']
REQUIRE = {'pairs': 500, 'entries_compared': 500, 'reports_compared': 500, 'swapped_written': 50}


def case(mon, rng, i, tier):
    if i % 6 == 5:
        return written(mon, rng)
    w = world.make(rng, ['grid', 'snd', 'raob', 'sfc', 'sfc'][i % 5])
    seed = rng.random()
    out = []
    for big in (False, True):
        r2 = None
        if seed < 0.5:
            import random
            r2 = random.Random(int(seed * 1e9))
        p = mon.put(w.spec.build(big, rng=r2, gaps=r2 is not None), w.ext)
        r = mon.must('open', observe.CLS[w.kind], p)
        if r is None:
            return
        if not observe.check_all(mon, w, r, 'big-' if big else 'little-'):
            return
        res, err = mon.run(observe.everything, r, w.kind)
        if err:
            mon.fail('query-raised', (big, err))
            return
        out.append(res)
    mon.seen('pairs')
    mon.key(w.tag)
    compare(mon, out, w.tag)
    mon.sample = {'tag': str(w.tag), 'entries': len(w.entries)}


def compare(mon, out, tag):
    for (n, a), (_n, b) in zip(*out):
        if a != b:
            mon.fail(f'{n}-differs', f'{tag}: little {str(a)[:300]} big {str(b)[:300]}')
            return


def swap(data, text_words):
    b = bytearray(data)
    for k in range(0, len(b), 4):
        if k // 4 + 1 not in text_words:
            b[k:k + 4] = b[k:k + 4][::-1]
    return bytes(b)


def text_words(data):
    """1-based word numbers of the text words of a file (from the strict parser)."""
    from vt import dm
    P = dm.parse(data)
    t = set(range(1, 8))
    for at, n in ((P.rkp, P.nrk), (P.ckp, P.nck)):
        t.update(range(at, at + n))
    if P.nfh:
        t.update(range(P.fkp, P.fkp + P.nfh))
        t.add(P.file_heads['NAVB'][1] + 1)
    for at, n, keys in ((P.rhp, P.nr, P.row_keys), (P.chp, P.nc, P.col_keys)):
        for k in range(n):
            for j, key in enumerate(keys):
                a = at + k * (len(keys) + 1) + 1 + j
                if key in dm.STRKEYS or (key == 'GVCD' and P.w(a)[0] > 8):
                    t.add(a)
    t.update(range(P.pp, P.pp + P.np))
    at = P.pp + 4 * P.np
    t.update(range(at, at + sum(len(p.params) for p in P.parts)))
    return t


def written(mon, rng):
    c = build.Content(rng)
    data = c.built(mon)
    if data is None:
        return
    p1 = mon.put(data, c.ext)
    p2 = mon.put(swap(data, text_words(data)), c.ext)
    out = []
    for p in (p1, p2):
        r = mon.must('open', observe.CLS[c.kind], p)
        if r is None:
            return
        res, err = mon.run(observe.everything, r, c.kind)
        if err:
            mon.fail('query-raised', (p == p2, err))
            return
        out.append(res)
    mon.seen('swapped_written')
    mon.seen('pairs')
    mon.key('written', c.kind)
    compare(mon, out, ('written', c.kind))
