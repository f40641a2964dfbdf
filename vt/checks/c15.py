"""C15: packed real data decode to (field + offset) x 10^scale."""
import numpy as np
from vt import dm, observe, world

ID = 'C15'
LEVEL = 'exploration'
QUICK, THOROUGH = 14000, 210000
RULE = ('each case packs 1-44 parameters of 1-32 bits (every width over every start bit is reached) with random '
        'scales, offsets and fields (zeros, all ones, extremes) into merged sounding records or surface reports '
        'with the independent bit packer, either byte order; every value must be (field+offset)*10^scale, or '
        'missing for all ones; key = (width, start bit in word) pairs')
ASSUMPTIONS = ['values equal to -9999 are not generated as data', 'single-precision rounding']
REQUIRE = {'fields': 100000, 'missing': 10000, 'straddling': 15000, 'files': 1000}

SCALES = [0, 0, -1, -1, -2, -3, -6, 1, 2, 4, 0, -1, -9, -10, -12, -20, 9, 12]


def params(rng, n, i):
    mode = rng.choice(['mixed', 'mixed', 'same', 'gempak', 'wide'])
    w = 1 + i % 32
    out = []
    for k in range(n):
        if mode == 'same':
            b = w
        elif mode == 'gempak':
            b = rng.choice([8, 9, 10, 11, 12, 14, 15])
        elif mode == 'wide':
            b = rng.choice([29, 30, 31, 32, 31, 32])
        else:
            b = rng.randint(1, 32)
        off = rng.choice([0, 0, -100, 50, -5000, 100000, -2 ** 31, 2 ** 31 - 1, rng.randint(-10 ** 6, 10 ** 6)])
        out.append((f'P{k:03d}', rng.choice(SCALES), off, b))
    if rng.random() < 0.5:
        out[rng.randrange(n)] = ('WID0', 0, 0, w)
    return out


def fields(rng, ps, n):
    rec = []
    for _ in range(n):
        f = []
        for _nm, sc, of, b in ps:
            top = 2 ** b - 1
            k = rng.choice([0, 1, top, top, top - 1, 1 << (b - 1), (1 << (b - 1)) - 1, rng.randint(0, top),
                            rng.randint(0, top), rng.randint(0, top)]) & top
            if abs((k + of) * 10.0 ** sc + 9999) < 0.01:
                k = top
            f.append(k)
        rec.append(f)
    return rec


def case(mon, rng, i, tier):
    n = rng.choice([1, 2, 3, 5, 6, 12, 24, 44])
    ps = params(rng, n, i)
    sounding = rng.random() < 0.5
    nrec = rng.choice([1, 2, 3, 10, 50]) if sounding else 1
    if sounding and rng.random() < 0.01:
        nrec = rng.choice([255, 256, 300, 400])
    if sounding:
        vert = rng.choice(['PRES', 'HGHT'])
        iv = rng.randrange(len(ps))
        ps[iv] = (vert, rng.choice([0, -1, -2, 1]), rng.choice([0, 0, 10, -3]), rng.choice([8, 13, 16, 20, 31, 32] if nrec < 200 else [13, 16, 20]))
    rec = fields(rng, ps, nrec)
    if sounding:
        lev = sorted(rng.sample(range(5, 2 ** ps[iv][3] - 2), nrec), reverse=rng.random() < 0.5)
        for k in range(nrec):
            rec[k][iv] = lev[k]
    bits = [p[3] for p in ps]
    header = rng.choice([0, 1, 2])
    toks = dm.I(*[rng.choice([0, -1, 1200])] * header)
    for f in rec:
        toks += dm.I(*dm.pack_lsb(f, bits))
    pos = 0
    for b in bits:
        mon.key(b, pos % 32)
        mon.seen('straddling', nrec if pos % 32 + b > 32 else 0)
        pos += b
    val = np.array([[np.nan if k == 2 ** p[3] - 1 else (k + p[2]) * 10.0 ** p[1] for k, p in zip(f, ps)]
                    for f in rec])
    st = world.stations(rng, 1)[0]
    st['SPRI'] = 0
    t = world.times(rng, 1)[0]
    part = dm.Part('SNDT' if sounding else 'SFDT', header, 4, ps)
    keys = world.STN_KEYS + ([] if sounding else ['SPRI'])
    sp = dm.Spec(2 if sounding else 1, ['DATE', 'TIME'], keys, [world.dkeys(t)], [st], [part], {(0, 0, 0): toks})
    p = mon.put(sp.build(rng.random() < 0.4), '.snd')
    r = mon.must('open', observe.CLS['snd' if sounding else 'sfc'], p)
    if r is None:
        return
    got, err = mon.run(observe.query, r, 'snd' if sounding else 'sfc')
    if err or len(got) != 1:
        mon.fail('query', err or len(got))
        return
    mon.seen('files')
    mon.seen('fields', val.size)
    mon.seen('missing', int(np.isnan(val).sum()))
    order = np.argsort(val[:, iv]) if sounding else [0]
    if sounding and vert == 'PRES':
        order = order[::-1]
    for k, (nm, sc, of, b) in enumerate(ps):
        v = val[order, k]
        if sounding:
            w = np.asarray(got[0][nm.lower()].values, float)
            w = w if k == iv else w[0]
        else:
            w = np.array([got[0]['values'][nm.lower()]], float)
            w[w == -9999.0] = np.nan
        if w.shape != v.shape or (np.isnan(w) != np.isnan(v)).any():
            j = int(np.argmax(np.isnan(w) != np.isnan(v))) if w.shape == v.shape else -1
            mon.fail('missing', f'{nm} {b} bits at bit {sum(bits[:k])}: read {w[j]} expected {v[j]}')
            return
        bad = np.abs(w - v) > 2.0 ** -22 * np.abs(v)
        if bad.any():
            j = int(np.argmax(bad))
            mon.fail('value', f'{nm} scale {sc} offset {of} {b} bits at bit {sum(bits[:k])} record {order[j]}: '
                     f'read {w[j]!r} expected {v[j]!r} (field {rec[order[j]][k]})')
            return
    mon.sample = {'params': ps[:5], 'records': nrec, 'fields': rec[0][:5]}
