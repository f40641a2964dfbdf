"""Reference merge of unmerged soundings, written level by level from the GEMPAK merge rules."""
from vt import thermo

MISS = -9999.0
FIELDS = ['PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED']


class Level(dict):
    def __init__(self, **kw):
        super().__init__({f: MISS for f in FIELDS})
        self.update(kw)
        self.obs = {}

    def observe(self, part, **kw):
        self.update(kw)
        for k, v in kw.items():
            if v != MISS:
                self.obs[k] = part
        return self


def rows(parts, name):
    if name not in parts:
        return []
    cols = parts[name]
    n = len(next(iter(cols.values())))
    return [{k: v[j] for k, v in cols.items()} for j in range(n)]


def near(a, b):
    return abs(a - b) <= 1e-8 + 1e-5 * abs(b)


def as_table(levels):
    return {f: [lv[f] for lv in levels] for f in FIELDS}


def put(levels, ref):
    for (par, k), v in ref.items():
        levels[k][par] = v
        levels[k].obs.pop(par, None)


def insert(levels, new):
    k = 1
    while k < len(levels) and levels[k]['PRES'] > new['PRES']:
        k += 1
    levels.insert(k, new)


def at(levels, p):
    return next((lv for lv in levels if lv['PRES'] == p), None)


def merge(parts, selv):
    """(levels, ambiguous) or (None, False) when there are no profile data."""
    R = {n: rows(parts, n) for n in ('TTAA', 'TTBB', 'PPBB', 'TTCC', 'TTDD', 'PPDD', 'PPAA', 'PPCC', 'TRPA',
                                     'TRPC', 'MXWA', 'MXWC')}
    if not any(R.values()):
        return None, False
    by_height = {}
    for n in ('PPBB', 'PPDD'):
        by_height[n] = bool(R[n]) and 'PRES' not in R[n][0]
        if by_height[n] and any(r['HGHT'] != MISS and r['HGHT'] < 0 for r in R[n]):
            by_height[n] = False
            R[n] = [dict(r, PRES=r['HGHT']) for r in R[n]]
    # surface
    sfc = Level()
    if R['TTAA']:
        a = R['TTAA'][0]
        first = next((r['PRES'] for r in R['TTAA'] if MISS not in (r['PRES'], r['TEMP'], r['HGHT'])), MISS)
        if a['PRES'] != MISS and a['PRES'] <= 1060 and a['PRES'] >= first:
            sfc.observe('TTAA', **{f: a[f] for f in FIELDS})
            sfc['HGHT'] = float(selv)
    if R['TTBB']:
        b = R['TTBB'][0]
        if MISS not in (b['PRES'], b['TEMP']) and (sfc['PRES'] == MISS or near(sfc['PRES'], b['PRES'])):
            sfc.observe('TTBB', PRES=b['PRES'], TEMP=b['TEMP'], DWPT=b['DWPT'])
    if R['PPBB']:
        b = R['PPBB'][0]
        if by_height['PPBB']:
            if b['HGHT'] == 0 and b['DRCT'] != MISS:
                sfc.observe('PPBB', DRCT=b['DRCT'], SPED=b['SPED'])
        elif MISS not in (b['PRES'], b['DRCT']) and (
                sfc['PRES'] == MISS or near(sfc['PRES'], abs(b['PRES']))):
            sfc.observe('PPBB', PRES=abs(b['PRES']), DRCT=b['DRCT'], SPED=b['SPED'])
    L = [sfc]
    # mandatory levels
    last = sfc['PRES'] if sfc['PRES'] != MISS else 2000.0
    for part in ('TTAA', 'TTCC'):
        for r in R[part][1:] if part == 'TTAA' else R[part]:
            if MISS not in (r['PRES'], r['TEMP'], r['HGHT']) and r['PRES'] < last:
                L.append(Level().observe(part, **r))
                last = r['PRES']
    # mandatory winds only complete existing levels
    if R['TTAA'] and len(L) >= 2:
        for part in ('PPAA', 'PPCC'):
            for r in R[part]:
                lv = at(L[1:], r['PRES'])
                if lv is not None and lv['DRCT'] == MISS:
                    lv.observe(part, DRCT=r['DRCT'], SPED=r['SPED'])

    def bottom(part, low, drop):
        if sfc['PRES'] != MISS:
            return sfc['PRES']
        if len(L) > 1:
            if drop and len(R[part]) > 1 and L[1]['PRES'] < R[part][1]['PRES']:
                return 1050.0
            return L[1]['PRES']
        return low

    def significant(names, need, fill, low, drop, clear=False):
        pbot = bottom(names[0], low, drop)
        for part in names:
            for r in R[part]:
                p = abs(r['PRES'])
                if MISS not in [r['PRES']] + [r[f] for f in need] and p != 0:
                    if p > pbot:
                        continue
                    lv = at(L, p)
                    if lv is None:
                        insert(L, Level(PRES=p).observe(part, **{f: r[f] for g in fill for f in g}))
                    else:
                        for g in fill:
                            if lv[g[0]] == MISS or ('TEMP' not in need and lv[g[1]] == MISS):
                                lv.observe(part, **{f: r[f] for f in g})
                        if clear:
                            lv['HGHT'] = MISS
                pbot = min(pbot, p)
    TD, WD = ('TEMP', 'DWPT'), ('DRCT', 'SPED')
    significant(('TRPA', 'TRPC'), ('TEMP',), (TD, WD), 1050.0, True, True)
    significant(('TTBB', 'TTDD'), ('TEMP',), (TD,), 1050.0, True)
    put(L, thermo.moist_heights(as_table(L)))
    pw = tuple(n for n in ('PPBB', 'PPDD') if R[n] and not by_height[n])
    if pw:
        significant(pw, WD, (WD,), 0.0, False)
    significant(('MXWA', 'MXWC'), WD, (WD,), 0.0, False)
    put(L, thermo.logp_heights(as_table(L)))
    # winds on height levels
    if by_height['PPBB'] or by_height['PPDD']:
        winds = R['PPBB'] if by_height['PPBB'] else []
        if winds and winds[0]['HGHT'] in (0, sfc['HGHT']):
            winds = winds[1:]
        winds = winds + (R['PPDD'] if by_height['PPDD'] else [])
        k = 0 if MISS not in (sfc['PRES'], sfc['HGHT']) else 1
        # k: the level just below
        for r in winds:
            z = r['HGHT']
            if k + 1 >= len(L) or MISS in (L[k]['HGHT'], L[k + 1]['HGHT']):
                break
            if z <= L[k]['HGHT']:
                continue
            if z - L[k]['HGHT'] < 1:
                if MISS in (L[k]['DRCT'], L[k]['SPED']):
                    L[k].observe('Z', DRCT=r['DRCT'], SPED=r['SPED'])
                continue
            while k + 1 < len(L) and L[k + 1]['HGHT'] != MISS and z > L[k + 1]['HGHT']:
                k += 1
            if k + 1 >= len(L) or L[k + 1]['HGHT'] == MISS:
                break
            up = L[k + 1]
            if abs(up['HGHT'] - z) < 1:
                if MISS in (up['DRCT'], up['SPED']):
                    up.observe('Z', DRCT=r['DRCT'], SPED=r['SPED'])
            else:
                L.insert(k + 1, Level(HGHT=z).observe('Z', DRCT=r['DRCT'], SPED=r['SPED']))
                k += 1
        put(L, thermo.logp_pressures(as_table(L)))
    ref, amb = thermo.missing_values(as_table(L))
    put(L, ref)
    # mandatory levels below ground
    if sfc['PRES'] != MISS:
        for r in R['TTAA'][1:]:
            if r['PRES'] > sfc['PRES']:
                insert(L, Level().observe('BG', **r))
    return L, amb
