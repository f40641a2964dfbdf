"""GEMPAK thermodynamic definitions and profile interpolation, written from the published formulas."""
import math

MISS = -9999.0
RD, G = 287.04, 9.80616


def vapr(d):
    return MISS if d == MISS else 6.112 * math.exp(17.67 * d / (d + 243.5))


def mixr(d, p):
    if MISS in (d, p):
        return MISS
    e = vapr(d) * (1.001 + (p - 100.0) / 900.0 * 0.0034)
    return MISS if e > 0.5 * p else 0.62197 * e / (p - e) * 1000.0


def tvrk(t, d, p):
    if MISS in (t, p):
        return MISS
    r = mixr(d, p)
    k = t + 273.15
    return k if d == MISS or r == MISS else k * (1 + 0.001 * r / 0.62197) / (1 + 0.001 * r)


def sclh(tb, tt, db, dt_, pb, pt):
    a, b = tvrk(tb, db, pb), tvrk(tt, dt_, pt)
    return MISS if MISS in (a, b) else RD / G * (a + b) / 2


def mhgt(z, pb, pt, h):
    if MISS in (z, pb, pt, h) or pb <= 0 or pt <= 0:
        return MISS
    return z + h * math.log(pb / pt)


def frac(p, p1, p2):
    return math.log(p / p1) / math.log(p2 / p1)


def direction(a, b, f):
    """Interpolated direction the shorter way round, in [0, 360)."""
    d = (b - a + 180.0) % 360.0 - 180.0
    return (a + d * f) % 360.0


def moist_heights(s0):
    """Heights filled by moist hydrostatic integration between known heights: {(name, level): value}."""
    n = len(s0['PRES'])
    ref = {}
    P, T, D, Z = s0['PRES'], s0['TEMP'], s0['DWPT'], s0['HGHT']
    known = [k for k in range(n) if MISS not in (P[k], T[k], Z[k])]
    for a, b in zip(known, known[1:] + [None]):
        hi = b if b is not None else n - 1
        hs = [sclh(T[k - 1], T[k], D[k - 1], D[k], P[k - 1], P[k]) for k in range(a + 1, hi + 1)]
        raw = sum(h * math.log(P[k - 1] / P[k]) for h, k in zip(hs, range(a + 1, hi + 1)))
        scale = (Z[b] - Z[a]) / raw if b is not None else 1.0
        z = Z[a]
        for h, k in zip(hs, range(a + 1, hi + 1)):
            z += scale * h * math.log(P[k - 1] / P[k])
            if k != b:
                ref[('HGHT', k)] = z
    return ref


def logp_heights(s0):
    """Heights filled linearly in log p, and hydrostatically above the last known height."""
    n = len(s0['PRES'])
    P, T, D, Z = s0['PRES'], s0['TEMP'], s0['DWPT'], s0['HGHT']
    known = [k for k in range(n) if Z[k] != MISS and P[k] != MISS]
    ref = {}
    for k in range(n):
        if Z[k] != MISS or P[k] == MISS:
            continue
        lo = [j for j in known if j < k]
        hi = [j for j in known if j > k]
        if lo and hi:
            a, b = lo[-1], hi[0]
            ref[('HGHT', k)] = Z[a] + (Z[b] - Z[a]) * frac(P[k], P[a], P[b])
    top = known[-1] if known else -1
    base = top
    zz = dict(enumerate(Z))
    for k in range(top + 1, n):
        if base >= 0 and MISS not in (T[base], zz[base], P[base], T[k], P[k]):
            zz[k] = mhgt(zz[base], P[base], P[k], sclh(T[base], T[k], D[base], D[k], P[base], P[k]))
            if zz[k] != MISS:
                base = k
                ref[('HGHT', k)] = zz[k]
    return ref


def logp_pressures(s0):
    """Pressures filled from heights."""
    n = len(s0['PRES'])
    P, Z = s0['PRES'], s0['HGHT']
    known = [k for k in range(n) if MISS not in (P[k], Z[k])]
    ref = {}
    for k in range(n):
        lo = [j for j in known if j < k]
        hi = [j for j in known if j > k]
        if P[k] == MISS and Z[k] != MISS and lo and hi:
            a, b = lo[-1], hi[0]
            ref[('PRES', k)] = P[a] * (P[b] / P[a]) ** ((Z[k] - Z[a]) / (Z[b] - Z[a]))
        elif P[k] != MISS and lo and hi and Z[k] == MISS:
            continue
    return ref


def missing_values(s0):
    """Values filled linearly in log p; amb: an ambiguous (180 degree) direction occurred."""
    n = len(s0['PRES'])
    P = s0['PRES']
    cur = {k: list(v) for k, v in s0.items()}
    ref = {}

    def fill(par, k, a, b):
        x, y = cur[par][a], cur[par][b]
        if MISS in (x, y):
            return MISS
        f = frac(P[k], P[a], P[b])
        return direction(x, y, f) if par == 'DRCT' else x + (y - x) * f
    amb = False
    for main, other in (('TEMP', 'DWPT'), ('DRCT', 'SPED'), ('DWPT', None)):
        for k in range(1, n - 1):
            if s0[main][k] != MISS or (main == 'DWPT' and cur[main][k] != MISS):
                continue
            up = next((j for j in range(k + 1, n) if s0[main][j] != MISS or cur[main][j] != MISS), None)
            if up is None or MISS in (P[k - 1], P[k], P[up]):
                continue
            if other is None and P[k - 1] > 100 and P[up] < 100:
                continue
            if main == 'DRCT' and cur[main][k - 1] != MISS and abs(
                    abs(cur[main][k - 1] - cur[main][up]) % 360 - 180) < 0.05:
                amb = True
            for par in (main,) + ((other,) if other else ()):
                v = fill(par, k, k - 1, up)
                ref[(par, k)] = v
                cur[par][k] = v
    return ref, amb
