"""C17: thermodynamic and interpolation formulas are correct everywhere."""
import math
from gempakio import gemcalc
from vt import thermo
from vt.thermo import MISS

ID = 'C17'
LEVEL = 'exploration'
QUICK, THOROUGH = 40000, 600000
RULE = ('each case evaluates every scalar formula at random physical, extreme and missing inputs, interpolates '
        'between two random levels, and runs the four profile routines on a random profile (1-25 levels, '
        'missing surface, missing runs anywhere), comparing each output with independently written formulas and '
        'checking that observed values are untouched; key = (routine, missing pattern, size class)')
ASSUMPTIONS = ['pressures decrease and heights increase with level; dewpoint is only given with temperature and '
               'direction with speed; interp_moist_height has temperatures above the first level (the merge '
               'guarantees these)', 'relative tolerance 1e-9']
REQUIRE = {'formula_calls': 20000, 'profiles': 10000, 'filled': 10000, 'wrapped': 500}


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def angle_close(a, b):
    return abs((a - b + 180) % 360 - 180) < 1e-7


def temp(rng):
    return rng.choice([rng.uniform(-90, 45), rng.uniform(-90, 45), 0.0, -40.0, -120.0, 60.0, round(rng.uniform(-80, 40), 1)])


def pres(rng):
    return rng.choice([rng.uniform(1, 1085), rng.uniform(1, 1085), 1000.0, 100.0, 500.0, 10.0, 0.5, 850])


def m(rng, v, p=0.12):
    return MISS if rng.random() < p else v


def case(mon, rng, i, tier):
    formulas(mon, rng)
    between(mon, rng)
    for fn in (moist, logp_height, logp_pressure, missing_data):
        fn(mon, rng)


def formulas(mon, rng):
    t, t2 = m(rng, temp(rng)), m(rng, temp(rng))
    d = m(rng, temp(rng) if t == MISS else t - rng.choice([0, rng.uniform(0, 30)]))
    d2 = m(rng, temp(rng) if t2 == MISS else t2 - rng.choice([0, rng.uniform(0, 30)]))
    p, p2 = m(rng, pres(rng)), m(rng, pres(rng))
    z = m(rng, rng.choice([0.0, 100.0, -300.0, rng.uniform(-400, 30000)]))
    h = m(rng, rng.uniform(5000, 9500))
    for nm, got, ref in [
            ('vapor_pressure', mon.run(gemcalc.vapor_pressure, d), thermo.vapr(d)),
            ('mixing_ratio', mon.run(gemcalc.mixing_ratio, d, p), thermo.mixr(d, p)),
            ('virtual_temperature', mon.run(gemcalc.virtual_temperature, t, d, p), thermo.tvrk(t, d, p)),
            ('scale_height', mon.run(gemcalc.scale_height, t, t2, d, d2, p, p2),
             thermo.sclh(t, t2, d, d2, p, p2)),
            ('moist_hydrostatic_height', mon.run(gemcalc.moist_hydrostatic_height, z, p, p2, h),
             thermo.mhgt(z, p, p2, h)),
            ('moist_hydrostatic_height', mon.run(gemcalc.moist_hydrostatic_height, z, rng.choice([0, -5.0]), p2, h),
             MISS)]:
        mon.seen('formula_calls')
        v, err = got
        mon.key(nm, t == MISS, d == MISS, p == MISS, ref == MISS)
        if err:
            mon.fail(f'{nm}-raised', (err, t, d, p))
        elif (v == MISS) != (ref == MISS) or not close(v, ref):
            mon.fail(nm, f't={t} t2={t2} d={d} d2={d2} p={p} p2={p2} z={z} h={h}: {v!r} expected {ref!r}')
    alt = rng.choice([-9999, 9.99e20, -999.0])
    v, err = mon.run(gemcalc.virtual_temperature, rng.choice([alt, 10.0]), alt, 900.0, missing=alt)
    if err or v not in (alt, 283.15):
        mon.fail('other-missing-value', err or v)


def between(mon, rng):
    p1 = rng.uniform(2, 1080)
    p2 = rng.uniform(1, 1080)
    if abs(p1 - p2) < 0.01:
        return
    f = rng.uniform(1e-6, 1 - 1e-6)
    v = p1 ** (1 - f) * p2 ** f
    if not min(p1, p2) < v < max(p1, p2):
        return
    a, b = {'PRES': p1}, {'PRES': p2}
    for nm in rng.sample(['TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'], rng.randint(1, 5)):
        if nm == 'DRCT':
            a[nm] = m(rng, rng.choice([0.0, 360.0, 350.0, 10.0, 180.0, rng.uniform(0, 360)]))
            b[nm] = m(rng, rng.choice([0.0, 360.0, 5.0, 355.0, 190.0, rng.uniform(0, 360)]))
            if rng.random() < 0.2:
                a[nm] = rng.uniform(0, 360)
                b[nm] = (a[nm] + rng.choice([179.2, 179.7, 180.3, 180.8, 181.5])) % 360
            if MISS not in (a[nm], b[nm]) and close(abs(a[nm] - b[nm]) % 360, 180, 1e-6):
                b[nm] = a[nm]
        else:
            a[nm], b[nm] = m(rng, rng.uniform(-90, 3000)), m(rng, rng.uniform(-90, 3000))
    a0, b0 = dict(a), dict(b)
    out, err = mon.run(gemcalc.interp_parameters, v, a, b)
    mon.key('between', p1 > p2, tuple(sorted(k for k in a if a[k] == MISS or b[k] == MISS)))
    if err:
        mon.fail('interp_parameters-raised', (err, v, a, b))
        return
    if a != a0 or b != b0:
        mon.fail('interp_parameters-modified', (a0, a))
    if set(out) != set(a):
        mon.fail('interp_parameters-keys', (sorted(out), sorted(a)))
        return
    ff = thermo.frac(v, p1, p2)
    for nm in a:
        if nm == 'PRES':
            ok, ref = close(out[nm], v), v
        elif MISS in (a[nm], b[nm]):
            ok, ref = out[nm] == MISS, MISS
        elif nm == 'DRCT':
            ref = thermo.direction(a[nm], b[nm], ff)
            ok = 0 <= out[nm] < 360 and angle_close(out[nm], ref)
            mon.seen('wrapped', abs(a[nm] - b[nm]) > 180)
        else:
            ref = a[nm] + (b[nm] - a[nm]) * ff
            lo, hi = min(a[nm], b[nm]), max(a[nm], b[nm])
            ok = close(out[nm], ref) and lo - 1e-9 * abs(lo) <= out[nm] <= hi + 1e-9 * abs(hi)
        if not ok:
            mon.fail(f'interp_parameters-{nm}', f'{v} between {a0} and {b0}: {out[nm]!r} expected {ref!r}')
            return
    # pressures that have no logarithm are refused
    low = rng.choice([0.0, -5.0, -1e-9])
    pair = ({**a, 'PRES': low}, {**b, 'PRES': 500.0})
    if rng.random() < 0.5:
        pair = pair[::-1]
    _, err = mon.run(gemcalc.interp_parameters, rng.choice([100.0, 499.0]), *pair)
    if err is None or not isinstance(err.exc, ValueError):
        mon.fail('interp_parameters-nonpositive', (pair, err))
    # end points and values outside are refused
    _, err = mon.run(gemcalc.interp_parameters, rng.choice([max(p1, p2) * 1.01, min(p1, p2) * 0.99]), a, b)
    if err is None or not isinstance(err.exc, ValueError):
        mon.fail('interp_parameters-outside', err)


def profile(rng, n=None):
    n = n or rng.choice([1, 2, 3, 4, 6, 10, 25])
    special = [1000.0, 850.0, 500.0, 100.0, 100.0, 100.0, 100.1, 99.9, 50.0, 10.0]
    share = rng.choice([0, 0.2, 0.6])
    ps = sorted({rng.choice(special) if rng.random() < share else round(rng.uniform(5, 1050), 1) for _ in range(n)},
                reverse=True)
    z0 = rng.uniform(-50, 2000)
    s = {k: [] for k in ('PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED')}
    z, pp = z0, ps[0]
    for p in ps:
        z += 7500 * math.log(pp / p)
        pp = p
        t = temp(rng)
        s['PRES'].append(p)
        s['HGHT'].append(round(z, 3))
        s['TEMP'].append(t)
        s['DWPT'].append(t - rng.uniform(0, 20))
        s['DRCT'].append(float(rng.randrange(0, 361)))
        s['SPED'].append(float(rng.randint(0, 90)))
    return s


def blank(rng, s, names, rate, start=0):
    for k in range(start, len(s['PRES'])):
        if rng.random() < rate:
            for n in names:
                s[n][k] = MISS


def compare(mon, nm, s0, s, ref, skip=()):
    """ref: {(param, level): expected value}; anything else must be as before."""
    mon.seen('profiles')
    n = len(s0['PRES'])
    for par in s0:
        if len(s[par]) != n:
            mon.fail(f'{nm}-length', par)
            return
        for k in range(n):
            exp = ref.get((par, k), s0[par][k])
            got = s[par][k]
            if isinstance(exp, str):
                if got != exp:
                    mon.fail(f'{nm}-observed-text', (got, exp))
                continue
            if (par, k) in ref and exp != MISS:
                mon.seen('filled')
            ok = angle_close(got, exp) and (0 <= got < 360 or got == s0[par][k]) \
                if par == 'DRCT' and exp != MISS and got != MISS else (
                    (got == MISS) == (exp == MISS) and close(got, exp))
            if (par, k) not in ref and got != exp:
                ok = False
            if not ok:
                mon.fail(f'{nm}-{"filled" if (par, k) in ref else "observed"}-{par}',
                         f'level {k} of {n}: {got!r} expected {exp!r}; profile {s0}')
                return


def moist(mon, rng):
    s = profile(rng)
    n = len(s['PRES'])
    blank(rng, s, ['HGHT'], rng.choice([0.3, 0.7, 0.95]))
    blank(rng, s, ['DWPT'], rng.choice([0, 0.3]))
    if rng.random() < 0.3:
        for k in rng.choice([['TEMP', 'DWPT'], ['HGHT'], ['PRES', 'TEMP', 'DWPT', 'HGHT']]):
            s[k][0] = MISS
    s0 = {k: list(v) for k, v in s.items()}
    ref = thermo.moist_heights(s0)
    known = [k for k in range(n) if MISS not in (s0['PRES'][k], s0['TEMP'][k], s0['HGHT'][k])]
    _, err = mon.run(gemcalc.interp_moist_height, s, limit=200000)
    mon.key('moist', min(n, 4), len(known) if len(known) < 3 else 3, known[:1] == [0])
    if err:
        mon.fail('interp_moist_height-raised', (err, s0))
        return
    compare(mon, 'interp_moist_height', s0, s, ref)


def logp_height(mon, rng):
    s = profile(rng)
    n = len(s['PRES'])
    blank(rng, s, ['HGHT'], rng.choice([0.2, 0.6, 0.95]))
    blank(rng, s, ['TEMP', 'DWPT'], rng.choice([0, 0.3, 0.6]))
    blank(rng, s, ['DWPT'], rng.choice([0, 0.3]))
    if rng.random() < 0.2:
        for k in s:
            s[k][0] = MISS
    s0 = {k: list(v) for k, v in s.items()}
    ref = thermo.logp_heights(s0)
    known = [k for k in range(n) if MISS not in (s0['HGHT'][k], s0['PRES'][k])]
    top = known[-1] if known else -1
    _, err = mon.run(gemcalc.interp_logp_height, s, limit=200000)
    mon.key('logp_height', min(n, 4), min(len(known), 3), top == n - 1, bool(ref))
    if err:
        mon.fail('interp_logp_height-raised', (err, s0))
        return
    compare(mon, 'interp_logp_height', s0, s, ref)


def logp_pressure(mon, rng):
    s = profile(rng)
    n = len(s['PRES'])
    blank(rng, s, ['PRES'], rng.choice([0.2, 0.6]))
    blank(rng, s, ['HGHT'], rng.choice([0, 0.2]))
    s0 = {k: list(v) for k, v in s.items()}
    ref = thermo.logp_pressures(s0)
    known = [k for k in range(n) if MISS not in (s0['PRES'][k], s0['HGHT'][k])]
    _, err = mon.run(gemcalc.interp_logp_pressure, s, limit=200000)
    mon.key('logp_pressure', min(n, 4), min(len(known), 3), bool(ref))
    if err:
        mon.fail('interp_logp_pressure-raised', (err, s0))
        return
    compare(mon, 'interp_logp_pressure', s0, s, ref)


def missing_data(mon, rng):
    s = profile(rng)
    n = len(s['PRES'])
    blank(rng, s, ['TEMP', 'DWPT'], rng.choice([0.2, 0.6]))
    blank(rng, s, ['DRCT', 'SPED'], rng.choice([0.2, 0.6, 0.9]))
    blank(rng, s, ['DWPT'], rng.choice([0, 0.4]))
    if rng.random() < 0.2:
        for k in s:
            s[k][0] = MISS
    if rng.random() < 0.1:
        s['XTRA'] = ['text'] * n
    s0 = {k: list(v) for k, v in s.items()}
    P = s0['PRES']
    ref, amb = thermo.missing_values(s0)
    if amb:
        return
    _, err = mon.run(gemcalc.interp_missing_data, s, limit=200000)
    mon.key('missing_data', min(n, 4), bool(ref), P[0] == MISS)
    if err:
        mon.fail('interp_missing_data-raised', (err, s0))
        return
    compare(mon, 'interp_missing_data', s0, s, ref)
