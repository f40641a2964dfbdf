"""C33: results depend on the input alone, not on the process that computes them."""
import datetime as dt
import os
import pickle
import random
import shutil
import subprocess
import sys
from vt import build, core, envjob, vgw, world
from vt.checks import c08, c20

ID = 'C33'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: the same recorded jobs replayed in separate interpreter processes under different environments, '
             'every result compared with that of the reference process')
QUICK, THOROUGH = 64, 1000
RULE = ('each case prepares 24 jobs (read and query a file, build and write one), runs them in this process and again in three '
        'interpreter processes with other hash seeds, time zones, locales, clocks, working directories, optimization levels, '
        'process-wide settings, file names and orders, and compares every result; key = (job, what differed)')
ASSUMPTIONS = ['only the C and UTF-8 locales are installed', 'the clock is moved by replacing what the package imports from datetime '
               'and time']
REQUIRE = {'jobs': 1000, 'compared': 3000, 'processes': 150, 'hash_seeds': 100, 'zones': 100, 'clocks': 60, 'optimized': 30}

ZONES = ['UTC', 'Pacific/Kiritimati', 'America/St_Johns', 'Asia/Kathmandu', 'XYZ+11:30', 'AAA-13', 'America/Chicago', 'Europe/London']
NAMES = ['x{}', 'x{}.gem', '.hidden{}', 'a b {}.dat', '{}.2020010112', 'x{}.sfc', 'x{}.grd', 'x{}.vgf', 'x{}.gz', 'L' * 200 + '{}',
         '{}_metar', 'ship{}_unmerged.snd', 'r\u00e9sum\u00e9{}']


def queries(rng, w):
    out = []
    es = w.entries
    for _ in range(4):
        some = rng.sample(es, min(len(es), 3))
        kw = {}
        if w.kind == 'grid':
            for k, j in (('parameter', 3), ('date_time', 1), ('level', 4), ('coordinate', 6)):
                if rng.random() < 0.4:
                    kw[k] = [e.info[j] for e in some]
            out.append(('gdxarray', kw))
            continue
        for k, j in (('station_id', 1), ('state', 6), ('country', 7), ('date_time', 0)):
            if rng.random() < 0.35:
                kw[k] = [e.info[j] for e in some]
        out.append(('sfjson' if w.kind == 'sfc' else 'snxarray', kw))
    if w.kind == 'sfc':
        for t in near_times(rng, w):
            k, j = rng.choice([('station_id', 1), ('state', 6), ('country', 7)])
            out.append(('nearest_time', {'date_time': t, k: [e.info[j] for e in rng.sample(es, min(len(es), 3))]}))
        out.append(('nearest_time', {'date_time': es[0].info[0], 'bbox': (-180, 180, -90, 90)}))
    out.append((out[0][0], rng.choice([{'date_time': 'nonsense'}, {'date_time': '20201'}, {'date_time': 5.5}])))
    return out


def near_times(rng, w):
    """Moments between the reports of one station."""
    by = {}
    for e in w.entries:
        by.setdefault(e.info[1], []).append(e.info[0])
    out = []
    for ts in sorted(by.values(), key=len)[-3:]:
        ts = sorted(ts)
        for a, b in zip(ts, ts[1:]):
            out.append(a + (b - a) * rng.choice([0.2, 0.4, 0.6, 0.8]))
    out = [t.replace(microsecond=0) for t in out]
    return rng.sample(out, min(len(out), 4)) or [w.entries[0].info[0] + dt.timedelta(minutes=rng.randint(-90, 90))]


def job(rng, what):
    if what == 'w-vgf':
        specs = [vgw.spec(rng) for _ in range(rng.randint(1, 8))]
        refused = []
        for k in range(len(specs)):
            for name, rule in vgw.RULES[specs[k][0]].items():
                if rule[1]:
                    refused.append((k, name, rng.choice(rule[1])))
        rng.shuffle(refused)
        return {'do': 'write', 'kind': 'vgf', 'specs': specs, 'refused': refused}
    if what.startswith('w-'):
        c = build.Content(rng, what[2:])
        refused = []
        if c.ops:
            for _ in range(8):
                bad = (c08.bad_grid if what == 'w-grid' else c08.bad_station)(rng, rng.choice(c.ops), c)
                refused.append(bad[rng.choice(sorted(bad))])
        return {'do': 'write', 'kind': what[2:], 'content': c, 'refused': refused}
    if what == 'vgf':
        return {'do': 'read', 'kind': 'vgf', 'data': b''.join(r.data for r in c20.sequence(rng, rng.choice([4, 10])))}
    cut = what == 'cut'
    w = world.make(rng, rng.choice(['grid', 'snd', 'raob', 'sfc']) if cut else what)
    data = w.spec.build(rng.random() < 0.3)
    if cut:
        data = data[:rng.randrange(len(data))]
    return {'do': 'read', 'kind': w.kind, 'data': data, 'queries': queries(rng, w),
            'near': [k['date_time'] for m, k in queries(rng, w) if m == 'nearest_time']}


def yday(t):
    return t.replace(year=2001).timetuple().tm_yday if (t.month, t.day) != (2, 29) else 59


def surroundings(rng, jobs):
    """(environment, interpreter options, settings, clock shift)"""
    env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'TZ', 'PYTHONHASHSEED'))}
    env['PYTHONPATH'] = str(core.VERIF)
    env.pop('PYTHONDONTWRITEBYTECODE', None)  # libraries are compiled once per run, the package every time
    env['PYTHONHASHSEED'] = str(rng.choice([1, 2, 3, rng.randrange(2 ** 32)]))
    env['TZ'] = rng.choice(ZONES)
    near = [t for j in jobs for t in j.get('near', [])]
    if near and rng.random() < 0.6:  # the clocks change at a moment that matters in one of the files
        t, u = rng.choice(near), rng.choice(near)
        env['TZ'] = (f'AAA{rng.randint(-9, 9)}BBB{rng.choice([-13, -6, 5, 12])},J{yday(t)}/{t.hour}:{t.minute:02d},'
                     f'J{yday(u) if yday(u) != yday(t) else yday(t) % 365 + 1}/{u.hour}')
    loc = rng.choice(['C', 'POSIX', 'C.UTF-8', None])
    if loc:
        env['LC_ALL'] = loc
    if rng.random() < 0.3:
        env['PYTHONIOENCODING'] = rng.choice(['ascii', 'latin-1'])
    for k in ('HOME', 'USER', 'LOGNAME', 'TERM', 'SHELL'):
        if rng.random() < 0.3:
            env.pop(k, None)
    opts = rng.choice([[], ['-O'], ['-OO'], ['-X', 'dev'], ['-X', 'utf8=0'], ['-X', 'utf8=1'], ['-O', '-X', 'utf8=0']])
    settings = rng.sample(envjob.SETTINGS, rng.choice([0, 2, 4, 8]))
    shift = rng.choice([None, 86400 * 365 * 20, -86400 * 365 * 30, 86400 * 200, -86400 * 45, 3600 * 11, 86400 * 16])
    return env, opts, settings, shift


def case(mon, rng, i, tier):
    kinds = ['grid', 'snd', 'raob', 'sfc', 'vgf', 'w-grid', 'w-snd', 'w-sfc', 'w-vgf', 'sfc', 'cut']
    whats = kinds * 2 + ['sfc', 'grid']
    jobs = [job(random.Random(rng.getrandbits(60)), k) for k in whats]
    packed = pickle.dumps(jobs)
    jobs = pickle.loads(packed)
    want = []
    for k, j in zip(whats, jobs):
        res, err = mon.run(envjob.run, j, mon.path('.ref'))
        if err or res[0] != 'ok' and k not in ('cut', 'w-vgf'):
            mon.fail('reference-raised', f'{k}: {err or res}')
            return
        want.append(res)
        mon.seen('jobs')
    for n in range(3):
        env, opts, settings, shift = surroundings(rng, jobs)
        env['PYTHONPYCACHEPREFIX'] = os.path.join(mon.tmp, 'pyc')
        home = mon.path('.d')
        os.mkdir(home)
        names = [rng.choice(NAMES[:-1] if 'utf8=0' in opts else NAMES).format(k) for k in range(len(jobs))]
        order = list(range(len(jobs)))
        if n:
            rng.shuffle(order)
        plan = {'jobs': packed, 'order': order, 'names': names, 'dir': home, 'settings': settings, 'shift': shift,
                'out': home + '/results'}
        with open(home + '/plan', 'wb') as f:
            pickle.dump(plan, f)
        what = {'opts': opts, 'settings': settings, 'shift': shift,
                **{k: env.get(k) for k in ('PYTHONHASHSEED', 'TZ', 'LC_ALL', 'PYTHONIOENCODING')}}
        try:
            p = subprocess.run([sys.executable, *opts, '-m', 'vt.envjob', home + '/plan'], env=env, capture_output=True, text=True,
                               timeout=240, cwd=rng.choice([home, '/', str(core.VERIF)]), errors='replace')
            try:
                with open(plan['out'], 'rb') as f:
                    got = pickle.load(f)
            except OSError:
                if core.SRC not in p.stderr:
                    raise OSError(p.stderr[-1500:]) from None
                mon.fail('process-failed', f'{what}: {p.stderr[-800:]}')
                return
        except subprocess.TimeoutExpired:
            mon.fail('does-not-terminate', what)
            return
        finally:
            shutil.rmtree(home, ignore_errors=True)
        mon.seen('processes')
        mon.seen('hash_seeds')
        mon.seen('zones', env['TZ'] != 'UTC')
        mon.seen('clocks', shift is not None)
        mon.seen('optimized', '-O' in opts or '-OO' in opts)
        mon.sample = {'jobs': len(jobs), 'surroundings': what}
        for k, a in enumerate(want):
            mon.seen('compared')
            mon.key(whats[k], tuple(opts), env['TZ'], env.get('LC_ALL'), bool(shift), tuple(sorted(settings))[:2])
            if got[k] != a:
                mon.fail(f'{whats[k]}-differs', f'{what} file name {names[k]!r} position {order.index(k)}: {differs(got[k], a)}')


def differs(a, b, where=''):
    """The innermost place where two results differ."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differs(x, y, f'{where}[{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) and len(x[0]) < 30 else k}]')
    if isinstance(a, bytes) and isinstance(b, bytes):
        n = next((n for n, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f'{where} byte {n} of {len(a)}/{len(b)}: {a[n:n + 8]!r} here {b[n:n + 8]!r}'
    if isinstance(a, str) and isinstance(b, str):
        n = next((n for n, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f'{where} character {n} of {len(a)}/{len(b)}: {a[max(0, n - 40):n + 60]!r} here {b[max(0, n - 40):n + 60]!r}'
    return f'{where}: {str(a)[:300]} here {str(b)[:300]}'
