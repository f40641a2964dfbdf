"""Common machinery: case runner, monitor, step budget, verdicts, evidence.

A check module provides
    ID, LEVEL, RULE, ASSUMPTIONS (list), QUICK, THOROUGH (numbers of cases)
    case(mon, rng, i, tier)      run one case, report to the monitor
    REQUIRE                      {counter: minimum} - below it the run is inconclusive
    fixed_cases() (optional)     number of leading cases that are enumerated, not random
Every random choice derives from (seed, property id, case index).
"""
import argparse
import collections
import faulthandler
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pathlib
import random
import re
import shutil
import sys
import tempfile
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
SRC = str(REPO / 'src')

warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)


# a case takes a second or two; one still running after HANG seconds has its
# stack recorded, and HANG seconds later it is reported as not terminating
HANG = 150


class StepLimit(BaseException):
    """The code under test executed more loop iterations than any correct run needs."""


class _Steps:
    """Deterministic step budget: counts jumps executed inside the code under test."""

    def __init__(self):
        self.count = 0
        self.limit = None
        self.total = 0
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, 'vt-steps')
        mon.register_callback(self.tool, mon.events.JUMP, self._jump)
        mon.set_events(self.tool, mon.events.JUMP)

    def _jump(self, code, offset, dest):
        if not code.co_filename.startswith(SRC):
            return sys.monitoring.DISABLE
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            self.limit = None
            raise StepLimit()

    def start(self, limit):
        self.count = 0
        self.limit = limit

    def stop(self):
        self.total += self.count
        self.limit = None


STEPS = None


def steps():
    global STEPS
    if STEPS is None:
        STEPS = _Steps()
    return STEPS


def import_target():
    """Import the code under test from the repository's working tree."""
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import gempakio
    if not os.path.abspath(gempakio.__file__).startswith(SRC):
        raise RuntimeError(f'wrong gempakio: {gempakio.__file__}')
    return gempakio


class LibError:
    """An exception that escaped from the code under test."""

    def __init__(self, exc, where):
        self.exc = exc
        self.where = where

    def __repr__(self):
        return f'{type(self.exc).__name__}: {str(self.exc)[:200]} @ {self.where}'


class Mon:
    """Observes one case."""

    STEP_LIMIT = 30_000_000

    def __init__(self, seed, index, tmp):
        self.seed, self.index, self.tmp = seed, index, tmp
        self.counts = collections.Counter()
        self.violations = []
        self.keys = set()
        self.sample = None
        self.trace = []
        self._n = 0

    def seen(self, name, n=1):
        self.counts[name] += int(n)

    def key(self, *parts):
        """Declare the (non-trivial) situation this case exercised."""
        self.keys.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def fail(self, kind, detail=''):
        if len(self.violations) < 8:
            self.violations.append({'kind': kind, 'detail': str(detail)[:1500]})

    def path(self, suffix='.gem'):
        self._n += 1
        return os.path.join(self.tmp, f'c{self.index}_{self._n}{suffix}')

    def put(self, data, suffix='.gem'):
        p = self.path(suffix)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def run(self, fn, *a, limit=None, **k):
        """Call the code under test: (result, None) or (None, LibError)."""
        st = steps()
        st.start(limit or self.STEP_LIMIT)
        try:
            return fn(*a, **k), None
        except StepLimit:
            self.fail('does-not-terminate', f'{getattr(fn, "__name__", fn)}: step budget exceeded')
            return None, LibError(RuntimeError('step budget'), 'budget')
        except RecursionError as e:
            return None, LibError(e, 'recursion')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb
                     if f.filename.startswith(SRC)]
            own = [f for f in tb if f.filename.startswith(str(VERIF))]
            if not where and len(own) > 1 and tb[-1] is own[-1]:
                raise  # raised by harness code inside fn
            return None, LibError(e, where[-1] if where else 'call')
        finally:
            self.seen('target_calls')
            st.stop()

    def must(self, what, fn, *a, **k):
        """Call that has to succeed; reports a violation and returns None otherwise."""
        res, err = self.run(fn, *a, **k)
        if err is not None:
            self.fail(f'{what}-raised', err)
            return None
        return res


def rng_for(seed, prop, index):
    h = hashlib.sha256(f'{seed}/{prop}/{index}'.encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


_MOD = None
_ARGS = None


def _init(modname, args):
    global _MOD, _ARGS
    _MOD = importlib.import_module(modname)
    _ARGS = args


def _one(index):
    seed, tier, tmp = _ARGS
    mon = Mon(seed, index, tmp)
    rng = rng_for(seed, _MOD.ID, index)
    t0 = time.time()
    err = None
    hang = open(os.path.join(tmp, f'hang-{index}'), 'w')
    faulthandler.dump_traceback_later(HANG, file=hang)
    try:
        _MOD.case(mon, rng, index, tier)
    except (OSError, MemoryError):
        err = traceback.format_exc()[-3000:]
    except Exception:
        # the oracles walk over what the code under test returned: an answer of
        # a shape they cannot walk over is not the answer the property describes
        mon.fail('answer-not-understood', traceback.format_exc()[-1200:])
    finally:
        faulthandler.cancel_dump_traceback_later()
        hang.close()
        os.unlink(hang.name)
    for f in pathlib.Path(tmp).glob(f'c{index}_*'):
        try:
            f.unlink()
        except OSError:
            pass
    return (index, dict(mon.counts), mon.violations, list(mon.keys), mon.sample, err,
            time.time() - t0)


def hung(tmp):
    """Case that has been inside the code under test for far too long, if any."""
    for f in pathlib.Path(tmp).glob('hang-*'):
        try:
            text = f.read_text()
            old = time.time() - f.stat().st_mtime > HANG
        except OSError:
            continue
        if old and SRC in text.split('vt/core.py')[0]:
            return int(f.name[5:]), text
    return None


def _chunk(indices):
    return [_one(k) for k in indices]


def load_known(prop):
    """known_findings.txt -> {kind regex: description} for this property."""
    out = []
    f = VERIF / 'known_findings.txt'
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r'known: property=(\w+) kind=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--cases', type=int)
    a = ap.parse_args(argv)
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    prop = a.prop.upper()
    t0 = time.time()
    import_target()
    modname = f'vt.checks.{prop.lower()}'
    mod = importlib.import_module(modname)
    only = None
    if a.replay:
        r = json.loads(pathlib.Path(a.replay).read_text())
        seed, tier, only = r['seed'], r['tier'], r['index']
    if a.case is not None:
        only = a.case
    n = a.cases or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    shm = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    tmp = tempfile.mkdtemp(prefix=f'vt_{prop}_', dir=shm)
    try:
        return _run(mod, modname, prop, seed, tier, n, only, a.jobs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(mod, modname, prop, seed, tier, n, only, jobs, tmp, t0):
    counts = collections.Counter()
    keys = set()
    samples = []
    viol = []
    errors = []
    done = 0
    slow = 0.0
    known = load_known(prop)
    found, stopped = [], []
    if only is not None:
        _init(modname, (seed, tier, tmp))
        results = [_one(only)]
        n = 1
    else:
        ctx = multiprocessing.get_context('fork')
        deadline = 840 if tier == 'quick' else 3600
        pool = ctx.Pool(jobs, _init, (modname, (seed, tier, tmp)),
                        maxtasksperchild=None)
        size = max(1, min(16, n // (jobs * 8) or 1))
        results = pool.imap_unordered(_chunk, [range(k, min(k + size, n))
                                               for k in range(0, n, size)])

        def watch(it):
            while True:
                if found and time.time() - found[0] > 45:
                    stopped.append(True)  # the verdict is settled, and some defects make every case slow
                    break
                left = deadline - (time.time() - t0)
                if left <= 0:
                    errors.append('watchdog: wall-clock limit reached (inconclusive)')
                    break
                stuck = hung(tmp)
                if stuck:
                    yield (stuck[0], {}, [{'kind': 'does-not-terminate', 'detail': stuck[1]}],
                           [], None, None, 2 * HANG)
                    break
                try:
                    yield from it.next(timeout=min(left, 10))
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    continue
            pool.terminate()
        results = watch(results)
    by_sample = {}
    for index, c, v, k, s, err, dt in results:
        done += 1
        slow = max(slow, dt)
        counts.update(c)
        keys.update(k)
        if s is not None:
            by_sample[index] = s
        if err:
            errors.append(f'case {index}: {err}')
        for x in v:
            viol.append((index, x))
            if not found and not any(re.fullmatch(kre, x['kind']) for kre, _d in known):
                found.append(time.time())
    samples = [{'case': i, 'input': by_sample[i]} for i in sorted(by_sample)[:4]]
    viol.sort(key=lambda t: (t[0], t[1]['kind']))
    fresh = []
    matched = collections.Counter()
    for index, x in viol:
        hit = next((d for kre, d in known if re.fullmatch(kre, x['kind'])), None)
        if hit is None:
            fresh.append((index, x))
        else:
            matched[hit] += 1
    for _kre, d in known:
        print(f'KNOWN-FINDING: property={prop} {d}' )
    status = 0
    if fresh:
        rep = VERIF / 'replays'
        rep.mkdir(exist_ok=True)
        shown = set()
        for index, x in fresh:
            if x['kind'] in shown or len(shown) >= 5:
                continue
            shown.add(x['kind'])
            p = rep / f'{prop}-{seed}-{index}.json'
            p.write_text(json.dumps({'property': prop, 'seed': seed, 'tier': tier,
                                     'index': index, **x}, indent=1))
            print(f'VIOLATION property={prop} replay={p}')
            print(f'  kind={x["kind"]} case={index}: {x["detail"][:700]}')
        print(f'  replay with: /opt/venv/bin/python -m vt {prop} --replay <file>')
        status = 1
    elif errors:
        status = 3
    if errors:
        print(f'{len(errors)} harness errors / inconclusive; first:\n{errors[0]}', file=sys.stderr)
    lack = {}
    if only is None:
        for name, least in getattr(mod, 'REQUIRE', {}).items():
            if counts.get(name, 0) < least:
                lack[name] = counts.get(name, 0)
        if lack and not fresh:
            print(f'INCONCLUSIVE property={prop}: monitor not reached {lack}')
            status = 4
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
            'coverage': {
                'evaluations': done, 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
                'samples': samples, 'observed': dict(sorted(counts.items())),
                'known_findings_hit': dict(matched), 'slowest_case_s': round(slow, 3),
                'harness_errors': len(errors), 'monitors_not_reached': lack,
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
        }
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{prop}.json').write_text(
            json.dumps(ev, indent=1, default=repr) + '\n')
    print(f'{prop}: {done} cases, {len(keys)} distinct, {len(fresh)} violations, '
          f'{time.time() - t0:.1f}s, status {status}')
    if os.environ.get('VT_COUNTS'):
        print(json.dumps(dict(sorted(counts.items())), indent=0))
        kinds = collections.Counter(x['kind'] for _, x in fresh)
        print('kinds:', dict(kinds))
    return status
