"""Jobs that are run in a process of their own, under another environment (see C33).

usage: python -m vt.envjob PLAN   with PLAN a pickled dict
    jobs      pickled list of jobs (see run)
    order     indices into jobs, in the order to run them
    names     file name for each job
    dir       directory for the files
    settings  names of process-wide settings to change first
    shift     seconds the clock is moved, or None
    out       where to put the pickled results
"""
import os
import pickle
import random
import sys

SETTINGS = ['printoptions', 'decimal', 'seeds', 'gc', 'recursion', 'xarray', 'thread', 'umask', 'seterr-ignore', 'argv',
            'warnings-always']


class Plain:
    """Monitor stand-in that calls directly."""

    def run(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def must(self, _what, fn, *a, **k):
        return fn(*a, **k)


def run(job, path):
    """The result of one job; path: where its file is put."""
    try:
        return 'ok', _run(job, path)
    except Exception as e:
        return 'error', type(e).__name__


def _run(job, path):
    from vt import observe
    from vt.observe import canon
    if job['do'] == 'read':
        with open(path, 'wb') as f:
            f.write(job['data'])
        if job['kind'] == 'vgf':
            from gempakio import VectorGraphicFile
            r = VectorGraphicFile(path)
            return (r.to_json(), repr(r.bounds), list(r.groups), [canon(vars(e)) for e in r.elements])
        r = observe.CLS[job['kind']](path)
        out = observe.everything(r, job['kind'])
        out.append(canon(observe.inventory(r, job['kind'])))
        for meth, kw in job['queries']:
            try:
                out.append(canon(getattr(r, meth)(**kw)))
            except Exception as e:
                out.append(type(e).__name__)
        return out
    said = []
    if job['kind'] == 'vgf':
        from vt import vgw
        v = vgw.vgfile(Plain(), job['specs'])
        for k, name, value in job['refused']:
            try:
                setattr(v.elements[k], name, value)
                said.append('taken')
            except Exception as e:
                said.append(type(e).__name__)
        v.to_vgf(path)
    else:
        c = job['content']
        b = c.new(Plain())
        for op in c.ops:
            _res, err = c.add(Plain(), b, op)
            if err:
                raise err
        for op in job['refused']:
            _res, err = c.add(Plain(), b, op)
            said.append(type(err).__name__)
        b.to_gempak(path)
    with open(path, 'rb') as f:
        return [f.read(), *said]


def move_clock(shift):
    """Everything imported from here on sees a clock `shift` seconds off."""
    import datetime
    import time
    real, real_date, real_time = datetime.datetime, datetime.date, time.time
    delta = datetime.timedelta(seconds=shift)

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

    class MetaDate(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_date)

    class Datetime(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return real.now(tz) + delta

        @classmethod
        def utcnow(cls):
            return real.now(datetime.UTC).replace(tzinfo=None) + delta

        @classmethod
        def today(cls):
            return real.now() + delta

        def __reduce_ex__(self, n):
            return real.fromisoformat, (self.isoformat(),)

    class Date(real_date, metaclass=MetaDate):
        @classmethod
        def today(cls):
            return (real.now() + delta).date()

        def __reduce_ex__(self, n):
            return real_date.fromisoformat, (self.isoformat(),)
    datetime.datetime, datetime.date = Datetime, Date
    time.time = lambda: real_time() + shift
    gm, lo = time.gmtime, time.localtime
    time.gmtime = lambda s=None: gm(time.time() if s is None else s)
    time.localtime = lambda s=None: lo(time.time() if s is None else s)
    return real, real_date


def change(names):
    import decimal
    import gc
    import warnings
    import numpy as np
    import xarray as xr
    for s in names:
        if s == 'printoptions':
            np.set_printoptions(precision=1, threshold=2, suppress=True, floatmode='fixed')
        elif s == 'decimal':
            decimal.getcontext().prec = 2
            decimal.getcontext().rounding = decimal.ROUND_UP
        elif s == 'seeds':
            random.seed(5)
            np.random.seed(99)
        elif s == 'gc':
            gc.disable()
        elif s == 'recursion':
            sys.setrecursionlimit(5000)
        elif s == 'xarray':
            xr.set_options(keep_attrs=False, display_width=20)
        elif s == 'umask':
            os.umask(0o077)
        elif s == 'seterr-ignore':
            np.seterr(all='ignore')
        elif s == 'argv':
            sys.argv = ['x', '--help']
        elif s == 'warnings-always':
            warnings.simplefilter('always')


def main():
    with open(sys.argv[1], 'rb') as f:
        plan = pickle.load(f)
    import numpy  # noqa: F401
    import pyproj  # noqa: F401
    import xarray  # noqa: F401
    import datetime
    real = None
    if plan['shift'] is not None:
        real = move_clock(plan['shift'])
    from vt import core
    core.import_target()
    if real:  # only the package itself sees the other clock
        datetime.datetime, datetime.date = real
    jobs = pickle.loads(plan['jobs'])
    change(plan['settings'])
    results = {}

    def body():
        for k in plan['order']:
            results[k] = run(jobs[k], os.path.join(plan['dir'], plan['names'][k]))
    if 'thread' in plan['settings']:
        import threading
        t = threading.Thread(target=body)
        t.start()
        t.join()
    else:
        body()
    with open(plan['out'], 'wb') as f:
        pickle.dump(results, f)


if __name__ == '__main__':
    main()
