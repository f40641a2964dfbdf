"""C27: reading and writing touch nothing but the file they are given."""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import pathlib
import random
import shutil
import signal
import sys
import threading
import warnings
import numpy as np
import pyproj
import xarray as xr
from gempakio import VectorGraphicFile
from gempakio.encode import vgf as ev
from vt import build, observe, vgw, world
from vt.checks import c20

ID = 'C27'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: interpreter audit events, open descriptors, directory contents and process state '
             'recorded around every call of generated read/write workloads')
QUICK, THOROUGH = 3500, 60000
RULE = ('each case opens and queries a generated file, or builds and writes one, through a str, Path or relative path, '
        'over an absent, longer or shorter file, with a working or a failing operation, while an audit hook and '
        'before/after snapshots record file opens, processes, sockets, descriptors, directory contents, output and '
        'process-wide settings; key = (class, operation, path form, prior file, outcome)')
ASSUMPTIONS = ['code loaded lazily on first use of a library is not an effect (each worker warms up first)',
               'work files are fine if they are gone when the call returns']
REQUIRE = {'calls_watched': 8000, 'opens_seen': 2500, 'failed_calls': 300, 'after_removal': 600, 'writes': 1200,
           'longer_before': 250, 'written_before': 200, 'successors': 150}

EVENTS = ('subprocess.', 'socket.', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.spawn', 'os.kill',
          'os.putenv', 'os.unsetenv', 'os.chdir', 'os.fchdir', 'os.chmod', 'os.chown', 'ftplib.', 'urllib.',
          'http.', 'webbrowser.', '_thread.start_new', 'signal.', 'shutil.rmtree', 'os.rmdir')
LOG = None
HOOKED = False


def hook(event, args):
    if LOG is None:
        return
    if event == 'open':
        LOG.append(('open', args[0], args[1], args[2]))
    elif event in ('os.remove', 'os.rename', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink'):
        LOG.append((event, args[0], None, None))
    elif event.startswith(EVENTS):
        LOG.append((event, str(args)[:100], None, None))


def state():
    mask = os.umask(0)
    os.umask(mask)
    return {
        'cwd': os.getcwd(), 'umask': mask, 'environ': dict(os.environ), 'np.geterr': np.geterr(),
        'np.printoptions': repr(np.get_printoptions()), 'random': random.getstate(),
        'np.random': repr(np.random.get_state()), 'warnings': list(warnings.filters),
        'decimal': repr(decimal.getcontext()), 'locale': locale.setlocale(locale.LC_ALL),
        'recursion': sys.getrecursionlimit(), 'switch': sys.getswitchinterval(), 'path': list(sys.path),
        'signals': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)],
        'threads': threading.active_count(), 'gc': (gc.isenabled(), gc.get_threshold()),
        'logging': (logging.root.level, logging.root.manager.disable, len(logging.root.handlers)),
        'xarray': {k: v for k, v in xr.get_options().items()}, 'stdio': (sys.stdin, sys.stdout, sys.stderr),
        'trace': (sys.gettrace(), sys.getprofile()), 'excepthook': sys.excepthook,
        'proj': (pyproj.datadir.get_data_dir(), pyproj.network.is_network_enabled())}


def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            out[int(n)] = os.readlink(f'/proc/self/fd/{n}')
    return {k: v for k, v in out.items() if not v.startswith('/proc/')}


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files:
            p = os.path.join(root, f)
            s = os.lstat(p)
            data = None
            if os.path.isfile(p):
                with open(p, 'rb') as h:
                    data = h.read()
            out[os.path.relpath(p, d)] = (s.st_mode, s.st_mtime_ns if data is not None else 0, s.st_ino, data)
    return out


class Watch:
    """Calls into the code under test with everything observable recorded."""

    def __init__(self, mon, rng, home):
        self.mon, self.rng, self.home = mon, rng, home

    def __call__(self, what, fn, *a, reads=None, writes=None, **k):
        """(result, error); reads/writes: the one file the call may read/write"""
        global LOG
        mon = self.mon
        s0, f0, t0 = state(), fds(), tree(self.home)
        out, errout = io.StringIO(), io.StringIO()
        LOG = log = []
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(errout):
                res, err = mon.run(fn, *a, **k)
        finally:
            LOG = None
        f1, t1, s1 = fds(), tree(self.home), state()
        mon.seen('calls_watched')
        mon.seen('failed_calls', err is not None)
        for key, v in s0.items():
            if s1[key] != v:
                mon.fail('process-state', f'{what}: {key} changed from {str(v)[:150]} to {str(s1[key])[:150]}')
        if out.getvalue() or errout.getvalue():
            mon.fail('output', f'{what}: printed {(out.getvalue() + errout.getvalue())[:200]!r}')
        new = {n: p for n, p in f1.items() if f0.get(n) != p}
        if new:
            mon.fail('descriptor-left-open', f'{what}: {new} (error: {err})')
            for n in new:
                with contextlib.suppress(OSError):
                    os.close(n)
        changed = sorted(n for n in set(t0) | set(t1) if t0.get(n) != t1.get(n))
        allowed = {os.path.relpath(writes, self.home)} if writes else set()
        if set(changed) - allowed:
            mon.fail('other-files-changed', f'{what}: {changed}, allowed {sorted(allowed)}')
        for ev_, name, mode, flags in log:
            if ev_ != 'open':
                if ev_.startswith(('os.remove', 'os.rename', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink')):
                    continue  # judged by what is left behind
                mon.fail('event', f'{what}: {ev_} {name}')
                continue
            mon.seen('opens_seen')
            if isinstance(name, int):
                continue
            full = os.path.realpath(os.path.join(s0['cwd'], os.fsdecode(name)))
            writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) if isinstance(flags, int) \
                else any(c in (mode or 'r') for c in 'wax+')
            inside = full.startswith(os.path.realpath(self.home) + os.sep)
            if writing and not (writes and (inside or full.startswith('/tmp/'))):
                mon.fail('opened-for-writing', f'{what}: {full} mode {mode}')
            elif not writing and inside and full not in {os.path.realpath(p) for p in (reads, writes) if p}:
                mon.fail('other-file-read', f'{what}: {full}')
        return res, err


def spelled(rng, p):
    """(path argument, tag)"""
    k = rng.choice(['str', 'Path', 'rel', 'relPath'])
    if k == 'str':
        return p, k
    if k == 'Path':
        return pathlib.Path(p), k
    r = os.path.relpath(p)
    return (r if k == 'rel' else pathlib.Path(r)), k


def case(mon, rng, i, tier):
    global HOOKED
    if not HOOKED:
        HOOKED = True
        sys.addaudithook(hook)
        first = state()
        for k in range(10):  # lazily imported parts of the libraries
            warm = type(mon)(0, -1 - k, mon.tmp)
            with contextlib.suppress(Exception):
                one(warm, random.Random(k), k)
        for key, v in state().items():  # a setting changed once and for all shows here only
            if v != first[key]:
                mon.fail('process-state', f'first calls: {key} changed from {str(first[key])[:150]} to {str(v)[:150]}')
    one(mon, rng, i)


def one(mon, rng, i):
    home = mon.path('.d')
    os.mkdir(home)
    here = os.getcwd()
    try:
        os.mkdir(os.path.join(home, 'sub'))
        with open(os.path.join(home, 'bystander.grd'), 'wb') as f:
            f.write(b'bystander')
        os.chdir(os.path.join(home, 'sub'))
        (read_case if i % 2 else write_case)(mon, rng, i // 2, home)
    finally:
        os.chdir(here)
        shutil.rmtree(home, ignore_errors=True)


def read_case(mon, rng, i, home):
    kind = ['grid', 'snd', 'raob', 'sfc', 'vgf'][i % 5]
    if kind == 'vgf':
        data, ext, cls = b''.join(r.data for r in c20.sequence(rng, rng.choice([1, 4]))), '.vgf', VectorGraphicFile
    else:
        w = world.make(rng, kind)
        data, ext, cls = w.spec.build(rng.random() < 0.3), w.ext, observe.CLS[kind]
    p = os.path.join(home, rng.choice(['in', 'a b', 'sub/x', 'naïve']) + ext)
    how = rng.choice(['good', 'good', 'good', 'cut', 'junk', 'absent', 'directory', 'empty'])
    if how == 'directory':
        os.mkdir(p)
    elif how != 'absent':
        with open(p, 'wb') as f:
            f.write({'good': data, 'cut': data[:rng.randrange(len(data))], 'empty': b'',
                     'junk': bytes(rng.randrange(256) for _ in range(300))}[how])
    see = Watch(mon, rng, home)
    arg, form = spelled(rng, p)
    r, err = see(f'open {kind} {how}', cls, arg, reads=p)
    mon.key('read', kind, how, form, err is None)
    mon.sample = {'read': kind, 'file': how, 'path': form, 'bytes': len(data)}
    if err and how == 'good':
        mon.fail('open-raised', f'{kind} {form}: {err}')
        return
    if err is None and how in ('absent', 'directory'):
        mon.fail('opened-nothing', f'{kind} {how}')
        return
    if err and how in ('absent', 'directory') and not isinstance(err.exc, OSError):
        mon.fail('wrong-error', f'{kind} {how}: {err}')
    if err or how != 'good':
        return

    def ask(label):
        out = []
        if kind == 'vgf':
            ops = [('json', r.to_json), ('bounds', lambda: r.bounds), ('lines', r.get_lines),
                   ('elements', lambda: [vars(e) for e in r.elements])]
        else:
            ops = [('everything', lambda: observe.everything(r, kind)),
                   ('fails', lambda: observe.query(r, kind, date_time='190001010000'))]
            if kind == 'sfc':
                ops.append(('nearest', lambda: r.nearest_time('202001010000', station_id=r.sfinfo()[0].ID)))
            if kind == 'grid':
                ops.append(('project', lambda: r.project_point(10., 20.)))
        for nm, op in ops:
            res, e = see(f'{kind} {nm} {label}', op)
            out.append(('raised', type(e.exc).__name__) if e else observe.canon(res))
        return out
    first = ask('')
    s = rng.choice(['removed', 'replaced', 'cut'])
    if s == 'removed':
        os.remove(p)
    else:
        with open(p, 'r+b') as f:
            f.write(bytes(len(data) // 2)) if s == 'replaced' else f.truncate(len(data) // 3)
    mon.seen('after_removal')
    if ask(f'after the file was {s}') != first:
        mon.fail('depends-on-later-file', f'{kind} {form}: answers changed after the file was {s}')
    if rng.random() < 0.6:
        successor(mon, rng, kind, cls, ext, data, p, arg, home)


def successor(mon, rng, kind, cls, ext, data, p, arg, home):
    """Another file of the same name, length and times is another file."""
    if kind == 'vgf':
        at, _ = c20.frames(data)
        recs = [data[a:b] for a, b in zip(at, at[1:] + [len(data)])]
        other = b''.join(recs[::-1])
    else:
        for _ in range(5):
            w = world.make(rng, kind)
            other = w.spec.build(rng.random() < 0.3)
            if len(other) <= len(data):
                break
        else:
            return
        other += bytes(len(data) - len(other))
    if len(other) != len(data) or other == data:
        return
    times = (1500000000, 1500000000)
    with open(p, 'wb') as f:
        f.write(data)
    os.utime(p, times)
    _, err = mon.run(lambda: shape(kind, cls(arg)))
    ref = os.path.join(home, 'fresh' + ext)
    for q in (p, ref):
        with open(q, 'r+b' if q == p else 'wb') as f:
            f.write(other)
        os.utime(q, times)
    res, err2 = mon.run(lambda: shape(kind, cls(ref)))
    got, err3 = mon.run(lambda: shape(kind, cls(arg)))
    mon.seen('successors')
    if err or bool(err2) != bool(err3) or res != got:
        mon.fail('answers-for-an-earlier-file', f'{kind}: {err} {err2} {err3}: a file replaced by another of the same '
                 f'length and times was read as {str(got)[:200]}, elsewhere as {str(res)[:200]}')


def shape(kind, r):
    if kind == 'vgf':
        return observe.canon([r.to_json(), [vars(e) for e in r.elements]])
    return observe.everything(r, kind)


def write_case(mon, rng, i, home):
    kind = ['grid', 'snd', 'sfc', 'vgf'][i % 4]
    see = Watch(mon, rng, home)
    if kind == 'vgf':
        specs = [vgw.spec(rng) for _ in range(rng.randint(1, 5))]
        b = vgw.vgfile(mon, specs)
        if b is None:
            return
        save, ext = b.to_vgf, '.vgf'
        ref, err = vgw.write(mon, b)
    else:
        c = build.Content(rng, kind)
        b, _ = see(f'{kind} new', c.new, mon)
        if b is None:
            return
        for op in c.ops:
            _, err = see(f'{kind} add', c.add, mon, b, op)
            err = err or _[1]
            if err:
                mon.fail('add-raised', err)
                return
        save, ext = b.to_gempak, c.ext
        ref, err = c.write(mon, b)
    if err:
        mon.fail('write-raised', err)
        return
    p = os.path.join(home, rng.choice(['out', 'with space', 'sub/y', 'ünï', 'noext.']) + ext)
    prior = rng.choice(['none', 'none', 'longer', 'longer', 'shorter', 'empty', 'same'])
    how = rng.choice(['good', 'good', 'good', 'good', 'directory', 'noparent', 'unencodable'])
    if how == 'unencodable' and kind != 'vgf':
        how = 'good'
    if how == 'directory':
        os.mkdir(p)
    elif how == 'noparent':
        p = os.path.join(home, 'absent', 'x' + ext)
    elif prior != 'none':
        with open(p, 'wb') as f:
            f.write({'longer': b'\xaa' * (len(ref) + rng.choice([1, 100, 5000])), 'empty': b'',
                     'shorter': b'\xbb' * (len(ref) // 2), 'same': b'\xcc' * len(ref)}[prior])
        mon.seen('longer_before', prior == 'longer')
    if how == 'unencodable':
        e = ev.Line([0., 1.], [0., 1.], 1, 1, False)
        e.encode = lambda: 1 / 0
        b.add_element(e)
    arg, form = spelled(rng, p)
    if how == 'good' and rng.random() < 0.3:  # the same object has been here before
        bits = getattr(b, 'precision', None)
        if kind == 'grid' and bits < 31 and rng.random() < 0.5:
            b.precision = 31
        _, err = see(f'earlier write {kind}', save, rng.choice([arg, p]), writes=p)
        if err:
            mon.fail('write-raised', f'{kind} {form}: {err}')
            return
        if kind == 'grid':
            b.precision = bits
        if rng.random() < 0.6:
            with open(p, 'ab') as f:
                f.write(b'\xdd' * rng.choice([1, 512, 7000]))
        prior = 'own'
        mon.seen('written_before')
    before = tree(home)
    _, err = see(f'write {kind} {how} over {prior}', save, arg, writes=p)
    mon.seen('writes')
    mon.key('write', kind, how, form, prior if how == 'good' else '')
    mon.sample = {'write': kind, 'destination': how, 'path': form, 'prior': prior, 'bytes': len(ref)}
    if how != 'good':
        if err is None:
            mon.fail('wrote-nowhere', f'{kind} {how}')
        elif how in ('directory', 'noparent') and not isinstance(err.exc, OSError):
            mon.fail('wrong-error', f'{kind} {how}: {err}')
        if tree(home) != before:
            mon.fail('failed-write-left-traces', f'{kind} {how} over {prior}')
        return
    if err:
        mon.fail('write-raised', f'{kind} {form} over {prior}: {err}')
        return
    with open(p, 'rb') as f:
        got = f.read()
    if got != ref:
        mon.fail('content', f'{kind} over {prior}: {len(got)} bytes, expected {len(ref)}')
