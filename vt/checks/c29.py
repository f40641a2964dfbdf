"""C29: readers and builders used in different threads do not disturb each other."""
import hashlib
import random
import sys
import threading
import time
import numpy as np
from gempakio import VectorGraphicFile
from vt import build, core, observe, vgw, world
from vt.checks import c20

ID = 'C29'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring under injected preemption: every line of the code under test may hand the interpreter '
             'to another thread; results compared with those obtained alone')
QUICK, THOROUGH = 420, 9000
RULE = ('each case prepares 2-5 jobs (open and query a file, build and write one; mostly of the same class), runs each '
        'alone, then all at once in threads that are preempted at randomly chosen lines of the code under test, and '
        'compares every result; key = (job kinds, number of threads, digest of the observed interleaving)')
ASSUMPTIONS = ['each thread uses readers and builders of its own; files and input objects may be shared']
REQUIRE = {'jobs': 900, 'concurrent_results': 1800, 'switches': 20000, 'lines_seen': 200000}

TOOL = 5


class Preempt:
    """Line events of the code under test: counts thread switches and yields at chosen lines."""

    def __init__(self):
        self.on = False
        m = sys.monitoring
        m.use_tool_id(TOOL, 'vt-preempt')
        m.register_callback(TOOL, m.events.LINE, self.line)

    def start(self, rng, every):
        self.last, self.switches, self.lines, self.digest = None, 0, 0, hashlib.blake2b(digest_size=8)
        self.names = {}
        self.pattern = [rng.random() < 1 / every for _ in range(997)]
        sys.monitoring.restart_events()
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)

    def stop(self):
        sys.monitoring.set_events(TOOL, 0)
        sys.setswitchinterval(self.old)

    def line(self, code, no):
        if not code.co_filename.startswith(core.SRC):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        self.lines += 1
        if me != self.last:
            if self.last is not None:
                self.switches += 1
                if self.switches < 200:
                    self.digest.update(f'{self.names.get(me)}:{code.co_name}:{no};'.encode())
            self.last = me
        if self.pattern[self.lines % 997]:
            time.sleep(0)


PRE = None


def other_values(kind, x):
    """Changes the values of a Content or World, not its structure."""
    if kind == 'w-grid':
        x.ops = [((np.asarray(a[0])[::-1, ::-1] * 0.5 + 1,) + tuple(a[1:]), kw) for a, kw in x.ops]
    elif kind in ('grid', 'snd', 'sfc'):
        for c, tok in x.spec.cells.items():
            x.spec.cells[c] = [(t, v * 0.5 + 1) if t == 'f' and v != world.MISS else (t, v) for t, v in tok]


def job(mon, rng, kind, shared, twin=False):
    """(name, function returning something comparable)"""
    if kind.startswith('w-'):
        k = kind[2:]
        if k == 'vgf':
            specs = [vgw.spec(rng) for _ in range(rng.randint(2, 6))]

            def run(path):
                v = vgw.vgfile(Plain(), specs)
                v.to_vgf(path)
                with open(path, 'rb') as f:
                    return f.read()
        else:
            c = build.Content(rng, k)
            if twin:
                other_values(kind, c)

            def run(path):
                b = c.new(Plain())
                for op in c.ops:
                    res, err = c.add(Plain(), b, op)
                    if err:
                        raise err
                b.to_gempak(path)
                with open(path, 'rb') as f:
                    return f.read()
        return run
    if kind == 'vgf':
        data = b''.join(r.data for r in c20.sequence(rng, rng.choice([4, 8])))
        p = shared.setdefault(kind, mon.put(data, '.vgf')) if rng.random() < 0.3 else mon.put(data, '.vgf')

        def run(_path):
            r = VectorGraphicFile(p)
            return (r.to_json(), repr(r.bounds), [g for g in r.groups], [observe.canon(vars(e)) for e in r.elements])
        return run
    w = world.make(rng, kind)
    if twin:
        other_values(kind, w)
    data = w.spec.build(rng.random() < 0.3)
    if kind in shared and not twin and rng.random() < 0.3:
        p = shared[kind]
    else:
        p = shared[kind] = mon.put(data, w.ext)

    def run(_path):
        return observe.everything(observe.CLS[kind](p), kind)
    return run


class Plain:
    """Monitor stand-in: calls directly, so that it can be used from any thread."""

    def run(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def must(self, _what, fn, *a, **k):
        return fn(*a, **k)


def case(mon, rng, i, tier):
    global PRE
    if PRE is None:
        PRE = Preempt()
    kinds = ['grid', 'snd', 'raob', 'sfc', 'vgf', 'w-grid', 'w-snd', 'w-sfc', 'w-vgf']
    main = kinds[i % len(kinds)]
    n = rng.choice([2, 2, 3, 4, 5])
    mine = [main, main] + [rng.choice([main, rng.choice(kinds)]) for _ in range(n - 2)]
    shared = {}
    seed = rng.getrandbits(60)  # twins: the same structure with other values
    twins = [k == main and (t == 0 or rng.random() < 0.6) for t, k in enumerate(mine)]
    jobs = [job(mon, random.Random(seed) if same else rng, k, shared, twin=same and t > 0)
            for t, (k, same) in enumerate(zip(mine, twins))]
    mon.seen('twins', sum(twins) > 1)
    alone = []
    for k, j in zip(mine, jobs):
        p = mon.path('.alone')
        res, err = mon.run(j, p)
        if err:
            mon.fail('alone-raised', f'{k}: {err}')
            return
        alone.append(res)
        mon.seen('jobs')
    rounds = rng.choice([1, 2, 3])
    paths = [[mon.path('.par') for _ in range(rounds)] for _ in jobs]
    got = [[] for _ in jobs]
    gate = threading.Barrier(n)

    def body(t):
        PRE.names[threading.get_ident()] = t
        gate.wait()
        for r in range(rounds):
            try:
                got[t].append((jobs[t](paths[t][r]), None))
            except Exception as e:
                got[t].append((None, e))
    threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
    PRE.start(rng, rng.choice([3, 10, 40, 200]))
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
    finally:
        PRE.stop()
    mon.seen('switches', PRE.switches)
    mon.seen('lines_seen', PRE.lines)
    mon.key(tuple(mine), n, PRE.digest.hexdigest())
    mon.sample = {'jobs': mine, 'rounds': rounds, 'switches': PRE.switches, 'lines': PRE.lines}
    if any(t.is_alive() for t in threads):
        mon.fail('never-ended', mine)
        return
    for t, k in enumerate(mine):
        for res, err in got[t]:
            mon.seen('concurrent_results')
            if err is not None:
                mon.fail('raised-in-thread', f'{k} next to {mine}: {type(err).__name__}: {err}')
            elif res != alone[t]:
                mon.fail('result-differs-in-thread', f'{k} next to {mine}: {str(res)[:200]} alone {str(alone[t])[:200]}')
