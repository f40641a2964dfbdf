"""C23: damaged or foreign input never yields silently wrong data and always ends."""
import resource

from gempakio import VectorGraphicFile
from vt import vgrec, world
from vt.checks import c20
from vt.observe import CLS, canon, inventory

ID = 'C23'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring with fault injection: truncations at every kind of boundary and word/byte corruption of '
         'independently written files, answers compared with those of the intact file under a step and memory budget')
RULE = 'distinct (file kind, damage, region of the file, outcome) seen by the damage monitor'
ASSUMPTIONS = ['corrupting a value that is itself data legitimately changes that data: for corruption only termination is '
               'decided, the identity of the answers is decided for truncation']
QUICK = 700
THOROUGH = 10500
REQUIRE = {'truncated': 4000, 'cut_answers': 300, 'cut_refused': 1500, 'corrupted': 4000, 'foreign': 200,
           'foreign_refused': 150, 'items_compared': 1000, **{f'kind_{k}': 60 for k in ('grid', 'snd', 'raob', 'sfc', 'vgf')}}
LIMIT = 1_500_000
MEM = 6 << 30


def answers(mon, kind, p, limit=LIMIT):
    """What the file says: (inventory, [(query, items or error)]) or the error of opening it."""
    cls = VectorGraphicFile if kind == 'vgf' else CLS[kind]
    r, err = mon.run(cls, p, limit=limit)
    if err:
        return None, err
    if kind == 'vgf':
        return ([], [('elements', [canon(vars(e)) for e in r.elements])]), None
    inv, err = mon.run(lambda: [canon(x) for x in inventory(r, kind)], limit=limit)
    if err:
        return None, err
    out = []
    for q in QUERIES[kind]:
        items, err = mon.run(q, r, limit=limit)
        out.append((q.__name__, err if err else [canon(x) for x in items]))
    return (inv, out), None


def every(r):
    return r.gdxarray()


def profiles(r):
    return r.snxarray()


def reports(r):
    return r.sfjson()


def specials(r):
    return r.sfjson(include_special=True)


QUERIES = {'grid': [every], 'snd': [profiles], 'raob': [profiles], 'sfc': [reports, specials]}


def subsequence(a, b):
    """First item of a that breaks being a subsequence of b, or None."""
    it = iter(b)
    for x in a:
        if not any(x == y for y in it):
            return x
    return None


def make(rng, kind):
    if kind == 'vgf':
        recs = c20.sequence(rng, rng.choice([1, 2, 4, 8]))
        data = b''.join(r.data for r in recs)
        cuts, off = [], 0
        for r in recs:
            cuts += [off, off + 40, off + len(r.data), off + len(r.data) - 1, off + len(r.data) // 2]
            off += len(r.data)
        return data, '.vgf', cuts
    w = world.make(rng, kind)
    data = w.spec.build(big=rng.random() < 0.3)
    used = len(data.rstrip(b'\0'))
    return data, w.ext, [0, 28, 124, 512, used, used - 1, used - 4, used + 1] + [used - 4 * k for k in range(1, 40, 3)]


def outcome(ans, err):
    if err:
        return 'refused'
    return 'partial' if any(not isinstance(x, list) for _q, x in ans[1]) else 'answers'


def truncations(mon, rng, kind, data, ext, cuts, ref, n):
    pts = {c for c in rng.sample(cuts, min(len(cuts), n // 2)) if 0 <= c < len(data)}
    while len(pts) < n and len(pts) < len(data):
        pts.add(rng.choice([rng.randrange(len(data)), rng.randrange(len(data)) // 4 * 4,
                            max(0, len(data.rstrip(b'\0')) - rng.randrange(600))]))
    for cut in sorted(pts):
        if cut >= len(data):
            continue
        ans, err = answers(mon, kind, mon.put(data[:cut], ext))
        mon.seen('truncated')
        mon.key(kind, 'cut', cut * 12 // len(data), cut % 4, outcome(ans, err))
        if err:
            mon.seen('cut_refused')
            continue
        lost = subsequence(ans[0], ref[0])
        if lost is not None:
            mon.fail(f'{kind}-truncated-inventory', f'cut at {cut} of {len(data)}: lists {lost} which the intact '
                     f'file does not')
            return
        for (q, got), (_q, want) in zip(ans[1], ref[1]):
            if not isinstance(got, list) or not isinstance(want, list):
                mon.seen('cut_query_refused')
                continue
            mon.seen('cut_answers')
            mon.seen('items_compared', len(got))
            lost = subsequence(got, want)
            if lost is not None:
                mon.fail(f'{kind}-truncated-{q}', f'cut at {cut} of {len(data)}: returned {str(lost)[:300]}')
                return


def words(rng, data, kind):
    """Positions worth damaging: (offset, new bytes)."""
    n = len(data) // 4
    k = rng.random()
    if kind == 'vgf':
        offs, _e = c20.frames(data)
        off = rng.choice(offs) + rng.choice([0, 4, 8, 12, 16, 20, 24, 40, 44, 48, 52, 60, 4 * rng.randrange(200)])
    elif k < 0.4:
        off = 4 * rng.randrange(7, 31)  # label
    elif k < 0.5:
        off = 512 + 4 * rng.randrange(4)
    else:
        off = 4 * rng.randrange(min(n, 600) if k < 0.8 else n)
    off = min(off, 4 * (n - 1)) if n else 0
    order = 'little' if data[28:32] == b'\1\0\0\0' else 'big'
    old = int.from_bytes(data[off:off + 4], order, signed=True)
    new = rng.choice([0, 1, -1, 2, 9999, -9999, 2 ** 31 - 1, -2 ** 31, 70000, old + 1, old - 1, old * 2, old ^ 1 << rng.randrange(32),
                      rng.randrange(-2 ** 31, 2 ** 31)])
    new = (new + 2 ** 31) % 2 ** 32 - 2 ** 31
    return off, new.to_bytes(4, order, signed=True)


def corruptions(mon, rng, kind, data, ext, n):
    at = data.find(b'NAVBANLB')
    for _ in range(n):
        b = bytearray(data)
        hit = []
        for _k in range(rng.choice([1, 1, 1, 2, 4])):
            if rng.random() < 0.85:
                off, new = words(rng, data, kind)
            else:
                off, new = rng.randrange(len(data)), bytes([rng.randrange(256)])
            # a large but representable grid size costs time, which is no defect
            if at >= 0 and at + 28 + 16 <= off + 3 and off <= at + 28 + 24:
                continue
            b[off:off + len(new)] = new
            hit.append(off)
        del b[len(data):]
        v0 = len(mon.violations)
        ans, err = answers(mon, kind, mon.put(bytes(b), ext))
        mon.seen('corrupted')
        mon.key(kind, 'corrupt', tuple(h if h < 640 else 640 for h in hit), outcome(ans, err))
        for v in mon.violations[v0:]:
            v['detail'] += f' ({kind} file with word(s) at {hit} overwritten)'
        if len(mon.violations) > v0:
            return


def foreign(mon, rng, kind, data):
    alien = rng.choice(['empty', 'random', 'text', 'label', 'shift', 'case', 'other'])
    ok = 'GEMPAK DATA MANAGEMENT FILE '
    b = {'empty': b'', 'random': bytes(rng.randrange(256) for _ in range(rng.choice([3, 40, 2000]))),
         'text': b'GIF89a' + b'some other content ' * rng.randint(0, 60),
         'label': ok[:rng.randrange(28)].encode() + b'\0' * rng.choice([0, 600]),
         'shift': b' ' + data, 'case': data[:28].lower() + data[28:],
         'other': b'GEMPAK DATA MANAGEMENT FILE?' + data[28:]}[alien]
    k = kind if kind != 'vgf' else rng.choice(['grid', 'snd', 'sfc'])
    ans, err = answers(mon, k, mon.put(b, '.gem'))
    mon.seen('foreign')
    mon.key('foreign', k, alien, outcome(ans, err))
    if not err:
        mon.fail('foreign-accepted', f'{alien} file opened as {k}')
    else:
        mon.seen('foreign_refused')
    # the other readers just have to end
    answers(mon, rng.choice(['grid', 'snd', 'sfc', 'vgf']), mon.put(data, '.gem'))


def case(mon, rng, i, tier):
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft == resource.RLIM_INFINITY or soft > MEM:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, hard))
    kind = ['grid', 'snd', 'raob', 'sfc', 'vgf'][i % 5]
    data, ext, cuts = make(rng, kind)
    mon.seen(f'kind_{kind}')
    ref, err = answers(mon, kind, mon.put(data, ext), limit=mon.STEP_LIMIT)
    if err:
        mon.fail('intact-raised', (kind, err))
        return
    mon.sample = {'kind': kind, 'bytes': len(data), 'listed': len(ref[0])}
    n = 12 if tier == 'quick' else 40
    truncations(mon, rng, kind, data, ext, cuts, ref, n)
    corruptions(mon, rng, kind, data, ext, n)
    foreign(mon, rng, kind, data)
