"""C25: damage to the data of one entry stays confined to that entry."""
import resource
import struct
from vt import dm, observe, world
from vt.observe import canon

ID = 'C25'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring with fault injection: the data block of one entry of an independently written file is damaged, '
         'every other entry is then read on its own and compared with the intact file')
QUICK, THOROUGH = 1500, 22500
RULE = ('each case builds a random file of any kind, damages one data block (its length word, its content, its pointer) and '
        'reads every entry through a query that selects only it; entries that do not use the block must come back as from '
        'the intact file; a packed block that is not a whole number of records, or a grid whose block is too short for the '
        'grid, must not yield values; key = (file kind, damage, packing, outcome)')
ASSUMPTIONS = ['entries with the same identifying keys as the damaged one are not compared, queries cannot tell them apart',
               'a damaged data word may be a legitimate different value: only the block\'s own entry may change']
REQUIRE = {'files': 1200, 'others_compared': 2000, 'damaged_read': 1000, 'refused': 300, 'partial_blocks': 60,
           'short_grids': 50, 'lengths': 300, 'contents': 300, 'pointers': 150}


MEM = 6 << 30


def selector(kind, info):
    if kind == 'grid':
        _typ, valid, valid2, nm, l1, _l2, vc = info
        return dict(parameter=nm, date_time=valid, level=l1, coordinate=vc)
    t, sid = info[:2]
    return dict(station_id=sid, date_time=t)


def same_query(kind, a, b):
    return selector(kind, a) == selector(kind, b)


def ask(mon, r, kind, info):
    kw = selector(kind, info)
    if kind == 'sfc':
        kw['include_special'] = True
    out, err = mon.run(observe.query, r, kind, limit=6_000_000, **kw)
    return (None, err) if err else ([canon(x) for x in out], None)


def damage(rng, w, data, big):
    """(damaged bytes, slot hit, what, must_refuse)"""
    P = dm.parse(data)
    b = bytearray(data)
    e = '>' if big else '<'

    def put(k, v):
        b[4 * (k - 1):4 * k] = struct.pack(e + 'I', v & 0xFFFFFFFF)
    r, c, p = rng.choice(sorted(P.cells))
    ptr, ln = P.cells[(r, c, p)]
    part = P.parts[p]
    slot = (r, c)
    what = rng.choice(['length', 'length', 'content', 'pointer'] if ln else ['length', 'pointer'])
    refuse = None
    if what == 'length':
        new = rng.choice([ln - 1, ln + 1, ln - rng.randint(1, max(1, ln)), ln + rng.randint(1, 9), ln * 2, 0, -1, 2 ** 31 - 1,
                          part.header, part.header + 1])
        put(ptr, new)
        n = new - part.header
        if part.dtype == 4 and n > 0:
            per = (sum(q[3] for q in part.params) - 1) // 32 + 1
            if n % per:
                refuse = 'partial'
        elif w.kind == 'grid' and 0 <= new < ln:
            refuse = 'short'
        elif new < part.header:
            refuse = 'negative'
    elif what == 'content':
        for _ in range(rng.choice([1, 1, 3])):
            put(ptr + rng.randint(1, ln), rng.choice([0, -1, 1, 2 ** 31 - 1, -9999, 70000, rng.getrandbits(32)]))
    else:
        put(P.dbp + (r * P.nc + c) * P.np + p, rng.choice([1, 2 ** 31 - 1, len(data) // 4, len(data) // 4 + 1,
                                                           rng.randint(1, len(data) // 4), -1]))
    return bytes(b), slot, what, refuse


def case(mon, rng, i, tier):
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft == resource.RLIM_INFINITY or soft > MEM:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, hard))
    kind = ['grid', 'snd', 'sfc', 'raob', 'grid', 'snd', 'sfc'][i % 7]
    w = world.make(rng, kind)
    big = rng.random() < 0.3
    data = w.spec.build(big)
    try:
        bad, slot, what, refuse = damage(rng, w, data, big)
    except dm.Bad as err:
        raise RuntimeError(f'intact file is not well-formed: {err}') from err
    if bad == data:
        return
    r0 = mon.must('open-intact', observe.CLS[kind], mon.put(data, w.ext))
    r1 = mon.must('open-damaged', observe.CLS[kind], mon.put(bad, w.ext))
    if r0 is None or r1 is None:
        return
    mon.seen('files')
    mon.seen(what + 's')
    own = next(e.info for e in w.entries if e.slot == slot)
    mon.sample = {'kind': kind, 'what': what, 'slot': slot, 'refuse': refuse}
    for e in rng.sample(w.entries, min(len(w.entries), 6)):
        if same_query(kind, e.info, own):
            continue
        want, err = ask(mon, r0, kind, e.info)
        if err:
            mon.fail('intact-raised', (e.info, err))
            return
        got, err = ask(mon, r1, kind, e.info)
        if err:
            mon.fail(f'{kind}-other-raised', f'{what} of {slot} damaged, {e.slot} {e.info}: {err}')
            return
        mon.seen('others_compared', len(want))
        if got != want:
            mon.fail(f'{kind}-other-changed', f'{what} of {slot} damaged, {e.slot} {e.info}: {str(got)[:300]} intact '
                     f'{str(want)[:300]}')
            return
    got, err = ask(mon, r1, kind, own)
    mon.seen('damaged_read')
    mon.seen('refused', bool(err))
    mon.key(w.tag, what, big, refuse, 'refused' if err else 'empty' if not got else 'answer')
    if refuse == 'partial':
        mon.seen('partial_blocks')
        if not err:
            mon.fail(f'{kind}-partial-record', f'length of a packed block of {own} is not a whole number of records: '
                     f'{str(got)[:300]}')
    elif refuse == 'short':
        mon.seen('short_grids')
        want, _e = ask(mon, r0, kind, own)
        if not err and any(x not in want for x in got):
            mon.fail('grid-short-block', f'{own}: {str(got)[:300]}')
    elif refuse == 'negative' and not err:
        want, _e = ask(mon, r0, kind, own)
        mon.seen('negative_lengths')
        if any(x not in want for x in got):
            mon.fail(f'{kind}-negative-length', f'{own}: {str(got)[:300]} intact {str(want)[:300]}')
