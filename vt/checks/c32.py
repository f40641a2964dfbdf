"""C32: what cannot be decoded is refused or announced, never dropped silently."""
import contextlib
import logging
import warnings
from vt import dm, observe, vgrec, world
from vt.checks import c20, c25
from vt.observe import canon

ID = 'C32'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: log records, warnings and errors recorded while files with undecodable content are read, compared '
             'with what the independent writer put into them')
QUICK, THOROUGH = 3000, 45000
RULE = ('each case builds a random file with entries, records or a header nothing in the package can decode (or with none), reads it '
        'with a recorder on the package\'s loggers and the warning machinery, and compares errors, announcements and the other '
        'entries with the content of the file; key = (what is undecodable, file kind, outcome)')
ASSUMPTIONS = ['an announcement is a log record of level WARNING or above by a logger of the package, or a Python warning',
               'an announcement belongs to the call during which it is made; its text is not examined']
REQUIRE = {'packing': 200, 'parts': 250, 'refused': 400, 'other_entries': 300, 'vgf': 400, 'vgf_announced': 250, 'versions': 15,
           'sources': 80, 'rotations': 80, 'projections': 60, 'empty_grids': 60, 'clean': 400, 'unknown_sources': 20}

AZM = ['STR', 'NPS', 'SPS', 'AED', 'ORT', 'NOR', 'SOR']
CYL = ['CED', 'MER']
UNKNOWN_PROJ = ['UTM', 'TVM', 'OBQ', 'SAT', 'RAD', 'MCGI', 'ROT', 'XYZ']
KNOWN_SOURCES = [0, 1, 2, 3, 4, 5, 6, 7, 99, 100, 102, 103, 104, 105]
UNKNOWN_SOURCES = [8, 9, 10, 42, 98, 101, 106, 255, 1000, -1, 2 ** 31 - 1]


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.said = []

    def emit(self, record):
        if record.levelno >= logging.WARNING and record.name.split('.')[0] == 'gempakio':
            self.said.append(record.getMessage())


@contextlib.contextmanager
def listening():
    """The announcements made inside."""
    rec = Recorder()
    root = logging.getLogger()
    mine = logging.getLogger('gempakio')
    keep = root.manager.disable, mine.propagate, root.level
    logging.disable(logging.NOTSET)
    root.addHandler(rec)
    root.setLevel(logging.WARNING)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            yield rec.said
            rec.said += [str(x.message) for x in w if 'gempakio' in x.filename]
    finally:
        root.removeHandler(rec)
        root.setLevel(keep[2])
        logging.disable(keep[0])


def opened(mon, w, data):
    """(reader, error, announcements)"""
    with listening() as said:
        r, err = mon.run(observe.CLS[w.kind], mon.put(data, w.ext))
    return r, err, said


def asked(mon, r, kind, info):
    with listening() as said:
        got, err = c25.ask(mon, r, kind, info)
    return got, err, said


def quiet(mon, what, said, tag):
    if said:
        mon.fail('needless-announcement', f'{what} {tag}: {said[:3]}')


def packing(mon, rng):
    """Grids in packings that are not supported, and grids of no data."""
    w = world.make(rng, 'grid')
    sp, np_ = w.spec, w.spec.parts[0].header
    plain = dm.Spec(sp.ftype, sp.row_keys, sp.col_keys, sp.rows, sp.cols, sp.parts, dict(sp.cells), sp.nav, sp.source, sp.anl_type)
    hit = {}
    for e in rng.sample(w.entries, rng.randint(1, max(1, len(w.entries) // 2))):
        k = (0, e.slot[1], 0)
        if rng.random() < 0.25:
            sp.cells[k] = sp.cells[k][:np_] + dm.I(0)  # not packed, and not a single value
            hit[e.slot] = 'empty'
        else:
            code = rng.choice([2, 2, 5, 5, 6, 7, 17, -1])
            sp.cells[k] = sp.cells[k][:np_] + dm.I(code) + sp.cells[k][np_ + 1:]
            hit[e.slot] = code
    affected(mon, rng, w, hit, plain.build())


def parts(mon, rng):
    """Parts of a data type nothing decodes."""
    kind = rng.choice(['snd', 'raob', 'sfc'])
    w = world.make(rng, kind)
    sp = w.spec
    plain = dm.Spec(sp.ftype, sp.row_keys, sp.col_keys, sp.rows, sp.cols, list(sp.parts), dict(sp.cells), sp.nav, sp.source,
                    sp.anl_type)
    used = sorted({p for _r, _c, p in sp.cells})
    k = rng.choice(used)
    p = sp.parts[k]
    dtype = rng.choice([2, 5, 3] if kind == 'snd' else [2, 5])
    sp.parts = list(sp.parts)
    sp.parts[k] = dm.Part(p.name, p.header, dtype, p.params)
    hit = {e.slot: (p.name, dtype) for e in w.entries if (*e.slot, k) in sp.cells}
    affected(mon, rng, w, hit, plain.build())


def affected(mon, rng, w, hit, plain):
    """Entries of `hit` are refused or announced when selected, the others read as from the plain file."""
    kind = w.kind
    r, err, said = opened(mon, w, w.spec.build(rng.random() < 0.3))
    r0 = mon.must('open', observe.CLS[kind], mon.put(plain, w.ext))
    mon.sample = {'kind': kind, 'tag': w.tag, 'undecodable': {str(k): str(v) for k, v in hit.items()}}
    if err:
        mon.fail('not-opened', f'{w.tag} {hit}: {err}')
        return
    if r0 is None:
        return
    quiet(mon, 'opening', said, w.tag)
    inv, err = mon.run(observe.inventory, r, kind)
    if err or len(inv) != len(w.entries):
        mon.fail('inventory', f'{w.tag}: {err or len(inv)} expected {len(w.entries)}')
        return
    for e in rng.sample(w.entries, min(len(w.entries), 6)):
        bad = [hit[x.slot] for x in w.entries if x.slot in hit and c25.same_query(kind, x.info, e.info)]
        got, err, said = asked(mon, r, kind, e.info)
        if not bad:
            want, e0 = c25.ask(mon, r0, kind, e.info)
            if e0:
                mon.fail('plain-raised', (e.info, e0))
                return
            mon.seen('other_entries')
            if err or got != want:
                mon.fail('other-entry', f'{w.tag} {e.info} is decodable, {hit} are not: {err or str(got)[:300]}')
            quiet(mon, f'reading {e.info}', said, w.tag)
            continue
        what = 'empty_grids' if bad == ['empty'] else 'packing' if kind == 'grid' else 'parts'
        mon.seen(what)
        mon.key(what, w.tag, tuple(map(str, bad)), bool(err))
        if all(b == 'empty' for b in bad):
            if not err and not said:
                mon.fail('empty-grid-silent', f'{e.info}: returned {str(got)[:200]} and said nothing')
        elif not err:
            mon.fail('undecodable-returned', f'{w.tag} {e.info} {bad}: returned {str(got)[:300]}, said {said}')
        else:
            mon.seen('refused')
    with listening() as said:
        kw = {'include_special': True} if kind == 'sfc' else {}
        got, err = mon.run(observe.query, r, kind, **kw)
    if any(v != 'empty' for v in hit.values()):
        if not err:
            mon.fail('undecodable-in-all', f'{w.tag} {hit}: a query for everything returned {len(got)} answers')
    elif not err and not said:
        mon.fail('empty-grid-silent', f'{w.tag}: a query for everything said nothing')


def openings(mon, rng):
    """Data source, projection and rotation."""
    what = rng.choice(['source', 'rotation', 'projection'])
    w = world.make(rng, None if what == 'source' else 'grid')
    sp = w.spec
    if what == 'source':
        known = rng.random() < 0.5
        sp.source = rng.choice(KNOWN_SOURCES if known else UNKNOWN_SOURCES)
        r, err, said = opened(mon, w, sp.build(rng.random() < 0.3))
        mon.seen('sources')
        mon.key('source', w.tag, sp.source)
        if err:
            mon.fail('source-refused', f'{w.tag} source {sp.source}: {err}')
        elif known:
            quiet(mon, f'opening a file with source {sp.source}', said, w.tag)
        else:
            mon.seen('unknown_sources')
            if not said:
                mon.fail('source-silent', f'{w.tag} source {sp.source}')
            if r.dm_label.data_source.name != 'unknown':
                mon.fail('source-name', f'source {sp.source} shown as {r.dm_label.data_source!r}')
    elif what == 'rotation':
        proj = rng.choice(AZM + CYL)
        rot = rng.choice([0.0, 0.0, 1.0, -1.0, 45.0, 90.0, -30.0, 180.0, 360.0, 0.5])
        lat0 = 0.0 if proj in CYL else {'NPS': 90.0, 'NOR': 90.0, 'SPS': -90.0, 'SOR': -90.0}.get(proj, 35.0)
        box = {90.0: ((50., -100.), (60., -60.)), -90.0: ((-60., -100.), (-50., -60.))}.get(lat0, ((25., -110.), (50., -70.)))
        sp.nav = dm.nav_block(proj, *nxny(sp), *box, (lat0, -90.0, rot))
        r, err, said = opened(mon, w, sp.build(rng.random() < 0.3))
        mon.seen('rotations', rot != 0)
        mon.key('rotation', proj, rot)
        if err:
            mon.fail('rotation-refused', f'{proj} {rot}: {err}')
        elif rot and not said:
            mon.fail('rotation-silent', f'{proj} rotated by {rot}')
        elif not rot:
            quiet(mon, 'opening', said, proj)
    else:
        proj = rng.choice(UNKNOWN_PROJ)
        sp.nav = dm.nav_block(proj, *nxny(sp), (20.0, -110.0), (50.0, -60.0), (0.0, -90.0, 0.0))
        r, err, said = opened(mon, w, sp.build(rng.random() < 0.3))
        mon.seen('projections')
        mon.key('projection', proj)
        if not err:
            mon.fail('projection-accepted', f'{proj}: {r.crs}')
    mon.sample = {'kind': w.kind, 'what': what}


def nxny(sp):
    return int(sp.nav[4][1]), int(sp.nav[5][1])


def vgf(mon, rng):
    from gempakio import VectorGraphicFile
    recs = c20.sequence(rng)
    if rng.random() < 0.3:
        recs = [r for r in recs if r.kind != 'unsupported' and r.cls is not None]
    data = b''.join(r.data for r in recs)
    if not data:
        return
    with listening() as said:
        v, err = mon.run(VectorGraphicFile, mon.put(data, '.vgf'))
    lost = [r for r in recs if r.kind == 'unsupported']
    need = sum(not r.head['delete'] for r in lost)
    mon.sample = {'records': [repr(r) for r in recs][:8], 'unsupported': len(lost), 'announcements': said[:3]}
    mon.seen('vgf')
    if err:
        mon.fail('vgf-raised', err)
        return
    for r in lost:
        mon.key('vgf', r.head['vg_class'], r.head['vg_type'])
        mon.seen('versions', (r.head['vg_class'], r.head['vg_type']) in ((2, 6), (11, 28)))
    mon.seen('vgf_announced', need)
    if len(said) < need:
        mon.fail('vgf-silent', f'{need} records cannot be decoded {[c20.tag(r) + (r.head["vg_class"], r.head["vg_type"]) for r in lost]}'
                 f', {len(said)} announcements: {said[:4]}')
    if not lost and all(r.cls is not None for r in recs):
        mon.seen('clean')
        quiet(mon, 'reading', said, [c20.tag(r) for r in recs])


def clean(mon, rng):
    w = world.make(rng)
    r, err, said = opened(mon, w, w.spec.build(rng.random() < 0.3))
    if err:
        mon.fail('clean-refused', f'{w.tag}: {err}')
        return
    quiet(mon, 'opening', said, w.tag)
    with listening() as said:
        _got, err = mon.run(lambda: canon(observe.everything(r, w.kind)))
    mon.seen('clean')
    mon.key('clean', w.tag)
    mon.sample = {'kind': w.kind, 'tag': w.tag}
    if err:
        mon.fail('clean-raised', f'{w.tag}: {err}')
    quiet(mon, 'reading', said, w.tag)


def case(mon, rng, i, tier):
    [packing, parts, vgf, openings, parts, packing, vgf, openings, clean][i % 9](mon, rng)
