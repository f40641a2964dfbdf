"""Random writer content of all three GEMPAK file classes, as replayable operations."""
import copy
import datetime as dt
import numpy as np
from gempakio import (GempakGrid, GempakSounding, GempakSurface, GridFile, SoundingFile, SurfaceFile)
from vt import gen, stn

READER = {'grid': GempakGrid, 'snd': GempakSounding, 'sfc': GempakSurface}
COORDS = ['pres', 'HGHT', 'none', None, 'thta']


class Content:
    """kind, how to make a builder, list of add operations (args, kwargs)."""

    def __init__(self, rng, kind=None, small=True, nops=None, exact=None):
        self.kind = kind or rng.choice(['grid', 'snd', 'sfc'])
        if self.kind == 'grid':
            self._grid(rng, small, nops, exact)
        else:
            self.c = stn.content(rng, self.kind == 'sfc', small=small, exact=exact)
            self.ops = [(e[:5], {}) for e in self.c['entries']]
            self.ids = [stn.ident(e, self.kind == 'sfc') for e in self.c['entries']]
        self.ext = {'grid': '.grd', 'snd': '.snd', 'sfc': '.sfc'}[self.kind]

    def _grid(self, rng, small, nops, exact=None):
        """exact: that many distinct grids"""
        self.nx, self.ny = rng.randint(1, 7), rng.randint(1, 7)
        if rng.random() < 0.15:
            self.nx, self.ny = rng.randint(20, 40), rng.randint(20, 40)
        self.bits = rng.choice([16, 16, 1, 3, 8, 12, 17, 24, 31])
        if exact:
            nops = exact
            self.nx, self.ny = rng.randint(1, 3), rng.randint(1, 3)
        elif nops is None:
            nops = rng.choice([1, 1, 2, 3, 5]) if small or rng.random() < 0.9 else rng.choice(
                [12, 13, 60, 130])
        base = gen.rand_dt(rng, 1980, 2060)
        ops, ids = [], []
        for k in range(nops):
            a, _tag = gen.grid_values(rng, self.ny, self.nx)
            t = base + dt.timedelta(hours=rng.randrange(3))
            lev = rng.choice([0, 500, 850])
            nm = rng.choice(['TMPK', 'UREL', 'VREL', 'HGHT', 'PRES', f'Q{k}']) if not exact else f'Q{k}'
            vc = rng.choice(COORDS)
            form = rng.random()
            kw = {}
            typ = ''
            if form < 0.3:
                arg = t.replace(second=rng.choice([0, 0, 30]))
            elif form < 0.6:
                arg = t.strftime('%Y%m%d%H%M')
            else:
                typ = rng.choice(['F006', 'F012', 'G000', 'I024', 'F01230'])
                arg = t.strftime('%Y%m%d%H%M') + typ
            if rng.random() < 0.3:
                kw['level2'] = rng.choice([100, 700])
            if rng.random() < 0.3:
                t2 = t + dt.timedelta(hours=rng.randrange(2))
                kw['date_time2'] = t2.strftime('%Y%m%d%H%M') + typ if typ else t2
            ops.append(((a, nm, vc, lev, arg), kw))
            ids.append((nm, (vc or 'none').lower(), lev, t, typ, kw.get('level2'),
                        str(kw.get('date_time2'))))
        self.ops, self.ids = ops, ids

    def new(self, mon):
        if self.kind == 'grid':
            b = mon.must('GridFile', gen.eqc_file, GridFile, self.nx, self.ny)
            if b is not None:
                b.precision = self.bits
            return b
        cls = SoundingFile if self.kind == 'snd' else SurfaceFile
        return mon.must(cls.__name__, cls, list(self.c['params']))

    def adder(self, b):
        return {'grid': getattr(b, 'add_grid', None), 'snd': getattr(b, 'add_sounding', None),
                'sfc': getattr(b, 'add_station', None)}[self.kind]

    def add(self, mon, b, op, fresh=True):
        a, k = copy.deepcopy(op) if fresh else op
        return mon.run(self.adder(b), *a, **k)

    def write(self, mon, b):
        """(bytes, None) or (None, error)"""
        p = mon.path(self.ext)
        _, err = mon.run(b.to_gempak, p)
        if err:
            return None, err
        with open(p, 'rb') as f:
            return f.read(), None

    def built(self, mon, ops=None):
        """bytes of a file built from ops, or None after reporting"""
        b = self.new(mon)
        if b is None:
            return None
        for op in self.ops if ops is None else ops:
            _, err = self.add(mon, b, op)
            if err:
                mon.fail('add-raised', err)
                return None
        data, err = self.write(mon, b)
        if err:
            mon.fail('to_gempak-raised', err)
        return data
