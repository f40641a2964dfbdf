"""Independent GEMPAK data-management (DM) file model: writer and strict parser.

Written from the DM file format, sharing no code with the package under test.
A file is a list of 32-bit words; each word is a token ('i', int), ('f', float)
or ('s', 4 bytes); the byte order only matters when tokens are serialised.
"""
import struct

MISS = -9999
MISSF = -9999.0
LABEL = b'GEMPAK DATA MANAGEMENT FILE '
STRKEYS = {'STID', 'STAT', 'COUN', 'STD2', 'GPM1', 'GPM2', 'GPM3'}
REC = 128


def I(*v):
    return [('i', int(x)) for x in v]


def F(*v):
    return [('f', float(x)) for x in v]


def S(text, words=None):
    b = text if isinstance(text, bytes) else text.encode('latin-1')
    n = words if words is not None else (len(b) + 3) // 4
    b = b.ljust(4 * n)[: 4 * n]
    return [('s', b[4 * k: 4 * k + 4]) for k in range(n)]


def serial(tokens, big):
    e = '>' if big else '<'
    out = bytearray()
    for t, v in tokens:
        if t == 'i':
            out += struct.pack(e + 'I', v & 0xFFFFFFFF)
        elif t == 'f':
            out += struct.pack(e + 'f', v)
        else:
            out += v
    return bytes(out)


class Part:
    def __init__(self, name, header, dtype, params):
        """params: list of (name, scale, offset, bits)"""
        self.name, self.header, self.dtype, self.params = name, header, dtype, params


class Spec:
    """What a DM file contains.

    rows/cols: list of header dicts (key -> value) or None for an unused header.
    cells: {(row, col, part): tokens}, tokens = part header words + data words.
    """

    def __init__(self, ftype, row_keys, col_keys, rows, cols, parts, cells, nav=None,
                 source=None, anl_type=2.0):
        self.ftype, self.row_keys, self.col_keys = ftype, row_keys, col_keys
        self.rows, self.cols, self.parts, self.cells = rows, cols, parts, cells
        self.nav = nav
        self.source = source if source is not None else {1: 2, 2: 4, 3: 6}[ftype]
        self.anl_type = anl_type

    def build(self, big=False, rng=None, gaps=False):
        """Serialise; with rng, data order / free space are randomised."""
        words = {}
        top = [129 + REC]  # next word to allocate (1-based)

        def place(tokens, align=False, gap=True):
            if align and (top[0] - 1) % REC:
                top[0] = ((top[0] - 1) // REC + 1) * REC + 1
            if gap and gaps and rng is not None and rng.random() < 0.4:
                g = rng.choice([1, 2, 5, 128])
                for k in range(g):  # free space holds junk
                    words[top[0] + k] = ('i', rng.choice([0, -1, 9999, 7, 2 ** 31 - 1]))
                top[0] += g
            at = top[0]
            for k, t in enumerate(tokens):
                words[at + k] = t
            top[0] += len(tokens)
            return at

        rk = place(sum((S(k, 1) for k in self.row_keys), []), gap=False)
        ck = place(sum((S(k, 1) for k in self.col_keys), []), gap=False)
        nfh = 0
        fk = top[0]
        if self.nav is not None:
            nfh = 2
            navt = self.nav + I(*([0] * (256 - len(self.nav))))
            anl = F(self.anl_type) + F(*([0.0] * 127))
            fk = place(S('NAVBANLB') + I(256, 128) + I(1, 1) + I(256) + navt + I(128) + anl,
                       gap=False)

        def heads(hs, keys):
            t = []
            for h in hs:
                if h is None:
                    t += I(*([MISS] * (len(keys) + 1)))
                elif isinstance(h, tuple) and h[0] == 'deleted':
                    t += I(MISS)  # flag cleared, stale key values remain
                    t += self._keys(h[1], keys)
                else:
                    t += I(9999) + self._keys(h, keys)
            return t
        rh = place(heads(self.rows, self.row_keys), align=True)
        ch = place(heads(self.cols, self.col_keys), align=rng is None)
        pt = []
        for p in self.parts:
            pt += S(p.name, 1)
        pt += I(*[p.header for p in self.parts])
        pt += I(*[p.dtype for p in self.parts])
        pt += I(*[len(p.params) for p in self.parts])
        for k in range(4):
            for p in self.parts:
                for q in p.params:
                    pt += S(q[0], 1) if k == 0 else I(q[k])
        pp = place(pt, align=True)
        nr, nc, np_ = len(self.rows), len(self.cols), len(self.parts)
        table_at = place(I(*([0] * (nr * nc * np_))), align=True)
        order = sorted(self.cells)
        if rng is not None:
            rng.shuffle(order)
        if (top[0] - 1) % REC:
            top[0] = ((top[0] - 1) // REC + 1) * REC + 1
        for (r, c, p) in order:
            tok = self.cells[(r, c, p)]
            at = place(I(len(tok)) + tok)
            words[table_at + (r * nc + c) * np_ + p] = ('i', at)
        nxt = top[0]
        total = ((top[0] - 2) // REC + 1) * REC
        for k, v in enumerate(S(LABEL)):
            words[1 + k] = v
        label = [1, nfh, fk, nr, len(self.row_keys), rk, rh, nc, len(self.col_keys), ck, ch,
                 np_, pp, 129, REC, table_at, self.ftype, self.source, 11, MISS, 0, 0, 0]
        for k, v in enumerate(I(*label) + F(MISSF)):
            words[8 + k] = v
        for k, v in enumerate(I(nxt, 62, 0, 0)):
            words[129 + k] = v
        toks = [words.get(k, ('i', 0)) for k in range(1, total + 1)]
        return serial(toks, big)

    @staticmethod
    def _keys(h, keys):
        t = []
        for k in keys:
            t += S(h[k], 1) if k in STRKEYS or isinstance(h[k], str) else I(h[k])
        return t


def nav_block(proj, nx, ny, ll, ur, angles, gdtype=2.0):
    """ll/ur are (lat, lon)"""
    return (F(gdtype) + S(proj, 1) + F(1, 1, nx, ny, ll[0], ll[1], ur[0], ur[1]) + F(*angles))


# ------------------------------------------------------------------ bit packing

def pack_msb(values, bits):
    """GRIB-like packing: fields most significant bit first into 32-bit words."""
    acc = 0
    for v in values:
        acc = (acc << bits) | v
    n = len(values) * bits
    pad = -n % 32
    acc <<= pad
    nw = (n + pad) // 32
    return [(acc >> (32 * (nw - 1 - k))) & 0xFFFFFFFF for k in range(nw)]


def unpack_msb(words, bits, count):
    acc = 0
    for w in words:
        acc = (acc << 32) | (w & 0xFFFFFFFF)
    total = 32 * len(words)
    return [(acc >> (total - (k + 1) * bits)) & ((1 << bits) - 1) for k in range(count)]


def pack_lsb(fields, bits):
    """DP_PACK style: one record, fields least significant bit first."""
    acc, pos = 0, 0
    for f, b in zip(fields, bits):
        acc |= f << pos
        pos += b
    nw = (pos - 1) // 32 + 1
    return [(acc >> (32 * k)) & 0xFFFFFFFF for k in range(nw)]


# ------------------------------------------------------------------ strict parser

class Bad(Exception):
    pass


class Parsed:
    pass


def parse(data):
    """Parse and validate a DM file; raises Bad when it is not well-formed."""
    if len(data) < 4 * REC:
        raise Bad('file shorter than a record')
    if data[:28] != LABEL:
        raise Bad('label')
    if len(data) % (4 * REC):
        raise Bad(f'size {len(data)} is not a whole number of 128-word records')
    nwords = len(data) // 4
    e = '<' if struct.unpack('<i', data[28:32])[0] == 1 else '>'

    def w(k, n=1):
        if k < 1 or k + n - 1 > nwords:
            raise Bad(f'word range {k}..{k + n - 1} outside file of {nwords} words')
        return struct.unpack(f'{e}{n}i', data[4 * (k - 1): 4 * (k - 1 + n)])

    def wf(k, n=1):
        w(k, n)
        return struct.unpack(f'{e}{n}f', data[4 * (k - 1): 4 * (k - 1 + n)])

    def ws(k, n=1):
        w(k, n)
        return [data[4 * (k - 1 + j): 4 * (k + j)] for j in range(n)]

    P = Parsed()
    (P.version, P.nfh, P.fkp, P.nr, P.nrk, P.rkp, P.rhp, P.nc, P.nck, P.ckp, P.chp, P.np, P.pp,
     P.dmp, P.dml, P.dbp, P.ftype, P.source, P.machine, P.missi, _a, _b, _c) = w(8, 23)
    P.missf = wf(31)[0]
    P.big = e == '>'
    if P.version != 1:
        raise Bad('version')
    if P.missi != MISS or P.missf != MISSF:
        raise Bad('missing values in label')
    regions = []

    def claim(name, at, n):
        if n == 0:
            return
        w(at, n)
        regions.append((at, at + n - 1, name))
    claim('label', 1, 31)
    claim('data management', P.dmp, P.dml)
    P.next_free, P.max_free, P.n_free, P.last_word = w(P.dmp, 4)
    claim('row keys', P.rkp, P.nrk)
    claim('column keys', P.ckp, P.nck)
    P.row_keys = [x.decode().strip() for x in ws(P.rkp, P.nrk)] if P.nrk else []
    P.col_keys = [x.decode().strip() for x in ws(P.ckp, P.nck)] if P.nck else []
    P.file_heads = {}
    if P.nfh:
        names = [x.decode() for x in ws(P.fkp, P.nfh)]
        lens = w(P.fkp + P.nfh, P.nfh)
        types = w(P.fkp + 2 * P.nfh, P.nfh)
        at = P.fkp + 3 * P.nfh
        for nme, ln, ty in zip(names, lens, types):
            if w(at)[0] != ln:
                raise Bad(f'file header {nme}: length word {w(at)[0]} != {ln}')
            P.file_heads[nme] = (ty, at + 1, ln)
            at += 1 + ln
        claim('file headers', P.fkp, at - P.fkp)

    def heads(at, n, keys):
        out = []
        for k in range(n):
            a = at + k * (len(keys) + 1)
            flag = w(a)[0]
            if flag == MISS:
                out.append(None)
                continue
            if flag != -MISS:
                raise Bad(f'header flag {flag}')
            h = {}
            for j, key in enumerate(keys):
                h[key] = (ws(a + 1 + j)[0].decode('latin-1') if key in STRKEYS
                          else w(a + 1 + j)[0])
            out.append(h)
        return out
    claim('row headers', P.rhp, P.nr * (P.nrk + 1))
    claim('column headers', P.chp, P.nc * (P.nck + 1))
    P.rows = heads(P.rhp, P.nr, P.row_keys) if P.nr else []
    P.cols = heads(P.chp, P.nc, P.col_keys) if P.nc else []
    names = [x.decode().strip() for x in ws(P.pp, P.np)]
    hl = w(P.pp + P.np, P.np)
    ty = w(P.pp + 2 * P.np, P.np)
    cn = w(P.pp + 3 * P.np, P.np)
    at = P.pp + 4 * P.np
    attr = []
    tot = sum(cn)
    for k in range(4):
        attr.append([x.decode().strip() for x in ws(at, tot)] if k == 0
                    else list(w(at, tot)) if tot else [])
        at += tot
    claim('parts', P.pp, at - P.pp)
    P.parts = []
    o = 0
    for k in range(P.np):
        P.parts.append(Part(names[k], hl[k], ty[k],
                            [tuple(attr[m][o + j] for m in range(4)) for j in range(cn[k])]))
        o += cn[k]
    ntab = P.nr * P.nc * P.np
    claim('pointer table', P.dbp, ntab)
    P.cells = {}
    P.raw = {}
    end = max(b for _a, b, _n in regions) + 1
    for r in range(P.nr):
        for c in range(P.nc):
            for p in range(P.np):
                ptr = w(P.dbp + (r * P.nc + c) * P.np + p)[0]
                if ptr == 0:
                    continue
                if ptr < 0:
                    raise Bad(f'negative data pointer {ptr}')
                ln = w(ptr)[0]
                if ln < P.parts[p].header:
                    raise Bad(f'data length {ln} shorter than its header')
                claim(f'data({r},{c},{p})', ptr, ln + 1)
                P.cells[(r, c, p)] = (ptr, ln)
                P.raw[(r, c, p)] = data[4 * ptr: 4 * (ptr + ln)]
                end = max(end, ptr + ln + 1)
    regions.sort()
    for (a1, b1, n1), (a2, b2, n2) in zip(regions, regions[1:]):
        if a2 <= b1:
            raise Bad(f'{n1} [{a1},{b1}] overlaps {n2} [{a2},{b2}]')
    P.regions = regions
    P.end_of_data = end
    P.nwords = nwords
    P.w, P.wf, P.ws = w, wf, ws
    P.e = e
    return P
