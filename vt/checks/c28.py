"""C28: the byte buffer, structure and ordered-set helpers behave as their models under any sequence of calls."""
import io
import struct
import numpy as np
from gempakio import tools
from gempakio.encode.gempak import GempakStream

ID = 'C28'
LEVEL = 'exploration'
QUICK, THOROUGH = 30000, 450000
RULE = ('each case drives one helper (read buffer, structure, ordered set, output stream) through a random sequence of '
        'operations next to a plain byte-string/list model and compares every result, every error and the position '
        'after it; key = (helper, operation, near the end or not, outcome)')
ASSUMPTIONS = ['sizes are non-negative', 'what is left of a buffer after a read that raised is what was left before']
REQUIRE = {'steps': 200000, 'raised': 15000, 'buffers': 10000, 'structs': 4000, 'sets': 4000, 'streams': 2000}

CODES = [c for c in 'bBhHiIqQfd']


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.asarray(a).tobytes() == np.asarray(b).tobytes() and np.shape(a) == np.shape(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('d', a) == struct.pack('d', b)
    if isinstance(a, (bytes, bytearray, memoryview)):
        return isinstance(b, (bytes, bytearray, memoryview)) and bytes(a) == bytes(b)
    return a == b


class Over(Exception):
    pass


class Unspecified(Exception):
    """nothing asked for beyond the end"""


class Model:
    """A byte string, a position and a list of marks."""

    def __init__(self, data):
        self.d, self.o, self.m = bytes(data), 0, []

    def take(self, n):
        if not n and self.o > len(self.d):
            raise Unspecified
        if self.o + n > len(self.d):
            raise Over
        r = self.d[self.o:self.o + n]
        self.o += n
        return r


def buffer_case(mon, rng):
    data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 16, 60, 200])))
    if rng.random() < 0.5:
        b = mon.must('IOBuffer', tools.IOBuffer, rng.choice([bytes, bytearray])(data))
    else:
        b = mon.must('fromfile', tools.IOBuffer.fromfile, io.BytesIO(data))
    if b is None:
        return
    mon.seen('buffers')
    m = Model(data)
    for _ in range(rng.choice([5, 12, 25])):
        left = max(len(m.d) - m.o, 0)
        n = rng.choice([0, 1, 2, 4, left, left + 1, rng.randint(0, 20)])
        op = rng.choice(['read', 'read', 'rest', 'peek', 'skip', 'mark', 'jump', 'from', 'int', 'binary', 'bytes',
                         'array', 'struct', 'ascii', 'func', 'end', 'remains', 'len', 'item', 'splice', 'truncate', 'reset',
                         'str'])
        e = rng.choice(['<', '>', '=', ''])
        c = rng.choice(CODES)
        count = rng.choice([0, 1, 1, 2, 3])
        at = m.o
        try:
            if op == 'read':
                call, want = (b.read, n), m.take(n)
            elif op == 'rest':
                if rng.random() < 0.7:
                    continue
                call, want = (b.read,), m.d[m.o:]
                m.o = max(m.o, len(m.d))
            elif op == 'peek':
                call, want = (b.get_next, n), m.d[m.o:m.o + n]
            elif op == 'skip':
                call, want = (b.skip, n), None
                m.o += n
            elif op == 'mark':
                call, want = (b.set_mark,), len(m.m)
                m.m.append(m.o)
            elif op == 'jump' and m.m:
                k, d = rng.randrange(len(m.m)), rng.choice([0, 0, 1, 4])
                call, want = (b.jump_to, k, d), None
                m.o = m.m[k] + d
            elif op == 'from' and m.m:
                k = rng.randrange(len(m.m))
                call, want = (b.offset_from, k), m.o - m.m[k]
            elif op == 'int':
                size, sign = rng.choice([1, 2, 4, 8]), rng.random() < 0.5
                end = rng.choice(['little', 'big'])
                call = (b.read_int, size, end, sign)
                want = int.from_bytes(m.take(size), end, signed=sign)
            elif op == 'binary':
                if c == 'B':
                    c = 'b'
                call = (b.read_binary, count, e + c)
                want = list(struct.unpack(f'{e or "@"}{count}{c}', m.take(struct.calcsize(f'{e or "@"}{count}{c}'))))
            elif op == 'bytes':
                call, want = (b.read_binary, n), m.take(n)
            elif op == 'array':
                count = max(count, 1)
                dt = np.dtype(e + c.replace('q', 'i8').replace('Q', 'u8').replace('I', 'u4').replace('i', 'i4')
                              if c not in 'qQ' else e + {'q': 'i8', 'Q': 'u8'}[c])
                call = (b.read_array, count, dt)
                want = np.frombuffer(m.take(count * dt.itemsize), dt)
            elif op == 'struct':
                f = (e or '=') + ''.join(rng.choice(CODES) for _ in range(rng.randint(1, 4)))
                s = struct.Struct(f)
                call, want = (b.read_struct, s), s.unpack(m.take(s.size))
            elif op == 'ascii':
                call = (b.read_ascii, n)
                want = m.take(n)
                if any(x > 127 for x in want):
                    m.o = None  # undecodable: the position is not specified
                else:
                    want = want.decode('ascii')
            elif op == 'func' and rng.random() < 0.4:  # the function itself fails
                _, err = mon.run(b.read_func, lambda x: 1 // 0, n)
                mon.seen('raised')
                if err is None or not isinstance(err.exc, ZeroDivisionError):
                    mon.fail('function-error-lost', f'{err}')
                    return
                call, want = (b.at_end,), m.o >= len(m.d)
            elif op == 'func':
                call, want = (b.read_func, lambda x: bytes(x).hex(), n), m.d[m.o:m.o + n].hex()
                m.o += n
            elif op == 'end':
                call, want = (b.at_end,), m.o >= len(m.d)
            elif op == 'remains':
                call, want = (b.check_remains, n), len(m.d[m.o:]) == n
            elif op == 'len':
                call, want = (len, b), len(m.d)
            elif op == 'item':
                k = rng.randrange(len(m.d) + 2)
                if k < len(m.d) and rng.random() < 0.5:
                    call, want = (b.__getitem__, k), m.d[k]
                else:
                    call, want = (b.__getitem__, slice(k, k + n)), m.d[k:k + n]
            elif op == 'splice' and m.m:
                k = rng.randrange(len(m.m))
                new = bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 30])))
                call, want = (b.splice, k, new), None
                m.o = m.m[k]
                m.d = m.d[:m.o] + new
            elif op == 'truncate':
                k = min(rng.choice([0, 1, 5]), len(m.d) + 1)
                call, want = (b.truncate, k), None
                m.d = m.d[:max(len(m.d) - k, 0)]
            elif op == 'reset':
                if rng.random() < 0.6:
                    continue
                call, want = (b.reset,), None
                m.o, m.m = 0, []
            elif op == 'str':
                call, want = (str, b), f'Size: {len(m.d)} Offset: {m.o}'
            else:
                continue
            over = False
        except Unspecified:
            continue
        except Over:
            want, over = None, True
        if over:
            call = {'read': (b.read, n), 'int': None, 'bytes': (b.read_binary, n)}.get(op)
            if op == 'int':
                call = (b.read_int, size, end, sign)
            elif op == 'binary':
                call = (b.read_binary, count, e + c)
            elif op == 'array':
                call = (b.read_array, count, dt)
            elif op == 'struct':
                call = (b.read_struct, s)
            elif op == 'ascii':
                call = (b.read_ascii, n)
        res, err = mon.run(*call)
        mon.seen('steps')
        desc = f'{op} at {at} of {len(m.d)}, arguments {[str(x)[:40] for x in call[1:]]}'
        mon.key('buffer', op, min(left, 5), over)
        if over:
            mon.seen('raised')
            m.o = at
            if err is None:
                mon.fail('read-past-end', f'{desc}: returned {res!r}')
                return
        elif m.o is None:
            mon.seen('raised')
            if err is None:
                mon.fail('undecodable-text', f'{desc}: returned {res!r}')
            return
        elif err is not None:
            mon.fail('raised', f'{desc}: {err}')
            return
        elif want is not None and not same(res, want):
            mon.fail('result', f'{desc}: {res!r}, expected {want!r}')
            return
        # position and content after the step
        rest, err = mon.run(b.get_next)
        if err or bytes(rest) != m.d[m.o:] or len(b) != len(m.d):
            mon.fail('state', f'after {desc}: {err or bytes(rest)[:20]} expected {m.d[m.o:][:20]}')
            return
        if m.m and rng.random() < 0.3:
            k = rng.randrange(len(m.m))
            off, err = mon.run(b.offset_from, k)
            if err or off != m.o - m.m[k]:
                mon.fail('position', f'after {desc}: {err or off} expected {m.o - m.m[k]}')
                return
    mon.sample = {'helper': 'buffer', 'bytes': len(data), 'end': m.o}


def struct_case(mon, rng):
    e = rng.choice(['<', '>', '='])
    info, fmt, names = [], e, []
    conv = {}
    for k in range(rng.randint(1, 9)):
        r = rng.random()
        if r < 0.15:
            n = rng.randint(1, 5)
            info.append((None, f'{n}x'))
            fmt += f'{n}x'
            continue
        c = rng.choice(CODES + ['4s', '9s', '1s'])
        nm = f'f{k}'
        if r < 0.4:
            fn = rng.choice([repr, lambda v: [v], type])
            conv[len(names)] = fn
            info.append((nm, c, fn))
        else:
            info.append((nm, c))
        names.append(nm)
        fmt += c
    if not names:
        return
    mon.seen('structs')
    s = mon.must('NamedStruct', tools.NamedStruct, info, e, *rng.choice([(), ('Some',)]))
    if s is None:
        return
    ref = struct.Struct(fmt)
    raw = bytes(rng.randrange(256) for _ in range(ref.size))
    vals = ref.unpack(raw)
    want = [conv[k](v) if k in conv else v for k, v in enumerate(vals)]
    pre = bytes(rng.randrange(256) for _ in range(rng.choice([0, 3])))
    ways = [('unpack', s.unpack, (raw,)), ('unpack_from', s.unpack_from, (pre + raw + b'zz', len(pre))),
            ('unpack_file', s.unpack_file, (io.BytesIO(raw + b'more'),)),
            ('read_struct', tools.IOBuffer(raw).read_struct, (s,))]
    for nm, fn, a in ways:
        t, err = mon.run(fn, *a)
        mon.seen('steps')
        mon.key('struct', nm, len(names), bool(conv), len(names) != len(info))
        if err or list(t._fields) != names or not same(list(t), want):
            mon.fail('struct', f'{nm} {info}: {err or t} expected {want}')
            return
    if s.size != ref.size:
        mon.fail('struct-size', (info, s.size, ref.size))
    out, err = mon.run(s.pack, **dict(rng.sample(list(zip(names, vals)), len(names))))
    if err or out != ref.pack(*vals):
        mon.fail('struct-pack', f'{info}: {err or out}')
    short, err = mon.run(s.unpack, raw[:-1])
    mon.seen('raised')
    if err is None:
        mon.fail('struct-short', f'{info}: {short}')
    mon.sample = {'helper': 'struct', 'fields': len(names), 'converters': len(conv)}


def set_case(mon, rng):
    pool = rng.choice([list(range(6)), ['a', 'b', 'c', ('x', 1), None], [1, 1.0, True, 2, 'z']])
    start = [rng.choice(pool) for _ in range(rng.randint(0, 6))]
    s = mon.must('OrderedSet', tools.OrderedSet, *([start] if start or rng.random() < 0.5 else []))
    if s is None:
        return
    mon.seen('sets')
    model = list(dict.fromkeys(start))
    for _ in range(rng.randint(3, 15)):
        x = rng.choice(pool)
        other = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
        op = rng.choice(['add', 'add', 'discard', 'remove', 'in', 'or', 'and', 'sub', 'pop', 'copy', 'eq', 'eqset',
                         'disjoint', 'ior', 'repr', 'le', 'neq'])
        mon.seen('steps')
        mon.key('set', op, x in model, min(len(model), 3))
        want = None
        raises = False
        if op == 'add':
            call = (s.add, x)
            if x not in model:
                model.append(x)
        elif op in ('discard', 'remove'):
            call = (getattr(s, op), x)
            raises = op == 'remove' and x not in model
            model = [y for y in model if y != x]
        elif op == 'in':
            call, want = (s.__contains__, x), x in model
        elif op == 'or':
            call, want = (lambda: list(s | tools.OrderedSet(other)),), list(dict.fromkeys(model + other))
        elif op == 'and':
            call = (lambda: set(s & tools.OrderedSet(other)),)
            want = set(model) & set(other)
        elif op == 'sub':
            call, want = (lambda: list(s - tools.OrderedSet(other)),), [y for y in model if y not in other]
        elif op == 'pop':
            call = (s.pop,)
            raises = not model
        elif op == 'copy':
            call, want = (lambda: list(tools.OrderedSet(s)),), list(model)
        elif op == 'eq':
            call, want = (lambda: s == tools.OrderedSet(model),), True
        elif op == 'neq':
            rev = model[::-1]
            call, want = (lambda: s == tools.OrderedSet(rev),), rev == model
        elif op == 'eqset':
            call, want = (lambda: s == set(other),), set(model) == set(other)
        elif op == 'disjoint':
            call, want = (lambda: s.isdisjoint(other),), not set(model) & set(other)
        elif op == 'ior':
            def call_(s=s, other=other):
                s |= tools.OrderedSet(other)
                return list(s)
            call = (call_,)
            model = list(dict.fromkeys(model + other))
            want = list(model)
        elif op == 'le':
            call, want = (lambda: s <= tools.OrderedSet(other),), set(model) <= set(other)
        else:
            call, want = (repr, s), 'OrderedSet([' + ', '.join(map(repr, model)) + '])'
        res, err = mon.run(*call)
        if raises:
            mon.seen('raised')
            if err is None or not isinstance(err.exc, KeyError):
                mon.fail('set-no-error', f'{op} {x!r} in {model}: {err or res}')
                return
        elif err is not None:
            mon.fail('set-raised', f'{op} {x!r}: {err}')
            return
        elif op == 'pop':
            if res not in model:
                mon.fail('set-pop', f'{res!r} not in {model}')
                return
            model.remove(res)
        elif want is not None and res != want:
            mon.fail('set', f'{op} {x!r} {other} on {model}: {res!r} expected {want!r}')
            return
        if list(s) != model or len(s) != len(model):
            mon.fail('set-state', f'after {op} {x!r}: {list(s)} expected {model}')
            return
    mon.sample = {'helper': 'set', 'items': len(model)}


def stream_case(mon, rng):
    st = mon.must('GempakStream', GempakStream)
    if st is None:
        return
    mon.seen('streams')
    d, o = bytearray(), 0

    def put(raw):
        nonlocal o
        if len(d) < o:
            d.extend(bytes(o - len(d)))
        d[o:o + len(raw)] = raw
        o += len(raw)
    for _ in range(rng.randint(2, 15)):
        op = rng.choice(['int', 'float', 'str', 'jump', 'word', 'struct'])
        if op == 'int':
            v = rng.choice([0, -1, -9999, 2 ** 31 - 1, -2 ** 31, rng.randint(-9999, 9999)])
            call, raw = (st.write_int, v), struct.pack('<i', v)
        elif op == 'float':
            v = rng.choice([0.0, -9999.0, 1e-30, rng.uniform(-1e6, 1e6)])
            call, raw = (st.write_float, v), struct.pack('<f', v)
        elif op == 'str':
            v = ''.join(rng.choice('ABC12 ') for _ in range(rng.randint(0, 4)))
            call, raw = (st.write_string, v), v.ljust(4).encode()
        elif op == 'struct':
            v = rng.randint(0, 99)
            s = tools.NamedStruct([('a', 'i'), ('b', '4s'), ('c', 'f')], '<', 'T')
            call, raw = (lambda s=s, v=v: st.write_struct(s, c=1.5, a=v, b=b'WXYZ'),), struct.pack('<i4sf', v, b'WXYZ', 1.5)
        elif op == 'jump':
            w = rng.randint(1, 40)
            call, raw, o = (st.jump_to, w), b'', 4 * (w - 1)
        else:
            call, raw = (st.word,), b''
        res, err = mon.run(*call)
        mon.seen('steps')
        mon.key('stream', op)
        if err:
            mon.fail('stream-raised', f'{op}: {err}')
            return
        if op == 'word' and res != o // 4 + 1:
            mon.fail('stream-word', f'{res} at byte {o}')
            return
        if raw:
            put(raw)
        if bytes(st.getbuffer()) != bytes(d) or st.tell() != o:
            mon.fail('stream-bytes', f'after {op}: {bytes(st.getbuffer())[-12:]} expected {bytes(d)[-12:]}, at {st.tell()} expected {o}')
            return
    over = rng.choice([2 ** 31, -2 ** 31 - 1])
    _, err = mon.run(st.write_int, over)
    mon.seen('raised')
    if err is None or bytes(st.getbuffer()) != bytes(d):
        mon.fail('stream-overflow', over)
    mon.sample = {'helper': 'stream', 'bytes': len(d)}


def case(mon, rng, i, tier):
    (buffer_case, buffer_case, buffer_case, struct_case, set_case, stream_case)[i % 6](mon, rng)
