"""C29: structure and buffer readers read what was written and advance exactly."""
import io
import struct

import numpy as np

from contracts import iobuffer
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.tools.IOBuffer.' + f for f in (
    '__init__', 'fromfile', 'reset', 'set_mark', 'jump_to', 'offset_from', 'clear_marks',
    'splice', 'read_struct', 'read_func', 'read_ascii', 'read_binary', 'read_int', 'read_array',
    'read', 'get_next', 'skip', 'check_remains', 'truncate', 'at_end', '__getitem__',
    '__len__')]
NS = ['gempakio.tools.NamedStruct.' + f for f in (
    '__init__', 'size', '_create', 'make_tuple', 'unpack', 'unpack_from', 'unpack_file', 'pack')]
TRUSTED = ['assumed contracts of struct, int.from_bytes, numpy.frombuffer and bytearray slicing '
           '(pyvc.bytesm)']
ASSUMPTIONS = ['the offset is not negative (jumps go to marked places or forward)',
               'truncate is asked to remove at least one byte',
               'a 32-bit real unpacks to the real that was packed']
BOUNDED = ['NamedStruct: structures of up to 4 fields (every pattern of named, converted and '
           'unnamed fields, any values), proved within that bound: ' + ', '.join(NS)]


def proofs(tier):
    n = 4 if tier == 'quick' else 5
    return [Task('IOBuffer reads', lambda dl: iobuffer.run('reads', iobuffer.body_reads, dl),
                 functions=FUNCTIONS),
            Task('IOBuffer typed reads', lambda dl: iobuffer.run(
                'typed', iobuffer.body_typed, dl), functions=FUNCTIONS),
            Task('IOBuffer marks and state', lambda dl: iobuffer.run(
                'marks', iobuffer.body_marks, dl), functions=FUNCTIONS),
            Task('NamedStruct', lambda dl: iobuffer.run(
                'struct', iobuffer.struct_body(n, '>'), dl) + iobuffer.run(
                'bytes', iobuffer.struct_bytes, dl), functions=NS,
                bounded=f'structures of up to {n} fields')]


MONITOR_SECONDS = 10
MONITORS = ['structs', 'buffers']
CODES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'f': 4, 'q': 8, 'd': 8}


def value(rng, code):
    if code in 'fd':
        return rng.choice([0.0, 1.5, -2.25, float(rng.randint(-10**6, 10**6))])
    n = 8 * CODES[code]
    lo, hi = (-2**(n - 1), 2**(n - 1) - 1) if code.islower() else (0, 2**n - 1)
    return rng.choice([lo, hi, 0 if lo <= 0 else lo, rng.randint(lo, hi)])


CONVS = [('double', lambda x: x * 2), ('str', str), ('neg', lambda x: -x), ('tuple', lambda x: (x,))]
BCONVS = [('decode', lambda b: b.split(b'\0')[0].decode('latin-1')), ('len', len)]


def layout(rng):
    """Structure definition, field values, their bytes."""
    pre = rng.choice(['>', '<', '=', ''])
    info, vals, convs = [], {}, {}
    out = b''
    every = rng.random() < .2
    n = rng.randint(1, 8)
    for i in range(n):
        if rng.random() < .2 and not every and not (i == n - 1 and not vals):
            k = rng.randint(1, 5)
            info.append((None, f'{k}x'))
            out += bytes(k)
            continue
        name = f'f{i}'
        if rng.random() < .25:
            k = rng.randint(1, 9)
            fmt = f'{k}s'
            v = bytes(rng.randrange(256) for _ in range(rng.randint(0, k)))
            cs = BCONVS
            enc = v.ljust(k, b'\0')
            vals[name] = (v, enc)
        else:
            fmt = rng.choice(list(CODES if pre != '' else 'bB'))
            v = value(rng, fmt)
            cs = CONVS
            enc = struct.pack((pre or '@') + fmt, v)
            vals[name] = (v, v)
        out += enc
        if every or rng.random() < .4:
            cname, c = rng.choice(cs)
            info.append((name, fmt, c))
            convs[name] = (cname, c)
        else:
            info.append((name, fmt))
    if not vals:
        return layout(rng)
    return pre, info, vals, convs, out


def structs(rng, log):
    from gempakio.tools import IOBuffer, NamedStruct
    while log.more():
        pre, info, vals, convs, raw = layout(rng)
        case = {'prefix': pre, 'layout': [(i[0], i[1], convs.get(i[0], ('-',))[0])
                                          for i in info],
                'values': {k: repr(v[0]) for k, v in vals.items()}}
        with limit(5, 'NamedStruct', case):
            try:
                s = NamedStruct(info, pre, rng.choice([None, 'Thing']))
                b = s.pack(**{k: v[0] for k, v in vals.items()})
            except Exception as e:  # noqa: BLE001
                raise Fail(f'NamedStruct raised {type(e).__name__}: {e}', case) from None
            if b != raw:
                raise Fail(f'packs to {b.hex()}, layout says {raw.hex()}', case)
            if s.size != len(raw):
                raise Fail(f'size {s.size}, layout holds {len(raw)} bytes', case)
            want = {k: (convs[k][1](v[1]) if k in convs else v[1]) for k, v in vals.items()}
            off = rng.randint(0, 7)
            junk = rng.randbytes(off)
            tail = rng.randbytes(rng.randint(0, 4))
            buf = IOBuffer(junk + b + tail)
            buf.skip(off)
            fobj = io.BytesIO(b + tail)
            for how, t in (('unpack', s.unpack(b)),
                           ('unpack_from', s.unpack_from(junk + b + tail, off)),
                           ('unpack_file', s.unpack_file(fobj)),
                           ('read_struct', buf.read_struct(s))):
                got = t._asdict()
                if got != want or list(got) != list(vals):
                    raise Fail(f'{how} of the packed bytes gives {got!r}, expected {want!r}',
                               case)
            if fobj.tell() != len(b):
                raise Fail(f'unpack_file read {fobj.tell()} bytes of {len(b)}', case)
            if buf._offset != off + len(b):
                raise Fail(f'read_struct advanced {buf._offset - off} bytes of {len(b)}', case)
        log.case((pre, str(case['layout']), str(case['values'])), True, case)


def buffers(rng, log):
    from gempakio.tools import IOBuffer, NamedStruct
    st = NamedStruct([('a', 'i'), ('b', 'h'), ('c', '3s')], '>', 'S')
    while log.more():
        n = rng.choice([0, 1, 5, 40, 200])
        data = bytes(rng.randrange(128) for _ in range(n))
        buf = IOBuffer.fromfile(io.BytesIO(data)) if rng.random() < .5 else IOBuffer(data)
        pos, marks = 0, {}
        hist = []
        case = {'data': data.hex(), 'history': hist}
        for _ in range(rng.choice([3, 10, 40])):
            left = len(data) - pos
            op = rng.choice(['read', 'next', 'skip', 'mark', 'jump', 'binary', 'array', 'int',
                             'ascii', 'struct', 'func', 'from', 'all', 'remains', 'reset',
                             'item', 'splice', 'truncate', 'rawstruct'])
            want = got = None
            with limit(5, op, case):
                if op in ('read', 'next', 'ascii', 'func'):
                    k = rng.randint(0, max(left, 0) + (3 if op in ('read', 'next') else 0))
                    hist.append(f'{op}({k})')
                    want = data[pos:pos + k]
                    if op == 'read':
                        got = bytes(buf.read(k))
                        pos += len(want)
                    elif op == 'next':
                        got = bytes(buf.get_next(k))
                    elif op == 'ascii':
                        got = buf.read_ascii(k)
                        want = want.decode('ascii')
                        pos += k
                    else:
                        got = buf.read_func(lambda b: ('f', bytes(b)), k)
                        want = ('f', want)
                        pos += k
                        if rng.random() < .2:
                            try:
                                buf.read_func(lambda b: 1 / 0, 1)
                            except ZeroDivisionError:
                                pass
                elif op == 'all':
                    if rng.random() < .9:
                        continue
                    hist.append('read()')
                    got, want = bytes(buf.read()), data[pos:]
                    pos += len(want)
                elif op == 'skip':
                    k = rng.randint(0, max(left, 0))
                    hist.append(f'skip({k})')
                    buf.skip(k)
                    pos += k
                elif op == 'mark':
                    m = buf.set_mark()
                    hist.append(f'set_mark() -> {m}')
                    if m in marks:
                        raise Fail(f'mark {m} handed out twice', case)
                    marks[m] = pos
                elif op == 'jump' and marks:
                    m = rng.choice(list(marks))
                    k = rng.choice([0, 0, rng.randint(0, max(0, len(data) - marks[m]))])
                    hist.append(f'jump_to({m}, {k})')
                    buf.jump_to(m, k) if k else buf.jump_to(m)
                    pos = marks[m] + k
                elif op == 'from' and marks:
                    m = rng.choice(list(marks))
                    hist.append(f'offset_from({m})')
                    got, want = buf.offset_from(m), pos - marks[m]
                elif op == 'binary':
                    c = rng.choice(list('bBhHiIfqd'))
                    o = rng.choice(['<', '>', '=', '!'])
                    k = rng.randint(0, max(0, left // CODES[c]))
                    hist.append(f'read_binary({k}, {o + c})')
                    if c == 'B':
                        got, want = bytes(buf.read_binary(k, o + c)), data[pos:pos + k]
                    else:
                        got = buf.read_binary(k, o + c)
                        want = list(struct.unpack(f'{o}{k}{c}', data[pos:pos + k * CODES[c]]))
                        got, want = repr(got), repr(want)
                    pos += k * CODES[c]
                elif op == 'array':
                    c = rng.choice(['>f4', '<i4', '>i2', 'u1', '>f8'])
                    z = np.dtype(c).itemsize
                    k = rng.randint(0, max(0, left // z))
                    if k == 0:
                        continue
                    hist.append(f'read_array({k}, {c})')
                    got = buf.read_array(k, c).tobytes()
                    want = data[pos:pos + k * z]
                    pos += k * z
                elif op == 'int':
                    k = rng.randint(0, min(8, max(left, 0)))
                    e, s = rng.choice(['big', 'little']), rng.random() < .5
                    hist.append(f'read_int({k}, {e}, {s})')
                    got = buf.read_int(k, e, s)
                    want = int.from_bytes(data[pos:pos + k], e, signed=s)
                    pos += k
                elif op == 'struct' and left >= 9:
                    hist.append('read_struct')
                    got = tuple(buf.read_struct(st))
                    want = struct.unpack('>ih3s', data[pos:pos + 9])
                    pos += 9
                elif op == 'rawstruct' and left >= 6:
                    hist.append('read_struct(Struct)')
                    got = buf.read_struct(struct.Struct('<ih'))
                    want = struct.unpack('<ih', data[pos:pos + 6])
                    pos += 6
                elif op == 'remains':
                    k = rng.choice([left, left + 1, 0, max(0, left - 1)])
                    hist.append(f'check_remains({k})')
                    got, want = buf.check_remains(k), len(data[pos:]) == k
                elif op == 'reset' and rng.random() < .15:
                    hist.append('reset()')
                    buf.reset()
                    pos, marks = 0, {}
                elif op == 'item' and data:
                    i = rng.randrange(len(data))
                    hist.append(f'[{i}]')
                    got, want = buf[i], data[i]
                elif op == 'splice' and marks and rng.random() < .2:
                    m = rng.choice(list(marks))
                    new = bytes(rng.randrange(128) for _ in range(rng.randint(0, 20)))
                    hist.append(f'splice({m}, {new.hex()})')
                    buf.splice(m, new)
                    pos = marks[m]
                    data = data[:pos] + new
                    marks = {a: b for a, b in marks.items() if b <= len(data)}
                elif op == 'truncate' and rng.random() < .2 and left > 1:
                    k = rng.randint(1, left)
                    hist.append(f'truncate({k})')
                    buf.truncate(k)
                    data = data[:-k]
                    marks = {a: b for a, b in marks.items() if b <= len(data)}
                else:
                    continue
            if got != want:
                raise Fail(f'{hist[-1]} gave {got!r:.200}, expected {want!r:.200}', case)
            if buf._offset != pos:
                raise Fail(f'after {hist[-1]} the position is {buf._offset}, expected {pos}',
                           case)
            if buf.at_end() != (pos >= len(data)) or len(buf) != len(data):
                raise Fail(f'after {hist[-1]} at_end is {buf.at_end()} and length {len(buf)} at '
                           f'{pos} of {len(data)}', case)
            for m, p in marks.items():
                if buf.offset_from(m) != pos - p:
                    raise Fail(f'after {hist[-1]} mark {m} moved', case)
        log.case((data, tuple(hist)), bool(hist), case)
