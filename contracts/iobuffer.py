"""C29: IOBuffer reads exactly the next bytes and advances by their size; marks and jumps.

State: buffer of any length N and content, offset o >= 0, any list of marks.  Every method is
proved from an arbitrary state (so every sequence of operations is covered):
    read(n)         : data[o:o+n] (what remains when fewer), offset' = o + len(result)
    get_next(n)     : same bytes, offset' = o
    read_struct(S)  : S.unpack_from(data, o), offset' = o + S.size
    read_func(f, n) : f(data[o:o+n]), offset' = o + n; offset' = o when f raises
    read_array      : count items of dtype from o, offset' = o + count*itemsize
    read_binary     : num items of the code from o, offset' = o + num*size
    read_int        : the integer of the next size bytes, offset' = o + size
    set_mark / jump_to / offset_from / clear_marks / reset
    skip, at_end, check_remains, truncate, splice, __len__, __getitem__
"""
import z3

from pyvc.bytesm import Raw, SBytes, known, register
from pyvc.core import (Ctx, SInt, SReal, Sym, is_sym, mkbool, mknot, sand, simplies, sor, val_eq)
from pyvc.interp import Interp
from pyvc.models import Models, SSeq, SStr


def state(c):
    import gempakio.tools as T
    N = SInt.var('N')
    o = SInt.var('o')
    c.assume(N >= 0)
    c.assume(o >= 0)
    b = object.__new__(T.IOBuffer)
    b._data = SBytes.arbitrary('data', N, bytearray)
    b._offset = o
    m = SInt.var('marks')
    c.assume(m >= 0)
    f = z3.Function('mark', z3.IntSort(), z3.IntSort())
    b._bookmarks = SSeq(m, lambda i: SInt.of(f(i.t if is_sym(i) else z3.IntVal(i))))
    c.inputs = {'N': N.t, 'o': o.t}
    return b, N, o, m


def is_view(r, start, n):
    """r is exactly the n bytes of the buffer from start."""
    if isinstance(r, (bytes, bytearray)):
        return sand(len(r) == 0, n == 0)
    if not isinstance(r, SBytes):
        return False
    if not r.segs:
        return n == 0
    if len(r.segs) != 1 or not isinstance(r.segs[0], Raw) or r.segs[0].base != 'data':
        return False
    s = r.segs[0]
    return sand(s.length == n, sor(n == 0, s.start == start))


def frame(c, b, N, o2, m, tag):
    """Nothing but the offset changed."""
    c.oblige(f'{tag}.offset', b._offset == o2)
    c.oblige(f'{tag}.data_kept', is_view(b._data, 0, N))
    i = SInt.var('gm')
    f = z3.Function('mark', z3.IntSort(), z3.IntSort())
    bm = b._bookmarks
    ok = False
    if isinstance(bm, SSeq):
        ok = sand(bm.length == m, simplies(sand(i >= 0, i < m), bm.item(i) == SInt.of(f(i.t))))
    c.oblige(f'{tag}.marks_kept', ok)
    c.oblige(f'{tag}.attributes', set(b.__dict__) == {'_data', '_offset', '_bookmarks'})
    c.cover(tag)


class Boom(Exception):
    pass


class AnyStruct:
    def __init__(self, size, calls):
        self.size, self.calls = size, calls

    def unpack_from(self, data, offset=0):
        self.calls.append((data, offset))
        return 'unpacked'


def body_reads(c):
    import gempakio.tools as T
    it = Interp(register(Models()))
    b, N, o, m = state(c)
    op = c.choose(['read', 'read_all', 'get_next', 'get_all', 'read_struct', 'read_func',
                   'read_func_raises', 'read_ascii', 'skip', 'skip_all'])
    n = SInt.var('n')
    c.assume(n >= 0)
    rem = SInt.of(z3.If(o.t < N.t, N.t - o.t, z3.IntVal(0)))
    got = SInt.of(z3.If(n.t < rem.t, n.t, rem.t))
    call = lambda nm, *a: it.call(it.getattr(b, nm), a)  # noqa: E731
    if op == 'read':
        r = call('read', n)
        c.oblige('read.bytes', is_view(r, o, got))
        frame(c, b, N, o + got, m, op)
    elif op == 'read_all':
        r = call('read')
        c.oblige('read_all.bytes', is_view(r, o, rem))
        frame(c, b, N, o + rem, m, op)
    elif op == 'get_next':
        r = call('get_next', n)
        c.oblige('get_next.bytes', is_view(r, o, got))
        frame(c, b, N, o, m, op)
    elif op == 'get_all':
        r = call('get_next')
        c.oblige('get_all.bytes', is_view(r, o, rem))
        frame(c, b, N, o, m, op)
    elif op == 'read_struct':
        sz = SInt.var('size')
        c.assume(sz >= 0)
        calls = []
        r = call('read_struct', AnyStruct(sz, calls))
        c.oblige('read_struct.result', r == 'unpacked' and len(calls) == 1)
        c.oblige('read_struct.from_offset', sand(is_view(calls[0][0], 0, N), calls[0][1] == o))
        frame(c, b, N, o + sz, m, op)
    elif op == 'read_func':
        seen = []
        r = call('read_func', lambda d: (seen.append(d), 'value')[1], n)
        c.oblige('read_func.result', r == 'value' and len(seen) == 1)
        c.oblige('read_func.bytes', is_view(seen[0], o, got))
        frame(c, b, N, o + n, m, op)
    elif op == 'read_func_raises':
        def f(_d):
            raise Boom
        try:
            call('read_func', f, n)
            c.oblige('read_func.raises', False)
        except Boom:
            pass
        frame(c, b, N, o, m, op)
    elif op == 'read_ascii':
        r = call('read_ascii', n)
        want = SBytes([Raw('data', o, got)]).decode('ascii')
        c.oblige('read_ascii.text', val_eq(r, want) if isinstance(r, SStr) else
                 sand(r == '', got == 0))
        frame(c, b, N, o + got, m, op)
    elif op == 'skip':
        call('skip', n)
        frame(c, b, N, o + n, m, op)
    else:
        call('skip', None)
        frame(c, b, N, N, m, op)


def body_typed(c):
    import numpy as np
    import struct
    it = Interp(register(Models()))
    b, N, o, m = state(c)
    op = c.choose(['int', 'array', 'binary', 'binary_B'])
    call = lambda nm, *a: it.call(it.getattr(b, nm), a)  # noqa: E731
    raw = Raw('data', 0, N)
    if op == 'int':
        size = c.choose([1, 2, 4, 8])
        endian = c.choose(['little', 'big'])
        signed = c.choose([True, False])
        c.assume(o + size <= N)
        r = call('read_int', size, endian, signed)
        code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}[size]
        code = code if signed else code.upper()
        c.oblige('read_int.value', r == raw.field(o, code, '>' if endian == 'big' else '<'))
        frame(c, b, N, o + size, m, 'read_int')
    elif op == 'array':
        dt = c.choose(['<f4', '>f4', '<i4', '>i4', '<f8', '>i2'])
        cnt = SInt.var('count')
        c.assume(cnt >= 0)
        sz = int(dt[2])
        c.assume(o + cnt * sz <= N)
        r = call('read_array', cnt, dt)
        i = SInt.var('i')
        c.assume(sand(i >= 0, i < cnt))
        code = {'f4': 'f', 'f8': 'd', 'i4': 'i', 'i2': 'h'}[dt[1:]]
        c.oblige('read_array.length', r.shape[0] == cnt)
        c.oblige('read_array.item', r.at(i) == raw.field(o + i * sz, code, dt[0]))
        c.oblige('read_array.dtype', r.dtype == np.dtype(dt))
        frame(c, b, N, o + cnt * sz, m, 'read_array')
    elif op == 'binary':
        code = c.choose(['<f', '>f', '<i', '>i', '>h', '<d', 'i', '=H'])
        cnt = SInt.var('count')
        c.assume(cnt >= 0)
        sz = struct.calcsize(code)
        endian = code[0] if len(code) > 1 and code[0] in '<>' else '<'
        c.assume(o + cnt * sz <= N)
        r = call('read_binary', cnt, code)
        i = SInt.var('i')
        c.assume(sand(i >= 0, i < cnt))
        c.oblige('read_binary.length', r.length == cnt)
        c.oblige('read_binary.item', r.item(i) == raw.field(o + i * sz, code[-1], endian))
        frame(c, b, N, o + cnt * sz, m, 'read_binary')
    else:
        cnt = SInt.var('count')
        c.assume(cnt >= 0)
        c.assume(o + cnt <= N)
        r = call('read_binary', cnt)
        c.oblige('read_binary.bytes', is_view(r, o, cnt))
        frame(c, b, N, o + cnt, m, 'read_binary_B')


def body_marks(c):
    import gempakio.tools as T
    it = Interp(register(Models()))
    b, N, o, m = state(c)
    op = c.choose(['set_mark', 'jump_to', 'offset_from', 'clear', 'reset', 'round', 'at_end',
                   'remains', 'len', 'getitem', 'truncate', 'splice', 'init', 'fromfile'])
    call = lambda nm, *a: it.call(it.getattr(b, nm), a)  # noqa: E731
    f = z3.Function('mark', z3.IntSort(), z3.IntSort())
    k, d, i = SInt.var('k'), SInt.var('d'), SInt.var('i')
    if op == 'set_mark':
        r = call('set_mark')
        bm = b._bookmarks
        c.oblige('set_mark.id', r == m)
        c.oblige('set_mark.length', bm.length == m + 1)
        c.oblige('set_mark.value', bm.item(m) == o)
        c.oblige('set_mark.others', simplies(sand(i >= 0, i < m), bm.item(i) == SInt.of(f(i.t))))
        c.oblige('set_mark.offset', b._offset == o)
        c.oblige('set_mark.data', is_view(b._data, 0, N))
    elif op == 'jump_to':
        c.assume(sand(k >= 0, k < m))
        form = c.choose(['plain', 'offset'])
        call('jump_to', k, *([d] if form == 'offset' else []))
        want = SInt.of(f(k.t)) + (d if form == 'offset' else 0)
        frame(c, b, N, want, m, 'jump_to')
    elif op == 'offset_from':
        c.assume(sand(k >= 0, k < m))
        r = call('offset_from', k)
        c.oblige('offset_from.value', r == o - SInt.of(f(k.t)))
        frame(c, b, N, o, m, 'offset_from')
    elif op == 'clear':
        call('clear_marks')
        c.oblige('clear.marks', len(b._bookmarks) == 0 if isinstance(b._bookmarks, list)
                 else b._bookmarks.length == 0)
        c.oblige('clear.rest', sand(b._offset == o, is_view(b._data, 0, N)))
    elif op == 'reset':
        call('reset')
        c.oblige('reset', sand(b._offset == 0, is_view(b._data, 0, N),
                               isinstance(b._bookmarks, list) and not b._bookmarks))
    elif op == 'round':
        # mark, wander anywhere, come back
        mk = call('set_mark')
        w = SInt.var('w')
        c.assume(w >= 0)
        call('skip', w)
        mk2 = call('set_mark')
        call('jump_to', mk)
        c.oblige('round.back', b._offset == o)
        call('jump_to', mk2)
        c.oblige('round.forward', sand(b._offset == o + w, mk2 == m + 1))
    elif op == 'at_end':
        r = call('at_end')
        want = o >= N
        c.oblige('at_end', sand(simplies(r, want), simplies(want, r)))
        frame(c, b, N, o, m, 'at_end')
    elif op == 'remains':
        n = SInt.var('n')
        c.assume(n >= 0)
        r = call('check_remains', n)
        rem = SInt.of(z3.If(o.t < N.t, N.t - o.t, z3.IntVal(0)))
        want = rem == n
        c.oblige('check_remains', sand(simplies(r, want), simplies(want, r)))
        frame(c, b, N, o, m, 'check_remains')
    elif op == 'len':
        r = it.call(len, (b,))
        c.oblige('len', r == N)
        frame(c, b, N, o, m, 'len')
    elif op == 'getitem':
        a, e = SInt.var('a'), SInt.var('e')
        c.assume(sand(a >= 0, a <= e, e <= N))
        r = it.getitem(b, slice(a, e))
        c.oblige('getitem', is_view(r, a, e - a))
        frame(c, b, N, o, m, 'getitem')
    elif op == 'truncate':
        n = SInt.var('n')
        c.assume(sand(n >= 1, n <= N))
        call('truncate', n)
        c.oblige('truncate.data', is_view(b._data, 0, N - n))
        c.oblige('truncate.offset', b._offset == o)
    elif op == 'splice':
        c.assume(sand(k >= 0, k < m))
        at = SInt.of(f(k.t))
        c.assume(sand(at >= 1, at < N))
        L = SInt.var('L')
        c.assume(L >= 1)
        call('splice', k, SBytes.arbitrary('new', L))
        segs = b._data.segs
        c.oblige('splice.data', len(segs) == 2 and isinstance(segs[0], Raw) and sand(
            segs[0].base == 'data', segs[0].start == 0, segs[0].length == at,
            segs[1].base == 'new', segs[1].start == 0, segs[1].length == L))
        c.oblige('splice.offset', b._offset == at)
    else:
        src = SBytes.arbitrary('data', N)
        if op == 'init':
            x = it.call(T.IOBuffer, (src,))
        else:
            class FileLike:
                def read(self):
                    return src
            x = it.call(it.getattr(T.IOBuffer, 'fromfile'), (FileLike(),))
        c.oblige(f'{op}.data', is_view(x._data, 0, N))
        c.oblige(f'{op}.start', sand(x._offset == 0, isinstance(x._bookmarks, list)
                                     and not x._bookmarks))
        c.oblige(f'{op}.own_copy', x._data.pytype is bytearray)
    c.cover(op)


def run(name, body, deadline=None):
    c = Ctx(name, timeout_ms=10000, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return [c]


# ------------------------------------------------------------------------------------------
# NamedStruct

def conv_of(k):
    f = z3.Function(f'conv{k}', z3.IntSort(), z3.IntSort())
    return lambda v: SInt.of(f(v.t if is_sym(v) else z3.IntVal(v)))


def struct_body(maxf, pref):
    def body(c):
        """Structures of up to maxf fields: named / pad, converter / none, any values."""
        import gempakio.tools as T
        it = Interp(register(Models()))
        nf = c.choose(range(1, maxf + 1))
        info, vals, want = [], {}, []
        for j in range(nf):
            kind = c.choose(['plain', 'conv', 'pad'])
            code = ('i', 'h', 'B', 'f')[j % 4]
            if kind == 'pad':
                info.append((None, '3x'))
                continue
            nm = f'f{j}'
            if code == 'f':
                v = SReal.var(nm)
            else:
                v = SInt.var(nm)
                lo, hi = {'i': (-2**31, 2**31 - 1), 'h': (-2**15, 2**15 - 1),
                          'B': (0, 255)}[code]
                c.assume(sand(v >= lo, v <= hi))
            vals[nm] = v
            if kind == 'conv' and code != 'f':
                cv = conv_of(j)
                info.append((nm, code, cv))
                want.append((nm, cv(v)))
            else:
                info.append((nm, code))
                want.append((nm, v))
        if not vals:
            return
        s = it.call(T.NamedStruct, (info, pref))
        size = it.getattr(s, 'size')
        packed = it.call(it.getattr(s, 'pack'), (), vals)
        c.oblige('pack.size', packed.length == size)
        how = c.choose(['unpack', 'unpack_from', 'unpack_file'])
        if how == 'unpack':
            r = it.call(it.getattr(s, 'unpack'), (packed,))
        elif how == 'unpack_from':
            off = SInt.var('off')
            c.assume(off >= 1)
            buf = SBytes.arbitrary('before', off) + packed + SBytes.arbitrary('after', 5)
            r = it.call(it.getattr(s, 'unpack_from'), (buf, off))
        else:
            class FileLike:
                def read(self, n):
                    return (packed + SBytes.arbitrary('after', 5)).sub(0, n)
            r = it.call(it.getattr(s, 'unpack_file'), (FileLike(),))
        c.oblige(f'{how}.fields', r._fields == tuple(vals))
        for nm, v in want:
            c.oblige(f'{how}.value', val_eq(getattr(r, nm), v))
        c.cover(how)
    return body


def struct_bytes(c):
    """Character fields: exact bytes back, with the converter applied."""
    import gempakio.tools as T
    it = Interp(register(Models()))
    L = c.choose([1, 4, 20])
    info = [('a', 'i'), ('t', f'{L}s', lambda b: ('seen', b)), ('z', 'i')]
    s = it.call(T.NamedStruct, (info, '>'))
    a, z = SInt.var('a'), SInt.var('z')
    c.assume(sand(a >= -2**31, a < 2**31, z >= -2**31, z < 2**31))
    p = it.call(it.getattr(s, 'pack'), (), {'a': a, 't': SBytes.arbitrary('txt', L), 'z': z})
    r = it.call(it.getattr(s, 'unpack'), (p,))
    c.oblige('bytes.value', sand(r.a == a, r.z == z, r.t[0] == 'seen',
                                 len(r.t[1].segs) == 1 and r.t[1].segs[0].base == 'txt'))
    c.cover('bytes')


if __name__ == '__main__':
    import sys
    for nm, b in (('reads', body_reads), ('typed', body_typed), ('marks', body_marks),
                  ('struct', struct_body(3, '>')), ('bytes', struct_bytes)):
        c = run(nm, b)[0]
        bad = [o for o in c.obligations if o.status != 'proved']
        print(c.name, len(c.obligations), 'bad', len(bad), c.paths, round(c.solver_time, 1),
              {k: v for k, v in c.covers.items() if not v})
        for o in bad[:6]:
            print('  ', o.name, o.status, o.detail[:700], (o.model or '')[:300])
