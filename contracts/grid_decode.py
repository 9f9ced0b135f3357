"""C03 (and the callers' half of C02): GempakGrid._unpack_grid.

For every grid size, bit width 1..31, missing flag, reference, scale, minimum difference and every
word content, a difference-packed grid is decoded point by point: with FIELD(p) the bits-wide field
at bit p * bits of the big-endian word stream (p = j * kx + i) and MISS(p) the missing flag and all
ones,
    VAL(p) = reference                              if no point before p is non-missing
           = VAL(last(p)) + (diffmin + FIELD*scale)  if p's row has a non-missing point before p
           = VAL(lead(p)) + (diffmin + FIELD*scale)  otherwise
with last(p) the last non-missing point before p and lead(p) the first non-missing point of the
nearest earlier row that has one.  Unpacked grids are the stored reals; bit-packed grids pass their
own bits, count, reference, scale and missing value to _unpack_grib (whose contract is C02), and
the other packings are refused.
"""
import ctypes
import struct
import types

import numpy as np
import z3

from contracts.real_decode import Word, c_int32, zi
from pyvc.core import (Ctx, SBool, SBV, SInt, SReal, is_sym, ite, mkbool, mknot, sand, simplies,
                       sor)
from pyvc.interp import Interp, LoopContract
from pyvc.models import Models, Num, SFmt, SSeq
from pyvc.nparr import SArr, bvval

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
WORD = z3.Function('gword', I, z3.BitVecSort(32))
REALS = z3.Function('greal', I, R)
FIRST = z3.Function('FIRST', I, B)      # no non-missing point before p
LINE = z3.Function('LINE', I, I, B)     # row j has a non-missing point before column i
LAST = z3.Function('last', I, I)        # the last non-missing point before p
LEAD = z3.Function('lead', I, I)        # first non-missing point of the nearest row with one
MISS = z3.Function('MISS', I, B)
VAL = z3.Function('VAL', I, R)


def word(k):
    return Word(z3.SignExt(32, WORD(zi(k))), True)


class Sym2:
    def __init__(self, fmt):
        self.fmt = fmt


class Stream:
    """IOBuffer at the start of a grid's data block (contract of IOBuffer.read_struct: C29)."""

    def __init__(self, prefmt, ints, reals):
        self.prefmt, self.ints, self.reals = prefmt, ints, reals
        self.at = 0
        self.headed = []

    def read_struct(self, s):
        if isinstance(s, Sym2):
            p = s.fmt.parts if isinstance(s.fmt, SFmt) else [s.fmt]
            head = p[0] if isinstance(p[0], str) else ''
            rest = p[1:] if isinstance(p[0], str) else p
            assert (head in ('>', '!')) == (self.prefmt == '>'), 'byte order of the data'
            n, code = rest
            n = n.term if isinstance(n, Num) else n
            if not isinstance(n, SInt):
                n = SInt.of(n) if not isinstance(n, int) else n
            at = self.at
            self.at = at + n
            assert code in ('i', 'f')
            if code == 'i':
                return SSeq(n, lambda i: word(at + i), tuple)
            return SSeq(n, lambda i: SReal(REALS(zi(at + i))), tuple)
        fmt = s._struct.format
        assert (fmt[:1] in '>!') == (self.prefmt == '>'), 'byte order of the data'
        vals = []
        for code in fmt.lstrip('<>=@'):
            vals.append((self.ints if code == 'i' else self.reals)[self.at])
            self.at += 1
        return s.make_tuple(*vals)


def field(p_words, r, b):
    """The b bits from bit r (most significant first) of word p_words on."""
    hi = z3.ZeroExt(32, WORD(zi(p_words)))
    lo = z3.ZeroExt(32, WORD(zi(p_words + 1)))
    return SBV(z3.simplify(z3.LShR((hi << 32) | lo, 64 - r - b) & z3.BitVecVal(2**b - 1, 64)),
               True)


def zb(f, p):
    return mkbool(f(zi(p)))


class State(LoopContract):
    """The decoder's state before point p (row loop: p = j * kx; column loop: p = j * kx + i)."""

    def __init__(self, h, row):
        self.h, self.row = h, row

    names = base = ('grid', 'iword', 'ibit', 'first')

    def applies(self, f, interp):
        return all(n in f.locals for n in self.base) and (
            ('line' not in f.locals) if self.row else 'line' in f.locals)

    def p(self, k):
        return k * self.h.kx if self.row else self.h.j * self.h.kx + k

    def line(self, k):
        return LINE(zi(self.h.j), zi(k))

    def inv(self, f, interp, seq, k):
        h, L = self.h, f.locals
        p = self.p(k)
        out = [('bit position', L['iword'] * 32 + L['ibit'] == p * h.bits + 1),
               ('bit in word', sand(L['ibit'] >= 1, L['ibit'] <= 32)),
               ('first', mkbool(FIRST(zi(p)) == zbool(L['first']))),
               ('decoded', simplies(h.gp < p, L['grid'].at(h.gj, h.gi) == SReal(VAL(zi(h.gp))))),
               ('range', sand(seq.length == (h.ky if self.row else h.kx)))]
        if not self.row:
            out.append(('line', mkbool(self.line(k) == zbool(L['line']))))
            out.append(('line has points', mkbool(z3.Implies(self.line(k), z3.Not(FIRST(zi(p)))))))
        bound = sand('psav' in L, 'plin' in L)
        out.append(('predecessor', sor(zb(FIRST, p), bound)))
        if bound:
            out.append(('last', simplies(mknot(zb(FIRST, p)),
                                         L['psav'] == SReal(VAL(LAST(zi(p)))))))
            out.append(('lead', simplies(mknot(zb(FIRST, p)),
                                         L['plin'] == SReal(VAL(LEAD(zi(p)))))))
        return out

    def havoc(self, f, interp, seq, k):
        h, L, c = self.h, f.locals, self.h.c
        p = self.p(k)
        nm = 'row' if self.row else 'col'
        g = z3.Function(f'havoc_{nm}', I, I, R)
        L['grid'] = SArr((h.ky, h.kx), np.float32, lambda j, i: SReal(g(zi(j), zi(i))))
        L['iword'] = SInt.var(f'iword_{nm}')
        L['ibit'] = SInt.var(f'ibit_{nm}')
        if self.row:
            L['first'] = mkbool(FIRST(zi(p)))
            L['psav'] = SReal(VAL(LAST(zi(p))))
            L['plin'] = SReal(VAL(LEAD(zi(p))))
            return
        state = c.choose(['first', 'line', 'new line'])
        first, line = state == 'first', state == 'line'
        c.assume(mkbool(FIRST(zi(p))) if first else mknot(mkbool(FIRST(zi(p)))))
        L['first'] = first
        if first:
            L.pop('psav', None)
            L.pop('plin', None)
        else:
            L['psav'] = SReal(VAL(LAST(zi(p))))
            L['plin'] = SReal(VAL(LEAD(zi(p))))
        # `line has points` leaves these three
        c.assume(mkbool(self.line(k)) if line else mknot(mkbool(self.line(k))))
        L['line'] = line

    def assume_step(self, f, interp, seq, k):
        h, c = self.h, self.h.c
        if self.row:
            h.j = k
            for nm, g in [('rows', (h.ky - (k + 1)) * h.kx >= 0), ('nonneg', k * h.kx >= 0)]:
                c.oblige(f'lemma {nm}', g)
                c.assume(g)
            c.assume(mkbool(z3.Not(LINE(zi(k), z3.IntVal(0)))))   # a row starts without points
            for d in (h.gj - k, ):
                g = sor(d == 0, sand(d >= 1, (d - 1) * h.kx >= 0),
                        sand(d <= -1, (-d - 1) * h.kx >= 0))
                c.oblige('lemma apart', g)
                c.assume(g)
            return
        b = h.bits
        r = c.choose(range(32))
        L = f.locals
        q = SInt.var('wordno')
        p = self.p(k)
        c.assume(sand(q >= 0, L['iword'] == q, L['ibit'] == r + 1))
        L['iword'], L['ibit'] = q, r + 1
        fv = field(h.start + q, r, b)
        z = zi(p)
        miss = sand(h.flag != 0, fv == 2**b - 1)
        c.assume(mkbool(MISS(z) == zbool(miss)))
        d = h.dmin + bvval(fv) * h.scale
        c.assume(mkbool(VAL(z) == ite(mkbool(MISS(z)), h.miss, ite(
            mkbool(FIRST(z)), h.ref, ite(mkbool(self.line(k)), SReal(VAL(LAST(z))),
                                         SReal(VAL(LEAD(z)))) + d)).t))
        # how the positions carry over to the next point
        n1 = zi(p + 1)
        c.assume(mkbool(FIRST(n1) == z3.And(FIRST(z), MISS(z))))
        c.assume(mkbool(self.line(k + 1) == z3.Or(self.line(k), z3.Not(MISS(z)))))
        c.assume(mkbool(LAST(n1) == z3.If(MISS(z), LAST(z), z)))
        c.assume(mkbool(LEAD(n1) == z3.If(z3.Or(MISS(z), self.line(k)), LEAD(z), z)))
        c.assume(sand(p * b + b <= h.total * b, (h.total * b) <= h.lendat * 32))

    keeps = ('first', 'line')


def zbool(x):
    return x.t if isinstance(x, SBool) else z3.BoolVal(bool(x))


class H:
    pass


def setup(c, prefmt='<'):
    import gempakio.decode.gempak as G
    h = H()
    h.c = c
    M = Models()
    M.reg(ctypes.c_int32, c_int32)
    M.reg(struct.Struct, lambda it, a, k: Sym2(a[0]) if is_sym(a[0]) else NotImplemented)
    h.M = M
    h.kx, h.ky = SInt.var('kx'), SInt.var('ky')
    h.gi, h.gj = SInt.var('gi'), SInt.var('gj')
    c.assume(sand(h.kx >= 1, h.ky >= 1, h.gi >= 0, h.gi < h.kx, h.gj >= 0, h.gj < h.ky))
    h.gp = h.gj * h.kx + h.gi
    h.total = h.ky * h.kx
    h.ref, h.scale, h.dmin, h.miss = (SReal.var(n) for n in ('ref', 'scale', 'dmin', 'missing'))
    h.flag = SInt.var('missing_flag')
    h.dhl, h.phl = SInt.var('data_header_length'), SInt.var('part_header_length')
    h.me = G.GempakGrid.__new__(G.GempakGrid)
    h.me.__dict__.update(prefmt=prefmt, kx=h.kx, ky=h.ky, data_header_length=h.dhl,
                         dm_label=types.SimpleNamespace(missing_float=h.miss))
    h.part = types.SimpleNamespace(header_length=h.phl)
    h.G = G
    return h


def diff(c, bits, orders=('<',)):
    h = setup(c, c.choose(orders))
    b = c.choose(bits)
    h.bits = b
    h.start = 7
    h.lendat = h.dhl - h.phl - 8
    c.assume(h.lendat >= 1)
    c.assume(h.total * b <= h.lendat * 32)
    h.me._buffer = Stream(h.me.prefmt, {0: b, 1: h.flag, 2: SInt.var('kxky'), 3: SInt.var('kx_')},
                          {4: h.ref, 5: h.scale, 6: h.dmin})
    it = Interp(h.M, loops=[('', None, State(h, False)), ('', None, State(h, True))])
    c.assume(mkbool(FIRST(z3.IntVal(0))))
    res = it.call(it.getattr(h.me, '_unpack_grid'), (h.G.PackingType.diff, h.part), {})
    c.cover('decoded')
    c.oblige('shape', sand(res.shape[0] == h.ky, res.shape[1] == h.kx))
    g = (h.ky - 1 - h.gj) * h.kx >= 0
    c.oblige('lemma last row', g)
    c.assume(g)
    c.oblige('value', res.at(h.gj, h.gi) == SReal(VAL(zi(h.gp))))


def plain(c):
    h = setup(c, c.choose(['<', '>', '']))
    h.lendat = h.dhl - h.phl - 1
    c.assume(h.lendat == h.total)
    h.me._buffer = Stream(h.me.prefmt, {}, {})
    it = Interp(h.M)
    res = it.call(it.getattr(h.me, '_unpack_grid'), (h.G.PackingType.none, h.part), {})
    c.cover('decoded')
    g = sand((h.ky - 1 - h.gj) * h.kx >= 0, h.gj * h.kx >= 0)
    c.oblige('lemma last row', g)
    c.assume(g)
    c.oblige('size', res.shape[0] == h.total)
    c.oblige('value', res.at(h.gp) == SReal(REALS(zi(h.gp))))


def empty(c):
    """A block without data words is no grid."""
    h = setup(c)
    kind = c.choose(['none', 'diff', 'grib', 'dec'])
    c.assume(h.dhl - h.phl - {'none': 1, 'diff': 8, 'grib': 6, 'dec': 6}[kind] == 0)
    c.assume(h.phl >= 0)
    ints, reals = heads(h, kind)
    h.me._buffer = Stream('<', ints, reals)
    it = Interp(h.M)
    res = it.call(it.getattr(h.me, '_unpack_grid'), (h.G.PackingType[kind], h.part), {})
    c.oblige('no grid', res is None)


def heads(h, kind):
    h.bits = SInt.var('bits')
    h.c.assume(sand(h.bits >= 1, h.bits <= 31))
    h.count = SInt.var('kxky')
    h.c.assume(h.count >= 0)
    ints = {0: h.bits, 1: h.flag, 2: h.count}
    if kind == 'diff':
        return {**ints, 3: h.kx}, {4: h.ref, 5: h.scale, 6: h.dmin}
    return ints, {3: h.ref, 4: h.scale}


def grib(c):
    h = setup(c, c.choose(['<', '>', '']))
    kind = c.choose(['grib', 'dec'])
    ints, reals = heads(h, kind)
    h.lendat = h.dhl - h.phl - 6
    c.assume(h.lendat >= 1)
    h.me._buffer = Stream(h.me.prefmt, ints, reals)
    out = object()
    called = []

    def unpack(it, f, args, kw):
        pos = dict(zip(('packed_buffer', 'nbits', 'kxky', 'reference', 'scale', 'missing_value'),
                       args))
        pos.update(kw)
        called.append(pos)
        return out
    it = Interp(h.M, contracts={'gempakio.decode.gempak._unpack_grib': unpack})
    h.M.reg(np.array, lambda it, a, k: SArr((a[0].length,), k.get('dtype', float), a[0].item)
            if isinstance(a[0], SSeq) else NotImplemented)
    res = it.call(it.getattr(h.me, '_unpack_grid'), (h.G.PackingType[kind], h.part), {})
    c.cover('decoded')
    c.oblige('unpacked once', len(called) == 1 and res is out)
    a = called[0]
    k = SInt.var('k')
    c.assume(sand(k >= 0, k < h.lendat))
    buf = a['packed_buffer']
    c.oblige('words', sand(buf.shape[0] == h.lendat, buf.dtype == np.int32))
    w = buf.at(k)
    c.oblige('word', mkbool(z3.Extract(31, 0, w.t) == WORD(zi(k + 5))))
    c.oblige('bits', a['nbits'] == h.bits)
    c.oblige('points', a['kxky'] == h.count)
    c.oblige('reference', a['reference'] == h.ref)
    c.oblige('scale', a['scale'] == h.scale)
    mv = a.get('missing_value')
    c.oblige('missing', sand(h.flag != 0, mv == h.miss) if mv is not None else h.flag == 0)


def others(c):
    h = setup(c)
    kinds = [k for k in h.G.PackingType if k.name not in ('none', 'grib', 'dec', 'diff')]
    kind = c.choose(kinds)
    h.me._buffer = Stream('<', *heads(h, 'diff'))
    it = Interp(h.M)
    try:
        it.call(it.getattr(h.me, '_unpack_grid'), (kind, h.part), {})
    except NotImplementedError:
        c.cover('refused')
        c.oblige('refused', True)
        return
    c.oblige(f'packing {kind.name} refused', False)


PARTS = {f'difference packing bits={lo},..': (lambda c, lo=lo: diff(c, list(range(lo, 32, 8))))
         for lo in range(1, 9)}
PARTS.update({'unpacked': plain, 'no data': empty, 'bit packing': grib, 'other packings': others})

# the same in every byte order (C06)
ORDERS = {'difference packing in every order': lambda c: diff(c, [12], ['<', '>', '']),
          'unpacked': plain, 'bit packing': grib}


def run(name, deadline=None):
    c = Ctx(f'_unpack_grid {name}', timeout_ms=20000, deadline=deadline, max_paths=60000)
    c.state_global = {}
    c.explore(PARTS.get(name) or ORDERS[name])
    return c


if __name__ == '__main__':
    import sys
    import time
    for pt in {**PARTS, **ORDERS}:
        if len(sys.argv) > 1 and sys.argv[1] not in pt:
            continue
        t = time.time()
        c = run(pt)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(pt, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths, c.covers)
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
