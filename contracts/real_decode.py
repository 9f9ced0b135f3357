"""C04: GempakFile._unpack_real.

For every number of parameters, every bit width 1..32, scale, offset, every word content and every
data length:
  - the data length is refused (ValueError) exactly when it is not a whole number of records;
  - otherwise, for record i and parameter j, result[i * nparms + j] is the missing value when the
    bits_j-wide field at bit S(j) = bits_0 + ... + bits_(j-1) of record i is all ones, and
    (field + offset_j) * 10 ** scale_j otherwise.
The loops over records and over parameters are cut by invariants; the parameter loop's body is
proved for every position of the field in its word (32) times every width (32).
"""
import ctypes
import types

import numpy as np
import z3

from pyvc.core import Ctx, SBV, SInt, SReal, is_sym, ite, mkbool, sand, simplies, sor
from pyvc.interp import Interp, LoopContract
from pyvc.models import Models, SSeq
from pyvc.nparr import SArr, bvval

I = z3.IntSort()
WORD = z3.Function('rword', I, z3.BitVecSort(32))
BITS = z3.Function('bits', I, I)
SCALE = z3.Function('scale10', I, z3.RealSort())     # 10 ** scale
SUM = z3.Function('bitsum', I, I)
OFF = z3.Function('offset', I, I)


def zi(x):
    return x.t if isinstance(x, SInt) else z3.IntVal(int(x))


class Word(SBV):
    """A Python integer known to fit in 64 bits."""

    def _bin(self, o, f):
        r = SBV._bin(self, o, f)
        return Word(r.t, r.signed) if isinstance(r, SBV) else r

    def __lshift__(self, n):
        return Word(SBV.__lshift__(self, n).t, True)

    def __rshift__(self, n):
        return Word(SBV.__rshift__(self, n).t, True)

    def _add(self, o):
        return bvval(SBV(self.t, True)) + o

    def __add__(self, o):
        if isinstance(o, (SInt, SReal)):
            return self._add(o)
        return SBV.__add__(self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return bvval(SBV(self.t, True)) * o

    __rmul__ = __mul__
    __hash__ = SBV.__hash__


def word(k):
    """Word k of the buffer, a signed 32-bit integer."""
    return Word(z3.SignExt(32, WORD(zi(k))), True)


class Exp10:
    """The scale of parameter j (an integer); 10 ** scale is the real SCALE(j)."""

    def __init__(self, j):
        self.j = j

    def __rpow__(self, b):
        assert b == 10
        return SReal(SCALE(zi(self.j)))

    def __neg__(self):
        return NegExp(self.j)


class NegExp(Exp10):
    def __rpow__(self, b):
        assert b == 10
        return SReal(1 / SCALE(zi(self.j)))


class CInt:
    def __init__(self, v):
        self.value = v


def c_int32(interp, args, kw):
    v = args[0]
    if not is_sym(v):
        return ctypes.c_int32(v)
    return CInt(Word(z3.simplify(z3.SignExt(32, z3.Extract(31, 0, v.t))), True))


def field(base, w, r, b):
    """The b bits from bit r (least significant first) of word w on, of the record at `base`."""
    lo = z3.ZeroExt(32, WORD(zi(base + w)))
    hi = z3.ZeroExt(32, WORD(zi(base + w + 1)))
    v = z3.LShR((hi << 32) | lo, r) & z3.BitVecVal(2**b - 1, 64)
    return SBV(z3.simplify(v), True)


def spec(miss, base, j, w, r, b):
    f = field(base, w, r, b)
    return ite(f == 2**b - 1, miss,
               (bvval(f) + SInt.of(OFF(zi(j)))) * SReal(SCALE(zi(j))))


VAL = z3.Function('decoded', I, I, z3.RealSort())   # (record, parameter): the specified value


class Records(LoopContract):
    """For ghost (gi, gj): unpacked[gi * n + gj] is decoded(gi, gj) once gi < k."""

    names = ('unpacked', 'ir', 'ii', 'nparms', 'pwords')

    def __init__(self, h):
        self.h = h

    def applies(self, f, interp):
        return all(n in f.locals for n in self.names) and 'rdat' not in f.locals

    def inv(self, f, interp, seq, k):
        h, L = self.h, f.locals
        return [('record position', L['ir'] == k * h.n),
                ('word position', L['ii'] == k * L['pwords']),
                ('size', L['unpacked'].shape[0] == seq.length * h.n),
                ('decoded', simplies(h.gi < k, L['unpacked'].at(h.pos) == h.want))]

    def havoc(self, f, interp, seq, k):
        L = f.locals
        g = z3.Function('havoc_unpacked', I, z3.RealSort())
        L['unpacked'] = SArr(L['unpacked'].shape, np.float32, lambda i: SReal(g(zi(i))))
        L['ir'] = k * self.h.n
        L['ii'] = k * L['pwords']
        self.h.k = k
        self.h.pwords = L['pwords']
        self.h.npack = seq.length

    def assume_step(self, f, interp, seq, k):
        h, p, n, npack = self.h, self.h.pwords, self.h.n, seq.length
        for nm, g in [('words', (npack - (k + 1)) * p >= 0),
                      ('values', (npack - (k + 1)) * n >= 0),
                      ('nonneg words', k * p >= 0), ('nonneg values', k * n >= 0),
                      ('apart', sor(h.gi == k, sand(h.gi < k, (k - h.gi - 1) * n >= 0),
                                    sand(h.gi > k, (h.gi - k - 1) * n >= 0)))]:
            h.c.oblige(f'lemma {nm}', g)
            h.c.assume(g)


class Params(LoopContract):
    names = ('unpacked', 'rdat', 'itotal', 'nparms')
    keeps = ('unpacked', 'rdat')

    def __init__(self, h):
        self.h = h

    def begin(self, f, interp, seq):
        self.h.before = f.locals['unpacked'].at(self.h.pos)

    def inv(self, f, interp, seq, k):
        h, L = self.h, f.locals
        return [('bit position', L['itotal'] == SInt.of(SUM(zi(k)))),
                ('decoded', simplies(sand(h.gi == h.k, h.gj < k),
                                     L['unpacked'].at(h.pos) == h.want)),
                ('other records', simplies(h.gi != h.k, L['unpacked'].at(h.pos) == h.before))]

    def havoc(self, f, interp, seq, k):
        L = f.locals
        g = z3.Function('havoc_params', I, z3.RealSort())
        L['unpacked'].get = lambda i: SReal(g(zi(i)))
        L['itotal'] = SInt.of(SUM(zi(k)))

    def assume_step(self, f, interp, seq, k):
        h, c = self.h, self.h.c
        b = c.choose(h.widths)
        r = c.choose(range(32))
        h.kpar, h.b = k, b
        q = SInt.var('wordno')
        c.assume(sand(q >= 0, SInt.of(BITS(zi(k))) == b, SInt.of(SUM(zi(k))) == q * 32 + r))
        c.assume(SUM(zi(k + 1)) == SUM(zi(k)) + BITS(zi(k)))
        c.assume(SUM(zi(k + 1)) <= SUM(zi(h.n)))      # lemma `prefix`
        f.locals['itotal'] = q * 32 + r
        # what decoded(record, parameter) stands for at this parameter
        c.assume(simplies(sand(h.gi == h.k, h.gj == k),
                          h.want == spec(h.miss, h.k * h.pwords, k, q, r, b)))


class H:
    kpar = b = None


def prefix_lemma(c):
    """bits_0 + ... + bits_(j-1) <= the sum of all, by downward induction (every width >= 1)."""
    j, n = SInt.var('j'), SInt.var('nparms')
    if c.choose(['base', 'step']) == 'base':
        c.oblige('lemma prefix base', mkbool(SUM(zi(n)) <= SUM(zi(n))))
        return
    c.assume(sand(j >= 0, j < n))
    c.assume(BITS(zi(j)) >= 1)
    c.assume(SUM(zi(j + 1)) == SUM(zi(j)) + BITS(zi(j)))
    c.assume(SUM(zi(j + 1)) <= SUM(zi(n)))
    c.oblige('lemma prefix step', mkbool(SUM(zi(j)) <= SUM(zi(n))))


def body(c, widths):
    import gempakio.decode.gempak as G
    h = H()
    h.c, h.widths = c, widths
    M = Models()
    M.reg(ctypes.c_int32, c_int32)
    M.reg(sum, lambda it, a, k: SInt.of(SUM(zi(a[0].length))) if isinstance(a[0], SSeq)
          else NotImplemented)
    it = Interp(M, loops=[('', None, Records(h)), ('', None, Params(h))])
    h.n = n = SInt.var('nparms')
    length = SInt.var('length')
    h.miss = miss = SReal.var('missing')
    h.gi, h.gj = SInt.var('gi'), SInt.var('gj')
    c.assume(sand(n >= 1, length >= 1, h.gi >= 0, h.gj >= 0, h.gj < n))
    c.assume(SUM(z3.IntVal(0)) == 0)
    c.assume(SUM(zi(n)) >= 1)
    h.pos = h.gi * n + h.gj
    h.want = SReal(VAL(zi(h.gi), zi(h.gj)))

    def bits(i):
        if h.kpar is not None and (i == h.kpar) is True:
            return h.b
        return SInt.of(BITS(zi(i)))
    par = {'name': SSeq(n, lambda i: None), 'scale': SSeq(n, Exp10),
           'offset': SSeq(n, lambda i: SInt.of(OFF(zi(i)))), 'bits': SSeq(n, bits)}
    me = G.GempakFile.__new__(G.GempakFile)
    me.dm_label = types.SimpleNamespace(missing_float=miss)
    p = (SInt.of(SUM(zi(n))) - 1) // 32 + 1
    c.assume(p >= 1)
    try:
        res = it.call(it.getattr(me, '_unpack_real'), (SSeq(length, word), par, length), {})
    except ValueError:
        m = SInt.var('m')
        c.cover('refused')
        c.assume(sand(m >= 1, length == m * p))
        q = (length - 1) // p
        lem = sand(simplies(q >= m, (q - m) * p >= 0), simplies(q <= m - 2, (m - 2 - q) * p >= 0))
        c.oblige('lemma quotient', lem)
        c.assume(lem)
        c.oblige('refused only when not whole records', False)
        return
    c.cover('decoded')
    c.oblige('whole records', length == h.npack * p)
    c.oblige('count', it.call(len, (res,), {}) == h.npack * n)
    c.assume(h.gi < h.npack)
    c.oblige('value', res.item(h.pos) == h.want)


def run(part, deadline=None):
    c = Ctx(f'_unpack_real {part}', timeout_ms=20000, deadline=deadline, max_paths=20000)
    c.state_global = {}
    if part == 'lemma':
        c.explore(prefix_lemma)
    else:
        c.explore(lambda c: body(c, list(range(part, 33, 8))))
    return c


PARTS = ['lemma', *range(1, 9)]

if __name__ == '__main__':
    import sys
    import time
    for pt in PARTS:
        if len(sys.argv) > 1 and str(pt) not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(pt)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(pt, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.covers)
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:600], (o.model or '')[:300])
