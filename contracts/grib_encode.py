"""C01: pack_grib, for every grid size and content and every precision 1..31.

Let S = 2**nnnn be the scale pack_grib settles on (1 for a constant grid), code(p) the integer it
stores for point p, imax = 2**nbits - 1.  Proved for an arbitrary point p of an arbitrary grid:
  codes      code(p) == imax when p is missing and some point is missing; otherwise
             0 <= code(p) < imax (<= imax when the grid is constant), and
             |reference + code(p) * step - value(p)| <= step / 2 with step = 1 / S the scale returned
  scale      round(range * S) < imax <= round(range * 2 S): the finest power of two that fits
             (unless the range is below the smallest 32-bit real step), the loops terminate
  words      the array has ceil(nbits * points / 32) words, and the nbits-wide field at bit
             p * nbits of it (C02's field) is code(p)
"""
import numpy as np
import z3

from contracts.hints import WhereHint
from contracts.real_decode import zi
from pyvc.core import (Ctx, SBool, Unsupported, PathEnd, SBV, SInt, SReal, is_sym, ite, mkbool, mknot, sand, simplies,
                       sor, to_real)
from pyvc.interp import Interp, LoopContract
from pyvc.models import Models
from pyvc.nparr import SArr, as_sarr, np_arange, np_zeros

I = z3.IntSort()
R = z3.RealSort()
GRID = z3.Function('grid', I, R)
ROUND = z3.Function('round', R, I)
POW2 = z3.Function('pow2', I, R)
CODE = z3.Function('code', I, z3.BitVecSort(32))


def rnd(x):
    """round() and np.round: a nearest integer, never decreasing."""
    from pyvc.core import ctx
    c = ctx()
    x = to_real(x)
    r = SInt.of(ROUND(x.t))
    if c.state.get('plain'):
        return r
    seen = c.state.setdefault('rounds', [])
    if not any(z3.eq(x.t, y.t) for y, _ in seen):
        d = to_real(r) - x
        c.assume(sand(d <= SReal(z3.RealVal('1/2')), -d <= SReal(z3.RealVal('1/2'))))
        for y, ry in seen:
            c.assume(sand(simplies(x <= y, r <= ry), simplies(y <= x, ry <= r)))
        seen.append((x, r))
    return r


def pow2(n):
    from pyvc.core import ctx
    c = ctx()
    if not is_sym(n):
        return SReal(z3.RealVal(2) ** n) if n >= 0 else SReal(1 / z3.RealVal(2 ** -n))
    if c.state.get('plain'):
        c.assume(mkbool(POW2(zi(n)) > 0))
        return SReal(POW2(zi(n)))
    a, b, d = POW2(zi(n)), POW2(zi(n + 1)), POW2(zi(n - 1))
    c.assume(mkbool(z3.And(a > 0, b == 2 * a, a == 2 * d)))
    for k in (-40, 0, 126):
        v = z3.RealVal(2 ** k) if k >= 0 else 1 / z3.RealVal(2 ** -k)
        c.assume(sand(simplies(n >= k, mkbool(a >= v)), simplies(n <= k, mkbool(a <= v))))
    return SReal(a)


class Coarser(LoopContract):
    """while idat >= imax: nnnn -= 1 ..."""

    names = ('nnnn', 'idat', 'imax', 'qdiff')

    def __init__(self, h):
        self.h = h

    def applies(self, f, interp):
        return all(n in f.locals for n in self.names) and self.h.which(f) == 'coarser'

    def inv(self, f, interp, seq, k):
        L = f.locals
        if self.h.c.state.get('plain'):
            return []
        n = L['nnnn']
        a = L['idat'] == rnd(L['qdiff'] * pow2(n))
        out = [('code of the range', a),
               ('finest', sor(n == 0, rnd(L['qdiff'] * pow2(n + 1)) >= L['imax'])),
               ('bound', sand(n <= 0, n >= -40))]
        return out

    def havoc(self, f, interp, seq, k):
        L = f.locals
        L['nnnn'] = SInt.var('nnnn')
        L['idat'] = SInt.var('idat')


class Finer(LoopContract):
    """while round(qdiff * 2 ** (nnnn + 1)) < imax: nnnn += 1"""

    names = ('nnnn', 'imax', 'qdiff')

    def __init__(self, h):
        self.h = h

    def applies(self, f, interp):
        return all(n in f.locals for n in self.names) and self.h.which(f) == 'finer'

    def inv(self, f, interp, seq, k):
        L = f.locals
        if self.h.c.state.get('plain'):
            return []
        n = L['nnnn']
        return [('fits', rnd(L['qdiff'] * pow2(n)) < L['imax']),
                ('bound', sand(n >= 0, n <= 126))]

    def havoc(self, f, interp, seq, k):
        f.locals['nnnn'] = SInt.var('nnnn')


class H:
    def which(self, f):
        r = self.c.state.get('loop')
        if r is None:
            r = 'coarser' if bool(f.locals['idat'] >= f.locals['imax']) else 'finer'
            self.c.state['loop'] = r
        return r


def setup(c, nbits):
    import gempakio.encode.gempak as E
    h = H()
    h.c, h.nbits, h.imax = c, nbits, 2**nbits - 1
    M = Models()
    M.reg(round, lambda it, a, k: rnd(a[0]) if is_sym(a[0]) else NotImplemented)
    M.reg(np.round, lambda it, a, k: a[0].with_(a[0].dtype, lambda v: to_real(rnd(v))))
    c.state['pow2'] = pow2
    h.it = Interp(M, loops=[('', None, Coarser(h)), ('', None, Finer(h))])
    h.M = M
    h.ny, h.nx = SInt.var('ny'), SInt.var('nx')
    c.assume(sand(h.ny >= 1, h.nx >= 1))
    h.n = h.ny * h.nx
    c.assume(h.n >= 1)
    h.miss = SReal.var('missing')
    h.grid = SArr((h.ny, h.nx), np.float64, None, flat=lambda i: SReal(GRID(zi(i))))
    h.grid.get = None
    h.fn = E.pack_grib
    return h


class Stop(Exception):
    pass


def codes(c, nbits):
    """The scale and the codes (what the shifting below puts into the words)."""
    h = setup(c, nbits)
    p = SInt.var('p')
    c.assume(sand(p >= 0, p < h.n))
    h.p = p
    c.state['ghosts'] = [(1, (p,))]
    got = {}

    def arange(it, a, k):
        f = h.frame
        got['codes'] = f.locals[code_array(f.locals, h.n)]
        raise Stop
    h.M.reg(np.arange, arange)
    caught = []

    class Probe(Interp):
        def block(self, stmts, f):
            if f.qual.endswith('pack_grib'):
                h.frame = f
            return Interp.block(self, stmts, f)
    it = Probe(h.M, loops=h.it.loops)
    try:
        q, scale, out = it.call(h.fn, (h.grid, h.miss), {'nbits': nbits})
    except Stop:
        pass
    except ValueError:
        L = h.frame.locals
        # refused only when the range does not fit a 32-bit integer
        c.cover('refused')
        c.oblige('refused range', rnd(L['qdiff']) > 2147483647)
        return
    c.oblige('the grid given is not written to', not h.grid.touched)
    L = h.frame.locals
    v = SReal(GRID(zi(p)))
    isms = v == h.miss
    if 'codes' not in got:
        c.cover('constant')
        c.oblige('constant grid', sand(q == v, mknot(L['has_missing'])))
        c.oblige('step', scale == 1)
        k = SInt.var('k')
        c.assume(sand(k >= 0, k < out.shape[0]))
        c.oblige('zero words', out.at(k) == 0)
        c.oblige('length', sand(out.shape[0] * 32 >= h.n * nbits,
                                (out.shape[0] - 1) * 32 < h.n * nbits))
        return
    c.cover('packed')
    S = to_real(L['scale'])
    c.oblige('positive', S > 0)
    qd = L['qdiff']
    n = L['nnnn']
    scaled = got['codes'].at(p)          # 32-bit word made from the rounded value
    x = (v - L['qmin'])
    lem = simplies(mknot(isms), sand(x >= 0, x * S <= qd * S))
    c.oblige('lemma scaled', lem)
    c.assume(lem)
    w = rnd(ite(x >= 0, x, 0) * S)
    reg = c.state.get('f2i', {})
    vals = [(b, r) for b, r in reg.values()]
    c.oblige('one conversion', len(vals) == 1)
    b, r = vals[0]
    rng = simplies(mknot(isms), sand(to_real(w) >= 0, w < h.imax))
    c.oblige('code range', rng)
    c.assume(rng)
    c.oblige('code value', simplies(mknot(isms), sand(
        r == to_real(w), mkbool(scaled.t == b))))
    c.oblige('missing code', simplies(isms, scaled == h.imax))
    d = x * S - to_real(w)
    half = SReal(z3.RealVal('1/2'))
    c.oblige('half a step', simplies(mknot(isms), sand(d <= half, -d <= half)))
    tiny = SReal(h.imax / z3.RealVal(2**126))
    c.oblige('finest', sor(qd <= tiny, sand(rnd(qd * pow2(n + 1)) >= h.imax,
                                            rnd(qd * pow2(n)) < h.imax)))
    c.oblige('power of two', S == pow2(n))
    # step <= range / (imax/2 - 1/4): at least about half of the codes are in use
    step_ok = sor(qd <= tiny, qd * S * 4 >= 2 * h.imax - 1)
    c.oblige('step bound', step_ok)


def code_array(L, n):
    """The local that holds one integer code per point."""
    names = [k for k, v in L.items() if isinstance(v, SArr) and v.dtype.kind == 'i'
             and v.ndim == 1 and (v.shape[0] == n) is True]
    if len(names) != 1:
        raise Unsupported(f'one array of codes expected, found {names}')
    return names[0]


class Diffs:
    """np.diff(starts, append=points): the number of codes that start in each word."""

    def __init__(self, h):
        self.h = h

    def max(self):
        h, c = self.h, self.h.c
        top = -(-32 // h.nbits)
        s, n, lend = h.s, h.n, h.lend
        if h.lemma:
            o = c.choose(['use', 'inner', 'last'])
            if o == 'inner':
                q = SInt.var(c.fresh_name('q'))
                w = q * h.nbits + c.choose(range(h.nbits))
                c.assume(q >= 0)
                c.oblige('lemma codes per word', s(w + 1) - s(w) <= top)
                raise PathEnd
            if o == 'last':
                q = SInt.var(c.fresh_name('q'))
                r = c.choose(range(32))
                c.assume(sand(q >= 0, n == q * 32 + r, q * 32 + r >= 1))
                m = q * 32 + r
                w = (m * h.nbits + 31) // 32 - 1
                c.oblige('lemma codes in the last word', sand(m - s(w) <= top, m - s(w) >= 1))
                raise PathEnd
        # two words or more: the first one is full
        c.assume(s(1) - s(0) <= top)
        m = c.choose(sorted({32 // h.nbits, top}))
        for w in h.need:
            c.assume(simplies(w + 1 < lend, s(w + 1) - s(w) <= m))
            c.assume(simplies(w + 1 == lend, n - s(w) <= m))
        if c.check() == z3.unsat:
            raise PathEnd
        return m


def np_append_diff(a, append):
    v = [a.at(i) for i in range(a.shape[0])] + [append]
    return as_sarr(np.array([y - x for x, y in zip(v, v[1:])]))


def bv32(v):
    if isinstance(v, SBV):
        return z3.Extract(31, 0, v.t) if v.w > 32 else v.t
    return z3.BitVecVal(int(v), 32)


class Dead:
    """A value the rest of pack_grib may not use after the cut in `words`."""

    def __bool__(self):
        raise Unsupported('value computed before the cut used after it')


def words(c, nbits, rs=None):
    """The words hold the codes, whatever the codes are (0 <= code <= imax).

    Cut where the codes are ready: this run reaches it on the one path of an all-missing grid, which assumes
    nothing but n >= 1; there the grid, the missing value and the codes become arbitrary, and every
    other value that depends on the grid is taken away.  `codes` shows that every path gets to the
    cut with the same sizes.
    """
    c.state['plain'] = True
    h = setup(c, nbits)
    part = 'points' if rs is not None and rs[0] else c.choose(['lemma', 'one word', 'points'])
    h.lemma, one = part == 'lemma', part == 'one word'
    c.state['lemma_mode'] = h.lemma
    c.state['index_check'] = None
    if one:
        # a single word: its points are enumerated
        top = 32 // nbits
        k = c.choose(range(1, top + 1))
        h.grid = SArr((1, k), np.float64, None, flat=lambda i: -9999.0)
        h.n = k
    else:
        h.grid = SArr((h.ny, h.nx), np.float64, None, flat=lambda i: -9999.0)
    c.state['ghosts'] = [(1, (0,))]
    cuts = []

    def cut(it, a, k):
        if not cuts:
            cuts.append(1)
            L = it.frame.locals
            name = code_array(L, h.n)
            for x, v in list(L.items()):
                if isinstance(v, (float, bool, SReal, SBool)) or x in DEAD or (
                        isinstance(v, SArr) and v.dtype.kind == 'f'):
                    L[x] = Dead()
            L['scale'] = SReal.var('scale')
            c.assume(L['scale'] > 0)

            def code(i):
                t = CODE(zi(i))
                c.assume(mkbool(z3.ULE(t, z3.BitVecVal(h.imax, 32))))
                return SBV(t, True)
            L[name] = SArr((h.n,), L[name].dtype, code)
            c.state['ghosts'] = []
        return np_arange(*a)
    h.M.reg(np.arange, cut)
    h.M.reg(np.diff, lambda it, a, k: Diffs(h) if is_sym(h.n) else np_append_diff(*a, **k))
    h.s = lambda w: (w * 32) // nbits        # the code that holds bit 32 w
    h.lend = (h.n * nbits + 31) // 32
    if one:
        h.M.reg(np.zeros, lambda it, a, k: np_zeros(*a, **k))
    elif not h.lemma:
        c.assume(h.lend >= 2)
    c.state['where_hint'] = WhereHint(h.s, lambda i: ((i + 1) * nbits - 1) // 32, h.lend, nbits,
                                      32, f'nbits={nbits}')
    c.state['where_hint'].accepts = lambda m: m.dtype.kind == 'b' and m.flat is None
    h.need = []

    class Probe(Interp):
        def block(self, stmts, f):
            if f.qual.endswith('pack_grib'):
                self.frame = f
            return Interp.block(self, stmts, f)
    it = Probe(h.M, loops=h.it.loops)
    if not h.lemma and not one:
        r = c.choose(rs or range(32))
        q = SInt.var('q')
        p = q * 32 + r
        c.assume(sand(q >= 0, p < h.n))
        w0 = q * nbits + (r * nbits) // 32
        off = (r * nbits) % 32
        h.need = [w0] if off + nbits <= 32 else [w0, w0 + 1]
    try:
        _ref, _scale, out = it.call(h.fn, (h.grid, -9999.0), {'nbits': nbits})
    except ValueError:
        raise PathEnd from None
    c.oblige('cut', len(cuts) == 1)
    if h.lemma:
        return
    c.oblige('length', sand(out.shape[0] * 32 >= h.n * nbits,
                            (out.shape[0] - 1) * 32 < h.n * nbits))

    def field(ws, off, p):
        got = [bv32(out.at(w)) for w in ws]
        if len(got) == 1:
            f = z3.LShR(got[0], 32 - off - nbits)
        else:
            e = off + nbits - 32
            f = (got[0] << e) | z3.LShR(got[1], 32 - e)
        c.oblige('field', mkbool(f & z3.BitVecVal(h.imax, 32) == CODE(zi(p))))
    if one:
        c.cover(f'one word k={h.n}')
        for p in range(h.n):
            field([0], p * nbits, p)
        return
    c.cover(f'words r={r}')
    field(h.need, off, p)


DEAD = ('nnnn', 'idat', 'qdiff', 'qmin', 'qmax', 'has_missing', 'all_missing', 'valid')


def refused(c):
    """Any precision outside 1..31."""
    h = setup(c, 16)
    nb = SInt.var('nbits')
    c.assume(sor(nb < 1, nb > 31))
    try:
        h.it.call(h.fn, (h.grid, h.miss), {'nbits': nb})
    except ValueError:
        c.cover('refused')
        c.oblige('precision refused', True)
        return
    c.oblige('precision refused', False)


PARTS = {'precision': refused}
for _k in range(1, 32):
    PARTS[f'codes nbits={_k}'] = lambda c, k=_k: codes(c, k)
    _w = {1: 4, 2: 16}.get(_k, 32)
    for _r in range(0, 32, _w):
        PARTS[f'words nbits={_k}' + (f' r={_r}..' if _w < 32 else '')] = (
            lambda c, k=_k, r=_r, w=_w: words(c, k, range(r, r + w)))


# the longest parts first
ORDER = sorted(PARTS, key=lambda n: not n.startswith('words'))


def run(name, deadline=None):
    c = Ctx(f'pack_grib {name}', timeout_ms=20000, deadline=deadline, max_paths=60000)
    c.state_global = {}
    c.explore(PARTS[name])
    return c


if __name__ == '__main__':
    import sys
    import time
    for pt in PARTS:
        if len(sys.argv) > 1 and pt not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(pt)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(pt, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.values()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
