"""C20: filling gaps in a sounding changes only missing values.

The fields of the sounding are lists of one symbolic length n >= 1 holding any reals, each level
missing or not in any pattern.  Every loop is cut by an invariant, while loops carry a bound that
falls with every round (termination), and every store into a field is an obligation of its own:

 * the field is one the function fills, and the level was missing in the sounding given
   (for a pair of fields: its leading field was);
 * the value stored is missing, or lies between the values of two levels around it that hold one
   (or, above the topmost height, above the height of a level below).

Since levels are only written by index, the number of levels never changes; the other fields are
objects whose every mutation is refused.
"""
import ast

import numpy as np
import z3

from contracts import thermo
from pyvc.core import (Ctx, SInt, SReal, Sym, Unsupported, ctx, is_sym, ite, mkbool, mknot,
                       sand, simplies, sor, to_real, uf_real)
from pyvc.interp import Interp, LoopContract
from pyvc.models import Models

MOD = 'gempakio.gemcalc.'
FIELDS = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']


def zt(i):
    return i.t if isinstance(i, SInt) else z3.IntVal(int(i))


class Levels(Sym):
    """One field: a list of n values."""

    pytype = list

    def __init__(self, snd, name, arr):
        self.snd, self.name, self.arr = snd, name, arr
        self.orig = arr
        self.facts = []          # what is known of every level, version by version

    def sym_len(self):
        return self.snd.n

    def val(self, k, arr=None):
        return SReal(z3.Select(self.arr if arr is None else arr, zt(k)))

    def was(self, k):
        return self.val(k, self.orig)

    def gap(self, k):
        """The level held no value in the sounding given."""
        return self.was(k) == self.snd.m

    def here(self, k):
        return mknot(self.val(k) == self.snd.m)

    def index(self, k):
        if isinstance(k, slice) or not isinstance(k, (int, SInt)):
            raise Unsupported('levels are read one by one')
        n = self.snd.n
        if k < 0:
            k = k + n
        if not sand(k >= 0, k < n):
            raise IndexError('list index out of range')
        self.snd.read(k)
        return k

    def __getitem__(self, k):
        return self.val(self.index(k))

    def __setitem__(self, k, v):
        k = self.index(k)
        v = to_real(v)
        if v is None:
            raise Unsupported('a level is no number')
        self.snd.store(self, k, v)
        self.arr = z3.Store(self.arr, zt(k), v.t)

    def havoc(self):
        """Any later version: what was present is unchanged."""
        c = ctx()
        before = self.arr
        self.arr = z3.Array(c.fresh_name(self.name), z3.IntSort(), z3.RealSort())
        if self.orig is not None:
            self.fact(lambda k, now: sor(self.snd.may(self.name, k), now(k) == self.was(k)))
            if self.snd.sticky:
                # nothing but values is ever stored
                self.fact(lambda k, now: sor(self.val(k, before) == self.snd.m,
                                             mknot(now(k) == self.snd.m)))

    def fact(self, fn):
        """Something proved of every level of this version (the values now(k))."""
        arr = self.arr

        def bound(k):
            return fn(k, lambda j: self.val(j, arr))
        self.facts.append(bound)
        for k in list(self.snd.reads):
            ctx().assume(simplies(self.snd.inside(k), bound(k)))


class Work(Levels):
    """An array the function made for itself (np.ones(n) and the like)."""

    def __init__(self, snd, value):
        super().__init__(snd, 'work', z3.K(z3.IntSort(), to_real(value).t))
        self.orig = None
        self.value = value
        snd.works.append(self)

    pytype = np.ndarray

    def __mul__(self, o):
        if self.value is None:
            raise Unsupported('arithmetic on levels')
        return Work(self.snd, to_real(self.value) * o)

    __rmul__ = __mul__

    def __setitem__(self, k, v):
        k = self.index(k)
        self.value = None
        self.arr = z3.Store(self.arr, zt(k), to_real(v).t)


class Sounding:
    """A sounding with every pattern of missing values."""

    def __init__(self, c, fills, pairs=(), sticky=False, holes=False):
        self.n = SInt.var('levels')
        self.m = SReal.var('missing')
        c.assume(sand(self.n >= 1, self.m < -300))
        self.reads, self.works = [], []
        self.fills, self.pairs, self.sticky, self.holes = fills, dict(pairs), sticky, holes
        self.f = {}
        for nm in FIELDS:
            self.f[nm] = Levels(self, nm, z3.Array(nm, z3.IntSort(), z3.RealSort()))
        self.mode = 'between'

    def dict(self):
        return {**self.f, 'STID': 'KXXX', 'SELV': 100}

    def inside(self, k):
        return sand(k >= 0, k < self.n)

    def may(self, name, k):
        """Levels of a field that may be written."""
        if name not in self.fills:
            return False
        lead = self.pairs.get(name)
        return sor(self.f[name].gap(k), self.f[lead].gap(k) if lead else False)

    def read(self, k):
        """A level comes into view: what holds of every level holds of it."""
        c = ctx()
        key = zt(k)
        if any(key.eq(zt(o)) for o in self.reads):
            return
        older = list(self.reads)
        self.reads.append(k)
        ok = self.inside(k)
        P, Z = self.f['PRES'], self.f['HGHT']
        m = self.m
        for lv in self.f.values():
            c.assume(simplies(ok, sor(lv.was(k) == m, lv.was(k) > m)))
        c.assume(simplies(ok, sor(P.gap(k), sand(P.was(k) > 0, P.was(k) < 2000))))
        c.assume(simplies(ok, sor(self.f['TEMP'].gap(k), self.f['TEMP'].was(k) > -273.15)))
        if not self.holes:
            c.assume(simplies(sand(ok, k >= 1), mknot(P.gap(k))))
        for o in older:
            both = sand(ok, self.inside(o))
            for i, j in ((k, o), (o, k)):
                up = sand(both, i < j)
                c.assume(simplies(sand(up, mknot(P.gap(i)), mknot(P.gap(j))),
                                  P.was(i) > P.was(j)))
                c.assume(simplies(sand(up, mknot(Z.gap(i)), mknot(Z.gap(j))),
                                  Z.was(i) < Z.was(j)))
        for lv in [*self.f.values(), *self.works]:
            for fn in lv.facts:
                c.assume(simplies(ok, fn(k)))

    def any(self, name='k'):
        k = SInt.var(ctx().fresh_name(name))
        ctx().assume(self.inside(k))
        self.read(k)
        return k

    def store(self, lv, k, v):
        c = ctx()
        m = self.m
        c.cover(f'{lv.name} filled')
        c.oblige(f'{lv.name}: only missing levels are filled', self.may(lv.name, k))
        if self.sticky:
            c.oblige(f'{lv.name}: no value is lost', sor(mknot(v == m), lv.val(k) == m))
        if lv.name == 'DRCT':
            c.oblige('DRCT: a direction', sor(v == m, sand(v >= 0, v < 360)))
            return
        known = [o for o in self.reads]
        below = [(sand(o < k, o >= 0, lv.here(o)), lv.val(o)) for o in known]
        above = [(sand(o > k, o < self.n, lv.here(o)), lv.val(o)) for o in known]
        opts = [v == m]
        for b, x in below:
            for a, y in above:
                if b is False or a is False:
                    continue
                opts.append(sand(b, a, sor(sand(x <= v, v <= y), sand(y <= v, v <= x))))
        if self.mode != 'between':
            # above the topmost height: above a level below
            top = True
            if self.mode == 'top':
                k2 = self.any('above')
                top = sor(k2 < k, lv.gap(k2))
            opts += [sand(top, b, v > x) for b, x in below]
        c.oblige(f'{lv.name}: between the levels it was interpolated from', sor(*opts))


class Loop(LoopContract):
    """A loop known by the names its test (or its iterable) mentions."""

    def __init__(self, snd, test, names):
        self.s, self.test, self.names = snd, set(test), names

    def applies(self, frame, interp):
        n = interp.loop_node
        e = n.test if isinstance(n, ast.While) else n.iter
        seen = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        return self.test <= seen and super().applies(frame, interp)

    def fresh(self, L, *names):
        for nm in names:
            L[nm] = SReal.var(ctx().fresh_name(nm))

    def havoc_levels(self):
        for lv in [*(self.s.f[n] for n in self.s.fills), *self.s.works]:
            lv.havoc()
            if isinstance(lv, Work):
                lv.value = None


def frame_has(L, *names):
    return all(n in L for n in names)


def some(xs):
    xs = [x for x in xs if x is not False]
    return sor(*xs) if xs else False


# log-pressure pressures ---------------------------------------------------------------------


class PressOuter(Loop):
    """Level by level: pb, zb (pt, zt) are those of the last level with both, ilev (klev)."""

    def havoc(self, f, it, seq, k):
        L, s = f.locals, self.s
        c = ctx()
        self.havoc_levels()
        L['i'] = SInt.var(c.fresh_name('i'))
        if c.choose(['none', 'some']) == 'none':
            L['klev'] = L['ilev'] = -1
            L['pt'] = L['pb'] = L['zt'] = L['zb'] = s.m
        else:
            lev = SInt.var(c.fresh_name('lev'))
            c.assume(s.inside(lev))
            s.read(lev)
            L['klev'] = L['ilev'] = lev
            L['pt'] = L['pb'] = s.f['PRES'].val(lev)
            L['zt'] = L['zb'] = s.f['HGHT'].val(lev)
        i, lev = L['i'], L['klev']
        P, Z = s.f['PRES'], s.f['HGHT']
        # levels still ahead are as given; those between hold no pressure with a height
        P.fact(lambda j, now: simplies(j >= i, now(j) == P.was(j)))
        P.fact(lambda j, now: simplies(sand(j > lev, j < i), sor(P.gap(j), Z.gap(j))))

    def inv(self, f, it, seq, k):
        L, s = f.locals, self.s
        P, Z = s.f['PRES'], s.f['HGHT']
        m = s.m
        if not frame_has(L, 'i', 'klev', 'ilev', 'pt', 'pb', 'zt', 'zb'):
            return [('names', False)]
        i, lev = L['i'], L['klev']
        out = [('position', sand(i >= 0, i <= s.n)),
               ('same level', sand(L['ilev'] == lev, L['pb'] == L['pt'], L['zb'] == L['zt']))]
        wit = some(sand(lev == o, lev >= 0, lev < i, P.was(o) == L['pt'], P.val(o) == L['pt'],
                        Z.was(o) == L['zt'], mknot(L['pt'] == m), mknot(L['zt'] == m))
                   for o in s.reads)
        out.append(('bottom level', sor(lev == -1, wit)))
        if k is not None:
            j = s.any('j')
            out.append(('ahead untouched', sor(j < i, P.val(j) == P.was(j))))
            out.append(('between', sor(j <= lev, j >= i, P.gap(j), Z.gap(j))))
        return out

    def variant(self, f, it):
        return self.s.n - f.locals['i']


class PressInner(Loop):
    """The levels between: those from j on are as they were."""

    def begin(self, f, it, seq):
        self.before = self.s.f['PRES'].arr

    def havoc(self, f, it, seq, k):
        s, L = self.s, f.locals
        P = s.f['PRES']
        before = self.before
        self.havoc_levels()
        top = L['klev']
        P.fact(lambda j, now: simplies(j >= top, now(j) == P.val(j, before)))
        bot = L['ilev']
        P.fact(lambda j, now: simplies(j <= bot, now(j) == P.val(j, before)))

    def assume_step(self, f, it, seq, k):
        """Instances of the lemmas 'pressure between' for this level."""
        s, L = self.s, f.locals
        c = ctx()
        j = seq.item(k)
        s.read(j)
        z, a, b, p, t = s.f['HGHT'].val(j), L['zb'], L['zt'], L['pb'], L['pt']
        if not all(isinstance(x, SReal) for x in (a, b, p, t)):
            return

        def on_exp(e):
            lg = SReal(next(g.t for y, g in c.state['logs'] if z3.simplify(y.t).eq(
                z3.simplify((t / p).t))))
            q = (z - a) * lg / (b - a)
            c.assume(simplies(sand(a <= z, z <= b, a < b, lg <= 0), sand(q <= 0, q >= lg)))
            c.assume(simplies(sand(p > 0, t > 0, e >= t / p, e <= 1),
                              sand(p * e <= p, p * e >= t)))
        c.state['on_exp'] = on_exp

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        P = s.f['PRES']
        if k is None or not isinstance(k, int) and not is_sym(k):
            return []
        j = s.any('j')
        return [('others untouched', sor(sand(j > L['ilev'], j < L['klev']),
                                         P.val(j) == P.val(j, self.before)))]


def exp_of(interp, a, kw):
    """exp: positive, increasing, inverse of the logarithms in sight."""
    from pyvc.models import ufelem
    x = a[0]
    if not is_sym(x):
        return NotImplemented
    c = ctx()
    r = ufelem('exp', x)
    if 'on_exp' in c.state:
        c.state['on_exp'](r)
    c.assume(sand(simplies(x <= 0, r <= 1), simplies(x >= 0, r >= 1)))
    for y, lg in c.state.get('logs', []):
        c.assume(simplies(y > 0, sand(simplies(x >= lg, r >= y), simplies(x <= lg, r <= y))))
    return r


def between_lemma(c):
    """(z - a) * l / (b - a) lies in [l, 0] for a <= z <= b, a < b and l <= 0."""
    z, a, b, lg = (SReal.var(n) for n in 'zabl')
    c.assume(sand(a <= z, z <= b, a < b, lg <= 0))
    q = (z - a) * lg / (b - a)
    c.cover('lemma')
    c.oblige('not above', q <= 0)
    c.oblige('not below', q >= lg)


def between_lemma2(c):
    """p * e lies in [t, p] for e in [t / p, 1] and p > 0."""
    p, t, e = (SReal.var(n) for n in 'pte')
    c.assume(p > 0)
    c.assume(sand(t > 0, e >= t / p, e <= 1))
    c.cover('lemma')
    c.oblige('not above', p * e <= p)
    c.oblige('not below', p * e >= t)


def fill_pressure(c):
    import gempakio.gemcalc as G
    s = Sounding(c, ['PRES'], holes=True)
    M = Models()
    M.reg(np.exp, exp_of)
    it = Interp(M, loops=[('', None, PressInner(s, ['ilev', 'klev'], ['j', 'zt'])),
                          ('', None, PressInner(s, ['ilev', 'klev'], ['zt'])),
                          ('', None, PressOuter(s, ['i', 'size'], ['klev', 'ilev']))])
    it.call(G.interp_logp_pressure, (s.dict(), s.m))
    c.cover('done')


# log-pressure heights -------------------------------------------------------------------------


class TopSearch(Loop):
    """From the top down: the levels passed hold no height."""

    def havoc(self, f, it, seq, k):
        s, L = self.s, f.locals
        c = ctx()
        L['idx'] = SInt.var(c.fresh_name('idx'))
        top = s.n + L['idx']
        Z = s.f['HGHT']
        Z.fact(lambda j, now: simplies(j > top, Z.gap(j)))

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if not frame_has(L, 'idx', 'maxlev'):
            return [('names', False)]
        out = [('none found', L['maxlev'] == -1),
               ('position', sand(L['idx'] <= -1, s.n + L['idx'] >= 0))]
        if k is not None:
            j = s.any('j')
            out.append(('passed levels', sor(j <= s.n + L['idx'], s.f['HGHT'].gap(j))))
        return out

    keeps = ('maxlev',)

    def variant(self, f, it):
        return self.s.n + f.locals['idx']


def same_level(s, o, p, z):
    """Level o holds pressure p and height z, in the sounding given and now."""
    P, Z = s.f['PRES'], s.f['HGHT']
    return sand(P.was(o) == p, Z.was(o) == z, mknot(p == s.m), mknot(z == s.m),
                o >= 0, o < s.n)


class HeightMain(Loop):
    """pbot, zbot are those of a level below; ptop, ztop of one further up (or ptop is 2000)."""

    def havoc(self, f, it, seq, k):
        s, L = self.s, f.locals
        c = ctx()
        self.havoc_levels()
        Z = s.f['HGHT']
        Z.fact(lambda j, now: simplies(j >= k, now(j) == Z.was(j)))
        for nm in ('zbot', 'ptop', 'ztop', 'pres', 'hght', 'ilev'):
            L.pop(nm, None)
        case = c.choose(['no level yet', 'no level above yet', 'both'])
        if case == 'no level yet':
            L['pbot'] = s.m
            return
        b = SInt.var(c.fresh_name('bottom'))
        c.assume(sand(b >= 0, b < k))
        s.read(b)
        L['pbot'], L['zbot'] = s.f['PRES'].was(b), Z.was(b)
        c.assume(sand(mknot(L['pbot'] == s.m), mknot(L['zbot'] == s.m)))
        L['ptop'] = 2000
        if case == 'both':
            t = SInt.var(c.fresh_name('top'))
            c.assume(sand(t > b, t < s.n))
            s.read(t)
            L['ptop'], L['ztop'] = s.f['PRES'].was(t), Z.was(t)
            c.assume(sand(mknot(L['ptop'] == s.m), mknot(L['ztop'] == s.m)))

    keeps = ('pbot',)

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if 'pbot' not in L or k is None:
            return [('names', False)] if k is not None else []
        Z = s.f['HGHT']
        pb, zb = L['pbot'], L.get('zbot')
        bot = some(sand(o < k, same_level(s, o, pb, zb)) for o in s.reads) \
            if zb is not None else False
        out = [('bottom level', sor(pb == s.m, bot))]
        top, zt_ = L.get('ptop'), L.get('ztop')
        above = some(sand(same_level(s, o, top, zt_), top < pb) for o in s.reads) \
            if zt_ is not None else False
        out.append(('top level', sor(pb == s.m, False if top is None else top == 2000, above)))
        j = s.any('j')
        out.append(('ahead untouched', sor(j < k, Z.val(j) == Z.was(j))))
        return out


class UpSearch(Loop):
    """Up to the next level with a height: there is one at maxlev."""

    def havoc(self, f, it, seq, k):
        s, L = self.s, f.locals
        c = ctx()
        i = L['i']
        L['ilev'] = SInt.var(c.fresh_name('ilev'))
        c.assume(sand(L['ilev'] > i, L['ilev'] < s.n))
        s.read(L['ilev'])
        L.pop('ztop', None)
        if c.choose(['still 2000', 'a level']) == 'still 2000':
            L['ptop'] = 2000
            return
        t = SInt.var(c.fresh_name('top'))
        c.assume(sand(t >= 0, t < s.n))
        s.read(t)
        L['ptop'], L['ztop'] = s.f['PRES'].was(t), s.f['HGHT'].was(t)
        c.assume(same_level(s, t, L['ptop'], L['ztop']))
        c.assume(L['ptop'] < L['pbot'])

    keeps = ('ptop',)

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if not frame_has(L, 'ilev', 'ptop', 'maxlev', 'i', 'pbot'):
            return [('names', False)]
        out = [('position', sand(L['ilev'] > L['i'], L['ilev'] <= L['maxlev']))]
        top, zt_ = L['ptop'], L.get('ztop')
        above = some(sand(same_level(s, o, top, zt_), top < L['pbot']) for o in s.reads) \
            if zt_ is not None else False
        out.append(('top level', sor(top == 2000, above)))
        return out

    def variant(self, f, it):
        L = f.locals
        return (L['maxlev'] - L['ilev']) * 2 + ite(L['pres'] <= L['ptop'], 1, 0)


class HeightTop(Loop):
    """Above the topmost height: pb, zb, tb are those of a level below (or missing)."""

    def havoc(self, f, it, seq, k):
        s, L = self.s, f.locals
        c = ctx()
        self.havoc_levels()
        s.mode = 'top'
        for nm in ('tt', 'tdt', 'pt', 'scale_z'):
            L.pop(nm, None)
        i = seq.item(k)
        Z = s.f['HGHT']
        Z.fact(lambda j, now: simplies(j >= i, now(j) == Z.was(j)))
        self.fresh(L, 'tb', 'tdb')
        if c.choose(['none', 'some']) == 'none':
            self.fresh(L, 'pb', 'zb')
            c.assume(sor(L['pb'] == s.m, L['zb'] == s.m, L['tb'] == s.m))
            return
        b = SInt.var(c.fresh_name('below'))
        c.assume(sand(b >= 0, b < i, b < s.n))
        s.read(b)
        L['pb'], L['zb'], L['tb'] = s.f['PRES'].was(b), Z.val(b), s.f['TEMP'].was(b)
        c.assume(sand(mknot(L['pb'] == s.m), mknot(L['zb'] == s.m)))

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if k is None:
            return []
        if not frame_has(L, 'pb', 'zb', 'tb', 'tdb'):
            return [('names', False)]
        m, P, Z, T = s.m, s.f['PRES'], s.f['HGHT'], s.f['TEMP']
        i = seq.item(k)
        low = some(sand(o < i, o >= 0, o < s.n, P.was(o) == L['pb'], Z.val(o) == L['zb'],
                        T.was(o) == L['tb']) for o in s.reads)
        out = [('level below', sor(L['pb'] == m, L['zb'] == m, L['tb'] == m, low))]
        j = s.any('j')
        out.append(('ahead untouched', sor(j < i, Z.val(j) == Z.was(j))))
        return out


def k_scale(it, f, a, kw):
    """scale_height: missing when a temperature or pressure is, else positive (proved below)."""
    b = thermo.bindargs(f, a, kw)
    m = b['missing']
    if sor(*(b[x] == m for x in ('tmpc_bot', 'tmpc_top', 'pres_bot', 'pres_top'))):
        return m
    r = SReal.var(ctx().fresh_name('scale'))
    ctx().assume(simplies(sand(b['tmpc_bot'] > -273.15, b['tmpc_top'] > -273.15,
                               b['pres_bot'] > 0, b['pres_top'] > 0), r > 0))
    return r


def scale_positive(c):
    """The contract of scale_height: positive for temperatures above absolute zero."""
    import gempakio.gemcalc as G
    m = SReal.var('missing')
    c.assume(m < -300)
    tb, tt, tdb, tdt, pb, pt = (SReal.var(n) for n in ('tb', 'tt', 'tdb', 'tdt', 'pb', 'pt'))
    for xs, low in (((tb, tt), -273.15), ((pb, pt), 0), ((tdb, tdt), -243.5)):
        c.assume(sand(*(sor(x == m, x > low) for x in xs)))
    r = thermo.interp(('scale_height', 'virtual_temperature')).call(
        G.scale_height, (tb, tt, tdb, tdt, pb, pt, m))
    if sor(tb == m, tt == m, pb == m, pt == m):
        c.cover('missing')
        c.oblige('missing', r == m)
        return
    c.cover('positive')
    c.oblige('positive', r > 0)


def fraction_lemma(c):
    """a + (b - a) * (x / y) lies between a and b for y < 0, y <= x <= 0."""
    a, b, x, y = (SReal.var(n) for n in 'abxy')
    c.assume(y < 0)
    c.assume(sand(y <= x, x <= 0))
    r = a + (b - a) * (x / y)
    c.cover('lemma')
    c.oblige('between', sor(sand(a <= r, r <= b), sand(b <= r, r <= a)))


def fill_height(c):
    import gempakio.gemcalc as G
    s = Sounding(c, ['HGHT'])
    it = Interp(Models(), contracts={MOD + 'scale_height': k_scale}, loops=[
        ('', None, TopSearch(s, ['size', 'idx'], ['maxlev'])),
        ('', None, UpSearch(s, ['pres', 'ptop'], ['maxlev', 'ilev', 'i'])),
        ('', None, HeightTop(s, ['maxlev', 'size'], ['maxlev', 'pb'])),
        ('', None, HeightMain(s, ['maxlev'], ['maxlev', 'pbot']))])
    it.call(G.interp_logp_height, (s.dict(), s.m))
    c.cover('done')


# missing data ------------------------------------------------------------------------------------


def k_interp(it, f, a, kw):
    """interp_parameters by its contract (proved in C19)."""
    c = ctx()
    b = thermo.bindargs(f, a, kw)
    lo, hi, v, m = b['adata'], b['bdata'], b['vlev'], b['missing']
    p1, p2 = lo['PRES'], hi['PRES']
    c.oblige('interpolation: pressure between the levels', sor(sand(p2 < v, v < p1),
                                                               sand(p1 < v, v < p2)))
    c.oblige('interpolation: positive pressures', sand(p1 > 0, p2 > 0))
    out = {'PRES': v}
    for nm, x in lo.items():
        if nm == 'PRES':
            continue
        y = hi[nm]
        r = SReal.var(c.fresh_name(nm))
        gone = sor(x == m, y == m)
        c.assume(simplies(gone, r == m))
        c.assume(simplies(mknot(gone), sand(r >= 0, r < 360) if nm == 'DRCT' else
                          sor(sand(x <= r, r <= y), sand(y <= r, r <= x))))
        out[nm] = r
    return out


class MissOuter(Loop):
    """iabove is 0, or no level ahead, or one with a value."""

    def havoc(self, f, it, seq, k):
        s, L = self.s, f.locals
        c = ctx()
        self.havoc_levels()
        L['i'] = SInt.var(c.fresh_name('i'))
        L['iabove'] = SInt.var(c.fresh_name('iabove'))
        L['more'] = mkbool(z3.Bool(c.fresh_name('more')))
        c.assume(sand(L['iabove'] >= 0, L['iabove'] < s.n))
        s.read(L['iabove'])

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if not frame_has(L, 'i', 'iabove', 'var1'):
            return [('names', False)]
        ia = L['iabove']
        V = s.f[L['var1']]
        s.read(ia)
        return [('position', sand(L['i'] >= 1, L['i'] <= ite(s.n > 1, s.n, 2))),
                ('above', sand(ia >= 0, ia < s.n, sor(ia < L['i'], V.here(ia))))]

    def variant(self, f, it):
        return self.s.n - f.locals['i']


class MissInner(Loop):
    """Up to the next level with a value."""

    def havoc(self, f, it, seq, k):
        s, L = self.s, f.locals
        c = ctx()
        L['iabove'] = SInt.var(c.fresh_name('iabove'))
        L['found'] = mkbool(z3.Bool(c.fresh_name('found')))
        L['more'] = mkbool(z3.Bool(c.fresh_name('more')))
        c.assume(sand(L['iabove'] >= 0, L['iabove'] < s.n))
        s.read(L['iabove'])

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if not frame_has(L, 'i', 'iabove', 'var1', 'found'):
            return [('names', False)]
        ia, i = L['iabove'], L['i']
        s.read(ia)
        ahead = sand(ia > i, ia < s.n)
        return [('above', sor(ahead, sand(L['found'], ia == 0))),
                ('found', sor(mknot(L['found']), ia == 0, s.f[L['var1']].here(ia)))]

    def variant(self, f, it):
        L = f.locals
        return ite(L['found'], 0, self.s.n - L['iabove'])


def fill_missing(c):
    import gempakio.gemcalc as G
    s = Sounding(c, ['TEMP', 'DWPT', 'DRCT', 'SPED'], holes=True,
                 pairs={'DWPT': 'TEMP', 'SPED': 'DRCT'})
    it = Interp(Models(), contracts={MOD + 'interp_parameters': k_interp}, loops=[
        ('', None, MissInner(s, ['found'], ['var1', 'i', 'iabove'])),
        ('', None, MissOuter(s, ['i', 'size', 'more'], ['var1', 'iabove']))])
    it.call(G.interp_missing_data, (s.dict(), s.m))
    c.cover('done')


# moist hydrostatic heights ---------------------------------------------------------------------
#
# Between two complete levels ilev < klev the heights are summed up from scale heights, and the
# scale heights then stretched so that the sum meets the height at klev.  Ghost arrays over the
# levels: C, the height above ilev summed up (unstretched), and PL, the last pressure used.


def logr(x, y):
    return uf_real('log', SReal(x.t / y.t))


class Layer:
    """What the loops over one layer share."""

    def __init__(self, s):
        self.s = s
        self.C = self.PL = None
        self.scale = None


def complete(s, k):
    return sand(*(mknot(s.f[n].gap(k)) for n in ('PRES', 'TEMP', 'HGHT')))


class FirstLevel(Loop):
    """Up to the first complete level."""

    def havoc(self, f, it, seq, k):
        L, c = f.locals, ctx()
        L['ilev'] = SInt.var(c.fresh_name('ilev'))
        for nm in ('found', 'top'):
            L[nm] = mkbool(z3.Bool(c.fresh_name(nm)))
        self.s.read(L['ilev'])

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if not frame_has(L, 'ilev', 'found', 'top'):
            return [('names', False)]
        i, found, top = L['ilev'], L['found'], L['top']
        return [('position', sand(i >= -1, i <= s.n)),
                ('found', sor(mknot(found), sand(i >= 0, i < s.n, complete(s, i)))),
                ('top', sor(sand(top, mknot(found), i == s.n), sand(mknot(top), i < s.n)))]

    def variant(self, f, it):
        L = f.locals
        return ite(sor(L['found'], L['top']), 0, self.s.n - L['ilev'])


class Layers(Loop):
    """ilev is a complete level; heights from there on are as given."""

    def __init__(self, lay, *a):
        super().__init__(lay.s, *a)
        self.lay = lay

    def havoc(self, f, it, seq, k):
        s, L, c = self.s, f.locals, ctx()
        self.havoc_levels()
        L['top'] = mkbool(z3.Bool(c.fresh_name('top')))
        i = L['ilev'] = SInt.var(c.fresh_name('ilev'))
        Z = s.f['HGHT']
        c.assume(sand(i >= 0, i <= s.n))
        s.read(i)
        Z.fact(lambda j, now: simplies(j >= i, now(j) == Z.was(j)))

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if not frame_has(L, 'ilev', 'top'):
            return [('names', False)]
        i, top = L['ilev'], L['top']
        out = [('complete level', sor(top, sand(i >= 0, i < s.n, complete(s, i))))]
        if k is not None:
            j, Z = s.any('j'), s.f['HGHT']
            out.append(('ahead untouched', sor(top, j < i, Z.val(j) == Z.was(j))))
        return out

    def variant(self, f, it):
        L = f.locals
        return ite(L['top'], 0, self.s.n - L['ilev'])


def ghost(w, k, v):
    w.value = None
    w.arr = z3.Store(w.arr, zt(k), to_real(v).t)


class Summing(Loop):
    """The layer above ilev, level by level up to jlev."""

    def __init__(self, lay, *a):
        super().__init__(lay.s, *a)
        self.lay = lay

    def level(self, L, k, C, PL, hl):
        """What is known of level k of the layer, ilev < k <= jlev."""
        s, m = self.s, self.s.m
        P, Z = s.f['PRES'], s.f['HGHT']
        i, j, kl = L['ilev'], L['jlev'], L['klev']
        inn = sand(k > i, k <= j, k < s.n)
        h = hl(k)
        step = sand(h > 0, C(k) == C(k - 1) + h * logr(PL(k - 1), P.was(k)), PL(k) == P.was(k),
                    PL(k - 1) > P.was(k), sor(Z.gap(k), k == kl), C(k - 1) < C(k))
        rest = sand(C(k) == C(k - 1), PL(k) == PL(k - 1), k != kl)
        return sand(simplies(sand(inn, h == m), rest), simplies(sand(inn, mknot(h == m)), step),
                    simplies(inn, C(k) >= 0))

    def order(self, L, k, C):
        """The sums never fall."""
        s = self.s
        i, j, kl = L['ilev'], L['jlev'], L['klev']
        inn = sand(k >= i, k <= j, k < s.n)
        return sand(simplies(sand(inn, kl == 0, j < s.n), C(k) <= C(j)),
                    simplies(sand(inn, kl > i, k < kl), C(k) < C(kl)))

    def havoc(self, f, it, seq, k):
        s, L, c, lay = self.s, f.locals, ctx(), self.lay
        Z, P = s.f['HGHT'], s.f['PRES']
        before = Z.arr
        self.havoc_levels()
        Z.fact(lambda j, now: now(j) == Z.val(j, before))
        i = L['ilev']
        case = c.choose(['going on', 'found', 'top'])
        if case == 'top':
            L['jlev'], L['klev'], L['mand'], L['top'] = s.n + 0, 0, True, True
        else:
            j = L['jlev'] = SInt.var(c.fresh_name('jlev'))
            c.assume(sand(j >= i, j < s.n))
            s.read(j)
            L['mand'], L['top'] = case == 'found', False
            L['klev'] = j if case == 'found' else 0
        zlev = L['zlev']
        for nm in ('zt', 'tt', 'pt', 'tdt', 'znew', 'scale_z'):
            L.pop(nm, None)
        self.fresh(L, 'tb', 'tdb', 'pb', 'zb')
        if case == 'found':
            L['zt'], L['znew'] = Z.was(L['klev']), zlev + lay.C.val(L['klev'])
        if case == 'going on':
            L['pb'], L['zb'] = lay.PL.val(L['jlev']), zlev + lay.C.val(L['jlev'])
        hl, C, PL = L['hlist'], lay.C, lay.PL
        fr = dict(L)
        hv, cv, pv = hl.arr, C.arr, PL.arr
        hl.fact(lambda q, now: sand(
            self.level(fr, q, lambda x: C.val(x, cv), lambda x: PL.val(x, pv),
                       lambda x: hl.val(x, hv)),
            self.order(fr, q, lambda x: C.val(x, cv))))
        c.assume(sand(C.val(i) == 0, PL.val(i) == P.was(i)))
        if case == 'going on':
            pb = L['pb']
            hl.fact(lambda q, now: simplies(q > fr['jlev'], P.was(q) < pb))

    keeps = ('mand', 'klev')

    def inv(self, f, it, seq, k):
        s, L, lay = self.s, f.locals, self.lay
        Z, P, m = s.f['HGHT'], s.f['PRES'], s.m
        if not frame_has(L, 'ilev', 'jlev', 'klev', 'mand', 'top', 'zb', 'pb', 'tb', 'zlev',
                         'hlist') or not isinstance(L['hlist'], Work):
            return [('names', False)]
        i, j, kl, mand, top = (L[x] for x in ('ilev', 'jlev', 'klev', 'mand', 'top'))
        if k == 0:
            lay.C, lay.PL = Work(s, 0), Work(s, 0)
            ghost(lay.C, i, 0)
            ghost(lay.PL, i, L['pb'])
            lay.before = Z.arr
        elif k == 1:
            if j < s.n:
                s.read(j)
                ghost(lay.C, j, L['zb'] - L['zlev'])
                ghost(lay.PL, j, L['pb'])
        C, PL, hl = lay.C, lay.PL, L['hlist']
        on = mknot(mand)
        out = [('position', sor(
            sand(on, kl == 0, mknot(top), i <= j, j < s.n), sand(mand, top, kl == 0, j == s.n),
            sand(mand, mknot(top), kl == j, j > i, j < s.n))),
            ('bottom level', sand(L['zlev'] == Z.was(i), C.val(i) == 0, PL.val(i) == P.was(i))),
            ('temperature', sor(mand, sand(L['tb'] > -273.15)))]
        if k is None:
            if L['mand'] is True and L['top'] is False:
                out.append(('found', sand(complete(s, kl))))
            return out
        out.append(('sum', sor(mand, sand(L['zb'] == L['zlev'] + C.val(j), L['pb'] == PL.val(j),
                                          L['pb'] > 0))))
        q = s.any('q')
        out.append(('pressures ahead are lower', sor(mand, q <= j, P.was(q) < L['pb'])))
        zt_, zn = L.get('zt'), L.get('znew')
        out.append(('found', sor(on, top, False if zt_ is None or zn is None else sand(
            zt_ == Z.was(kl), complete(s, kl), zn == L['zlev'] + C.val(kl)))))
        out.append(('untouched', Z.val(q) == Z.val(q, lay.before)))
        for nm, lev in (('new level', j), ('level', q)):
            guard = sor(j >= s.n, True) if nm == 'new level' else q != j
            out.append((nm, sor(mknot(guard), self.level(L, lev, C.val, PL.val, hl.val))))
            out.append((nm + ' order', sor(mknot(guard), self.order(L, lev, C.val))))
        return out

    def variant(self, f, it):
        return self.s.n - f.locals['jlev']


class Stretch(Loop):
    """The scale heights from h on are as they were, those below stretched."""

    def __init__(self, lay, *a):
        super().__init__(lay.s, *a)
        self.lay = lay

    def begin(self, f, it, seq):
        self.old = f.locals['hlist'].arr
        self.hold = self.s.f['HGHT'].arr
        self.lay.scale = f.locals.get('s')

    def now(self, L, k, j, hl):
        w = L['hlist']
        old = w.val(j, self.old)
        done = sand(j > L['ilev'], j < k + L['ilev'] + 1)
        return hl == ite(sand(done, mknot(old == self.s.m)), old * self.lay.scale, old)

    def havoc(self, f, it, seq, k):
        L, s = f.locals, self.s
        Z = s.f['HGHT']
        s.f['HGHT'].havoc()
        Z.fact(lambda j, now: now(j) == Z.val(j, self.hold))
        L['hlist'].havoc()
        fr = dict(L)
        L['hlist'].fact(lambda j, now: self.now(fr, k, j, now(j)))

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if 's' not in L or not isinstance(L.get('hlist'), Work):
            return [('names', False)]
        j = s.any('j')
        Z = s.f['HGHT']
        return [('stretched', self.now(L, k, j, L['hlist'].val(j))),
                ('untouched', Z.val(j) == Z.val(j, self.hold))]


class Heights(Loop):
    """hbb is the height of the level below ii that was reached last, pbb its pressure."""

    def __init__(self, lay, *a):
        super().__init__(lay.s, *a)
        self.lay = lay

    def want(self, L, k):
        lay, top = self.lay, k + L['ilev']
        sc = lay.scale if self.found else 1
        return L['zlev'] + sc * lay.C.val(top), lay.PL.val(top)

    def begin(self, f, it, seq):
        L = f.locals
        self.found = not (isinstance(L['klev'], int) and L['klev'] == 0)
        self.s.mode = 'between' if self.found else 'open'
        self.hv = L['hlist'].arr

    def havoc(self, f, it, seq, k):
        s, L = self.s, f.locals
        Z = s.f['HGHT']
        Z.havoc()
        L['hlist'].havoc()
        L['hlist'].fact(lambda j, now: now(j) == L['hlist'].val(j, self.hv))
        L['hbb'], L['pbb'] = self.want(L, k)
        i = L['ilev']
        Z.fact(lambda j, now: simplies(j > i + k, now(j) == Z.was(j)))

    def assume_step(self, f, it, seq, k):
        s, L, lay, c = self.s, f.locals, self.lay, ctx()
        ii = seq.item(k)
        s.read(ii)
        s.read(k + L['ilev'])
        if not self.found:
            return
        C, S = lay.C, lay.scale
        h = SReal(z3.Select(self.old(), zt(ii)))
        lg = logr(lay.PL.val(k + L['ilev']), s.f['PRES'].was(ii))
        a, b, top = C.val(k + L['ilev']), C.val(ii), C.val(L['klev'])
        # instances of 'stretching'
        c.assume(simplies(b == a + h * lg, S * b == S * a + (h * S) * lg))
        c.assume(simplies(b == a, S * b == S * a))
        c.assume(simplies(sand(S > 0, b < top), S * b < S * top))
        c.assume(simplies(sand(S > 0, b >= 0), S * b >= 0))
        c.assume(simplies(sand(S > 0, a >= 0), S * a >= 0))
        c.assume(simplies(sand(S > 0, h > 0), h * S > 0))
        rise, d = L['zt'] - L['zlev'], L['znew'] - L['zlev']
        c.assume(simplies(sand(rise > 0, d > 0), sand(rise / d > 0, (rise / d) * d == rise)))

    def old(self):
        return self.stretch.old

    def inv(self, f, it, seq, k):
        s, L = self.s, f.locals
        if not frame_has(L, 'hbb', 'pbb'):
            return [('names', False)]
        Z = s.f['HGHT']
        z, p = self.want(L, k)
        j = s.any('j')
        return [('height', L['hbb'] == z), ('pressure', L['pbb'] == p),
                ('ahead untouched', sor(j <= L['ilev'] + k, Z.val(j) == Z.was(j))),
                ('scale heights', L['hlist'].val(j) == L['hlist'].val(j, self.hv))]


def stretch_lemma(c):
    a, b, h, lg, t, S, x, y = (SReal.var(n) for n in
                               ('a', 'b', 'h', 'lg', 't', 'S', 'x', 'y'))
    c.oblige('sum', simplies(b == a + h * lg, S * b == S * a + (h * S) * lg))
    c.oblige('order', simplies(sand(S > 0, b < t), S * b < S * t))
    c.oblige('sign', simplies(sand(S > 0, b >= 0), S * b >= 0))
    c.oblige('positive', simplies(sand(S > 0, h > 0), h * S > 0))
    c.assume(sand(x > 0, y > 0))
    c.oblige('ratio', sand(x / y > 0, (x / y) * y == x))
    c.cover('lemma')


def fill_moist(c):
    import gempakio.gemcalc as G
    s = Sounding(c, ['HGHT'])
    lay = Layer(s)
    M = Models()
    M.reg(np.ones, lambda it, a, k: Work(s, 1) if a[0] is s.n else NotImplemented)
    M.reg(np.full, lambda it, a, k: Work(s, a[1]) if a[0] is s.n else NotImplemented)
    st = Stretch(lay, ['klev', 'ilev'], ['klev', 'hlist'])
    hs = Heights(lay, ['jlev', 'ilev'], ['jlev', 'hlist'])
    hs.stretch = st
    it = Interp(M, contracts={MOD + 'scale_height': k_scale}, loops=[
        ('', None, FirstLevel(s, ['found', 'top'], ['ilev'])),
        ('', None, Summing(lay, ['mand'], ['jlev', 'klev'])),
        ('', None, st), ('', None, hs),
        ('', None, Layers(lay, ['top'], ['ilev']))])
    it.call(G.interp_moist_height, (s.dict(), s.m))
    c.cover('done')


# filled pressures fall (for C21) ------------------------------------------------------------------
#
# Nothing is taken for granted of the heights but what merging winds by height leaves: a level
# without pressure lies between two levels of lower and higher height, and not on a surface of
# unknown pressure.


class Ragged(Sounding):
    """Heights known around the levels without pressure."""

    def __init__(self, c):
        self.both = []
        super().__init__(c, ['PRES'], holes=True)

    def read(self, k):
        c = ctx()
        key = zt(k)
        if any(key.eq(zt(o)) for o in self.reads):
            return
        older = list(self.reads)
        self.reads.append(k)
        ok, m = self.inside(k), self.m
        P, Z = self.f['PRES'], self.f['HGHT']
        c.assume(simplies(ok, sor(P.gap(k), sand(P.was(k) > 0, P.was(k) < 2000))))
        c.assume(simplies(sand(ok, k >= 1, P.gap(k)), sand(
            k + 1 < self.n, *[mknot(Z.was(i) == m) for i in (k - 1, k, k + 1)],
            Z.was(k - 1) < Z.was(k), Z.was(k) < Z.was(k + 1), sor(k >= 2, mknot(P.gap(0))))))
        for lv in self.f.values():
            for fn in lv.facts:
                c.assume(simplies(ok, fn(k)))
        for o in older:
            for i, j in ((k, o), (o, k)):
                up = sand(ok, self.inside(o), i < j)
                c.assume(simplies(sand(up, mknot(P.gap(i)), mknot(P.gap(j))),
                                  P.was(i) > P.was(j)))
                for fn in self.both:
                    c.assume(simplies(up, fn(i, j)))

    def pair_fact(self, fn):
        """Of every two levels i < j of this version."""
        arr = self.f['PRES'].arr

        def bound(i, j):
            return fn(i, j, lambda q: self.f['PRES'].val(q, arr))
        self.both.append(bound)
        for i in list(self.reads):
            for j in list(self.reads):
                if i is not j:
                    ctx().assume(simplies(sand(self.inside(i), self.inside(j), i < j),
                                          bound(i, j)))

    def store(self, lv, k, v):
        ctx().oblige(f'{lv.name}: only missing levels are filled', sand(self.may(lv.name, k),
                                                                        k >= 1))


class OrderOuter(PressOuter):
    """The pressures up to level i fall; those after the last level with both are as given, all
    missing or none."""

    def shape(self, L):
        """Of one level, and of two."""
        s = self.s
        P, Z = s.f['PRES'], s.f['HGHT']
        i, lev = L['i'], L['klev']
        run = sand(lev >= 0, i - 1 > lev, P.gap(i - 1))

        def one(j, now):
            after = sand(j > lev, j < i)
            return [('as given', simplies(sor(j > lev, j == 0), now(j) == P.was(j))),
                    ('between', simplies(after, sor(P.gap(j), Z.gap(j)))),
                    ('filled', simplies(sand(j >= 1, j <= lev), mknot(now(j) == s.m))),
                    ('positive', sor(now(j) == s.m, sand(now(j) > 0, now(j) < 2000))),
                    ('all or none', simplies(sand(after, j >= 1), sor(
                        sand(run, P.gap(j)), sand(mknot(run), mknot(P.gap(j))))))]

        def two(a, b, now):
            return [('fall', sor(b >= i, now(a) == s.m, now(b) == s.m, now(a) > now(b))),
                    ('heights rise', simplies(sand(run, a >= lev, b < i), Z.was(a) < Z.was(b)))]
        return one, two

    def havoc(self, f, it, seq, k):
        L, s = f.locals, self.s
        c = ctx()
        self.havoc_levels()
        L['i'] = SInt.var(c.fresh_name('i'))
        if c.choose(['none', 'some']) == 'none':
            L['klev'] = L['ilev'] = -1
            L['pt'] = L['pb'] = L['zt'] = L['zb'] = s.m
        else:
            lev = SInt.var(c.fresh_name('lev'))
            c.assume(sand(s.inside(lev), lev < L['i']))
            s.read(lev)
            L['klev'] = L['ilev'] = lev
            L['pt'] = L['pb'] = s.f['PRES'].val(lev)
            L['zt'] = L['zb'] = s.f['HGHT'].val(lev)
            c.assume(sand(L['pb'] == s.f['PRES'].was(lev), mknot(L['pb'] == s.m),
                          mknot(L['zb'] == s.m)))
        one, two = self.shape(dict(L))
        s.f['PRES'].fact(lambda j, now: sand(*[x for _n, x in one(j, now)]))
        s.pair_fact(lambda a, b, now: sand(*[x for _n, x in two(a, b, now)]))
        for q in (0, L['i'] - 1, L['i']):
            s.read(q)

    def inv(self, f, it, seq, k):
        L, s = f.locals, self.s
        P, Z = s.f['PRES'], s.f['HGHT']
        m = s.m
        if not frame_has(L, 'i', 'klev', 'ilev', 'pt', 'pb', 'zt', 'zb'):
            return [('names', False)]
        i, lev = L['i'], L['klev']
        out = [('position', sand(i >= 0, i <= s.n)),
               ('same level', sand(L['ilev'] == lev, L['pb'] == L['pt'], L['zb'] == L['zt']))]
        if k is None:
            return out
        wit = some(sand(lev == o, lev >= 0, lev < i, P.was(o) == L['pt'], P.val(o) == L['pt'],
                        Z.was(o) == L['zt'], mknot(L['pt'] == m), mknot(L['zt'] == m))
                   for o in s.reads)
        out.append(('bottom level', sor(lev == -1, wit)))
        one, two = self.shape(L)
        s.read(i - 2)
        j, a, b = s.any('j'), s.any('a'), s.any('b')
        out += [(nm, cond) for nm, cond in one(j, P.val)]
        out += [(nm, simplies(a < b, cond)) for nm, cond in two(a, b, P.val)]
        return out


class OrderInner(Loop):
    """Levels passed hold V(height), a falling function between the two pressures."""

    def begin(self, f, it, seq):
        s, L, c = self.s, f.locals, ctx()
        self.before = s.f['PRES'].arr
        name = c.fresh_name('V')
        self.V = lambda z: uf_real(name, z)
        self.ends = tuple(to_real(L[x]) for x in ('pb', 'pt', 'zb', 'zt'))
        self.low = L['ilev']

    def bounds(self, z):
        p, t, a, b = self.ends
        ok = sand(p > t, t > 0, a < b)
        return simplies(sand(ok, a < z, z < b), sand(self.V(z) > t, self.V(z) < p))

    def falls(self, y, z):
        p, t, a, b = self.ends
        ok = sand(p > t, t > 0, a < b)
        return simplies(sand(ok, y < z), self.V(y) > self.V(z))

    def held(self, q, j):
        s = self.s
        z, was = s.f['HGHT'].was(q), s.f['PRES'].val(q, self.before)
        return ite(sand(q > self.low, q < j, mknot(z == s.m)), self.V(z), was)

    def havoc(self, f, it, seq, k):
        s = self.s
        P, Z = s.f['PRES'], s.f['HGHT']
        self.havoc_levels()
        self.assuming = True
        j = seq.item(k)
        P.fact(lambda q, now: sand(now(q) == self.held(q, j), self.bounds(Z.was(q))))
        s.pair_fact(lambda a, b, now: sand(self.falls(Z.was(a), Z.was(b)),
                                           self.falls(Z.was(b), Z.was(a))))

    def assume_step(self, f, it, seq, k):
        s, L = self.s, f.locals
        c = ctx()
        j = seq.item(k)
        s.read(j)
        z = s.f['HGHT'].was(j)
        p, t, a, b = self.ends

        def on_exp(x, e):
            lg = next((g for y, g in c.state['logs'] if z3.simplify(y.t).eq(
                z3.simplify((t / p).t))), None)
            if lg is None:
                raise Unsupported('logarithm of the ratio of the pressures')
            c.oblige('log-linear in height', x * (b - a) == (z - a) * lg)
            c.assume(self.V(z) == p * e)
        c.state['on_exp2'] = on_exp

    def inv(self, f, it, seq, k):
        s = self.s
        if k is None:
            return []
        if getattr(self, 'assuming', False):
            # the facts of the version
            self.assuming = False
            return []
        j = s.any('q')
        return [('held', s.f['PRES'].val(j) == self.held(j, seq.item(k)))]


def exp_named(interp, a, kw):
    from pyvc.models import ufelem
    x = a[0]
    if not is_sym(x):
        return NotImplemented
    r = ufelem('exp', x)
    if 'on_exp2' not in ctx().state:
        raise Unsupported('exponential outside the levels filled')
    ctx().state['on_exp2'](x, r)
    return r


def falling_lemma(c):
    """V(z) = p exp((z - a) log(t / p) / (b - a)) falls, and lies between t and p for z between a
    and b."""
    y, z, a, b, p, t, lg = (SReal.var(n) for n in 'yzabptl')
    c.assume(sand(p > t, t > 0, a < b, lg < 0))         # lg = log(t / p), t / p < 1
    q, r = (y - a) * lg / (b - a), (z - a) * lg / (b - a)
    c.cover('lemma')
    c.oblige('falls', simplies(y < z, q > r))
    c.oblige('negative', simplies(sand(a < z), r < 0))
    c.oblige('above the logarithm', simplies(sand(z < b), r > lg))
    d, e = SReal.var('d'), SReal.var('e')
    c.oblige('product falls', simplies(d > e, p * d > p * e))
    c.oblige('product below', simplies(e < 1, p * e < p))
    c.oblige('product above', simplies(e > t / p, p * e > t))
    c.oblige('ratio', t / p < 1)


def order_pressure(c):
    import gempakio.gemcalc as G
    s = Ragged(c)
    M = Models()
    M.reg(np.exp, exp_named)
    it = Interp(M, loops=[('', None, OrderInner(s, ['ilev', 'klev'], ['j', 'zt'])),
                          ('', None, OrderInner(s, ['ilev', 'klev'], ['zt'])),
                          ('', None, OrderOuter(s, ['i', 'size'], ['klev', 'ilev']))])
    it.call(G.interp_logp_pressure, (s.dict(), s.m))
    c.cover('done')
    P = s.f['PRES']
    j, a, b = s.any('j'), s.any('a'), s.any('b')
    s.read(s.n - 1)
    c.oblige('known pressures are kept', sor(P.gap(j), P.val(j) == P.was(j)))
    c.oblige('surface pressure', P.val(0) == P.was(0))
    c.oblige('all pressures known above the surface', sor(j == 0, mknot(P.val(j) == s.m)))
    c.oblige('pressures fall', sor(a >= b, P.val(a) == s.m, P.val(b) == s.m,
                                   P.val(a) > P.val(b)))
    c.oblige('pressures are positive', sor(P.val(j) == s.m, sand(P.val(j) > 0,
                                                                 P.val(j) < 2000)))


def run(name, body, deadline=None):
    c = Ctx(name, timeout_ms=20000, deadline=deadline, max_paths=20000)
    c.state_global = {}
    c.explore(body)
    return [c]


BODIES = {'pressure between (1)': between_lemma, 'pressure between (2)': between_lemma2,
          'fill pressures': fill_pressure, 'scale height': scale_positive,
          'height between': fraction_lemma, 'fill heights': fill_height,
          'fill missing data': fill_missing,
          'stretching': stretch_lemma, 'fill moist heights': fill_moist}

ORDER = {'filled pressures fall (lemma)': falling_lemma, 'filled pressures fall': order_pressure}


if __name__ == '__main__':
    import sys
    import time
    for nm, b in {**BODIES, **ORDER}.items():
        if len(sys.argv) > 1 and nm not in sys.argv[1:]:
            continue
        t0 = time.time()
        c0 = run(nm, b, time.time() + 600)[0]
        bad = [o for o in c0.obligations if o.status != 'proved']
        print(nm, len(c0.obligations), 'bad', len(bad), f'{time.time() - t0:.1f}s', c0.paths,
              list(c0.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
