"""C21: merging the parts of a sounding.

`_merge_sounding` is one long body.  Its statements run in segments: what stands before the first
use of the sounding being made (the prologue, which counts the levels of each part) is run in
front of every segment, and each segment starts from an arbitrary sounding that has the shape
every segment before must leave (the cuts lie between statements of the function, where no other
local name is still needed; a name that is needed all the same is unbound and fails).

The parts hold any numbers of levels, zero for a part that is absent: reading a part after the
prologue carries the obligation that it has a level.

The sounding being made: six lists over a symbolic number of levels.  Every insertion shifts the
list it is made in alone, so that the lists keep one length, and a level keeps its values, only
if the code inserts into all six at one place.
"""
import ast
import bisect
import functools

import numpy as np
import z3

from contracts import thermo
from pyvc.core import (Ctx, PathEnd, SInt, SReal, Sym, Unsupported, ctx, is_sym, ite, mkbool,
                       mknot, sand, simplies, sor, to_real)
from pyvc.interp import FnInfo, Frame, Interp, LoopContract, _Return
from pyvc.models import Models, SSeq

MOD = 'gempakio.gemcalc.'
SIX = ['PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED']
DATA = ['TTAA', 'PPAA', 'TRPA', 'MXWA', 'TTBB', 'PPBB', 'TTCC', 'PPCC', 'TRPC', 'MXWC', 'TTDD',
        'PPDD']
TEXT = ['TXTA', 'TXTB', 'TXTC', 'TXPB']
META = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'DATE', 'TIME']
COLS = {**{n: ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'] for n in ('TTAA', 'TTCC')},
        **{n: ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED'] for n in ('TRPA', 'TRPC')},
        **{n: ['PRES', 'TEMP', 'DWPT'] for n in ('TTBB', 'TTDD')},
        **{n: ['PRES', 'DRCT', 'SPED'] for n in ('PPAA', 'PPCC', 'MXWA', 'MXWC')},
        **{n: ['HGHT', 'DRCT', 'SPED'] for n in ('PPBB', 'PPDD')}}


def zt(i):
    return i.t if isinstance(i, SInt) else z3.IntVal(int(i))


def same(a, b):
    return zt(a).eq(zt(b))


# the parts -------------------------------------------------------------------------------------


class Part(Sym):
    """One part: columns over its levels."""

    pytype = dict

    def __init__(self, world, name, cols):
        self.world, self.name = world, name
        self.n = SInt.var('levels_' + name)
        ctx().assume(self.n >= 0)
        self.arr = {c: z3.Array(f'{name}_{c}', z3.IntSort(), z3.RealSort()) for c in cols}
        self.alias = {c: c for c in cols}
        self.reads = []

    def raw(self, col, k):
        return SReal(z3.Select(self.arr[self.alias[col]], zt(k)))

    def at(self, col, k):
        self.read(k)
        return self.raw(col, k)

    def inside(self, k):
        return sand(k >= 0, k < self.n)

    def read(self, k):
        """What is taken for granted of every level of a part."""
        if any(same(k, o) for o in self.reads):
            return
        c = ctx()
        older = list(self.reads)
        self.reads.append(k)
        ok, m = self.inside(k), self.world.m
        for col in self.arr:
            v = SReal(z3.Select(self.arr[col], zt(k)))
            c.assume(simplies(ok, sor(v == m, v > m)))
        if 'PRES' in self.alias:
            self.pressure(k)
        if 'PRES' in self.alias and self.name in ('TTAA', 'TTCC'):
            low = 1 if self.name == 'TTAA' else 0      # the surface level is not in sequence
            v = self.raw('PRES', k)
            for o in older:
                w = self.raw('PRES', o)
                both = sand(ok, self.inside(o), k >= low, o >= low, mknot(v == m), mknot(w == m))
                c.assume(simplies(sand(both, k < o), v > w))
                c.assume(simplies(sand(both, o < k), w > v))
            a, b = self.world.parts.data['TTAA'], self.world.parts.data['TTCC']
            for o in b.reads if self is a else a.reads:
                i, j = (k, o) if self is a else (o, k)
                pa, pb = a.raw('PRES', i), b.raw('PRES', j)
                c.assume(simplies(sand(a.inside(i), i >= 1, b.inside(j), mknot(pa == m),
                                       mknot(pb == m)), pb < pa))

    def pressure(self, k):
        v, m = self.raw('PRES', k), self.world.m
        ctx().assume(simplies(self.inside(k), sor(v == m, sand(v > 0, v < 2000), sand(
            self.name[:2] == 'PP', v < 0, v > -2000))))

    def column(self, col):
        return SSeq(self.n, lambda k: self.at(col, k))

    def __getitem__(self, col):
        if col not in self.alias:
            raise KeyError(col)
        return self.column(col)

    def __setitem__(self, col, v):
        for nm in self.alias:
            if isinstance(v, SSeq):
                k = SInt.var(ctx().fresh_name('k'))
                got = v.item(k)
                if isinstance(got, SReal) and got.t.eq(self.raw(nm, k).t):
                    self.alias[col] = self.alias[nm]
                    if col == 'PRES':
                        # pressures in the place of heights
                        for r in self.reads:
                            self.pressure(r)
                    return
        raise Unsupported('column of a part replaced')

    def __contains__(self, col):
        return col in self.alias

    def items(self):
        return [(c, self.column(c)) for c in self.alias]

    def keys(self):
        return list(self.alias)

    def __iter__(self):
        return iter(list(self.alias))


class Parts(Sym):
    """The parts of one sounding, its station and text."""

    pytype = dict

    def __init__(self, world, kinds, absent=()):
        self.world, self.absent = world, set(absent)
        world.parts = self
        self.strict = False
        self.found = {}
        self.data = {}
        for n in DATA:
            cols = list(COLS[n])
            if n in kinds and kinds[n] == 'PRES':
                cols[0] = 'PRES'
            self.data[n] = Part(world, n, cols)
        self.text = {}

    def __contains__(self, k):
        if k in DATA:
            if self.strict and k not in self.found:
                # a part without levels may be there or not
                self.found[k] = bool(self.data[k].n >= 1) or ctx().choose(
                    ['empty', 'absent']) == 'empty'
            return self.found[k] if self.strict else k not in self.absent
        if k in TEXT:
            if k not in self.text:
                self.text[k] = ctx().choose(['text', 'no text']) == 'text'
            return self.text[k]
        return k in META

    def __getitem__(self, k):
        if k in DATA:
            if k in self.absent:
                raise KeyError(k)
            p = self.data[k]
            if self.strict and not self.found.get(k):
                ctx().oblige('absent parts are not read', p.n >= 1, k)
            return p
        if k in TEXT:
            if not self.text.get(k):
                raise KeyError(k)
            return {'TEXT': 'text of ' + k}
        if k == 'SELV':
            return self.world.selv
        if k in META:
            return 'meta ' + k
        raise KeyError(k)


class World:
    """What one body knows: the missing value, the parts, the sounding being made."""

    def __init__(self, kinds=None, absent=()):
        self.m = SReal.var('missing')
        self.selv = SReal.var('elevation')
        ctx().assume(sand(self.m < -3000, self.selv >= self.m))
        self.parts = None
        Parts(self, kinds or {}, absent)

    def __getattr__(self, k):
        raise AttributeError(k)


# the sounding being made -------------------------------------------------------------------------


class View(Sym):
    """A slice of a list as it is now: element q is level a + s * q of the list."""

    pytype = list

    def __init__(self, col, a, s, n):
        self.col, self.a, self.s, self.n = col, a, s, n
        self.ops = list(col.ops)
        self.base = col.mg

    def sym_len(self):
        return self.n

    def level(self, q):
        return self.a + q * self.s

    def item(self, q):
        return self.col.value(self.level(q), self.ops)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step in (None, 1) and k.stop is None and isinstance(k.start, int) \
                    and k.start >= 0:
                n = self.n - k.start
                n = ite(n >= 0, n, 0)
                return View(self.col, self.level(k.start), self.s, n)
            if k.step == -1 and k.start is None and k.stop is None:
                return View(self.col, self.level(self.n - 1), -self.s, self.n)
            raise Unsupported('slice of a list of levels')
        if not isinstance(k, (int, SInt)):
            raise Unsupported('index of a list of levels')
        if k < 0:
            k = k + self.n
        if not sand(k >= 0, k < self.n):
            raise IndexError('list index out of range')
        return self.item(k)

    def plain(self):
        if self.ops or self.base is not self.col.mg:
            raise Unsupported('search in a list that was changed before')

    def each(self, fn):
        """fn(q) for the elements q of the list (levels without changes)."""
        self.plain()
        self.base.fact(lambda k: simplies(self.covers(k), fn(self.place(k))))

    def place(self, k):
        return (k - self.a) if self.s == 1 else (self.a - k)

    def covers(self, k):
        q = self.place(k)
        return sand(q >= 0, q < self.n)

    def contains(self, x):
        c = ctx()
        self.plain()
        if c.choose(['in', 'not in']) == 'in':
            e = SInt.var(c.fresh_name('found'))
            c.assume(sand(e >= 0, e < self.n))
            c.assume(self.item(e) == x)
            self.base.found.append((self.col, self.level(e)))
            return True
        self.each(lambda q: mknot(self.item(q) == x))
        return False

    def __contains__(self, x):
        return self.contains(to_real(x))

    def index(self, x):
        c = ctx()
        self.plain()
        x = to_real(x)
        at = [lv for col, lv in self.base.found if col is self.col]
        c.oblige('index: the value is there',
                 sor(*[sand(self.covers(lv), self.item(self.place(lv)) == x) for lv in at])
                 if at else False)
        e = SInt.var(c.fresh_name('index'))
        c.assume(sand(e >= 0, e < self.n))
        c.assume(self.item(e) == x)
        return e


def m_bisect(interp, args, kw):
    v = args[0]
    if isinstance(v, Col):
        v = v.view()
    if not isinstance(v, View):
        return NotImplemented
    if len(args) != 2 or kw:
        raise Unsupported('bisect arguments')
    c = ctx()
    x = to_real(args[1])
    v.plain()
    a, b = SInt.var(c.fresh_name('a')), SInt.var(c.fresh_name('b'))
    up = sand(a >= 0, a < b, b < v.n)
    c.oblige('bisect: the list is sorted around the value',
             simplies(sand(up, v.item(b) < x), v.item(a) < x))
    r = SInt.var(c.fresh_name('bisect'))
    c.assume(sand(r >= 0, r <= v.n))
    v.each(lambda q: ite(q < r, v.item(q) < x, v.item(q) >= x))
    return r


class Col(Sym):
    """One list of the sounding."""

    pytype = list

    def __init__(self, mg, name):
        self.mg, self.name = mg, name
        self.ops = []
        self.n = mg.n

    def reset(self):
        self.ops, self.n = [], self.mg.n
        self.__dict__.pop('value', None)

    def sym_len(self):
        return self.n

    def value(self, k, ops):
        """Element k after the operations."""
        if not ops:
            self.mg.read(k)
            return self.mg.raw(self.name, k)
        kind, at, v = ops[-1]
        rest = ops[:-1]
        if kind == 'set':
            return ite(k == at, v, self.value(k, rest))
        return ite(k < at, self.value(k, rest), ite(k == at, v, self.value(k - 1, rest)))

    def val(self, k):
        return self.value(k, self.ops)

    def view(self):
        return View(self, 0, 1, self.n)

    def __getitem__(self, k):
        return self.view()[k]

    def __contains__(self, x):
        return self.view().contains(to_real(x))

    def index(self, x):
        return self.view().index(x)

    def number(self, v):
        v = to_real(v)
        if v is None:
            raise Unsupported('a level is no number')
        return v

    def __setitem__(self, k, v):
        if not isinstance(k, (int, SInt)):
            raise Unsupported('index of a list of levels')
        if k < 0:
            k = k + self.n
        if not sand(k >= 0, k < self.n):
            raise IndexError('list assignment index out of range')
        self.ops.append(('set', k, self.number(v)))

    def insert(self, k, v):
        ctx().oblige(f'{self.name}: inserted among the levels', sand(k >= 0, k <= self.n))
        self.ops.append(('ins', k, self.number(v)))
        if self.name == 'PRES':
            self.mg.w = ite(k <= self.mg.w, self.mg.w + 1, self.mg.w)
        self.n = self.n + 1

    def append(self, v):
        self.insert(self.n, v)


class Merged:
    """The six lists, and the mandatory level followed through the function (hw: there is one,
    now level w)."""

    def __init__(self, world, ghost=True):
        c = ctx()
        self.world, self.m = world, world.m
        self.hw = mkbool(z3.Bool('mandatory'))if ghost else False
        self.gp, self.gt, self.gd = (SReal.var(n) for n in ('mand_p', 'mand_t', 'mand_d'))
        c.assume(simplies(self.hw, sand(mknot(self.gp == self.m), mknot(self.gt == self.m))))
        self.p0 = None
        self.gaps = self.weak = self.below = False
        self.shape = None
        self.nb = 0
        self.n = SInt.var('size')
        self.f = {nm: Col(self, nm) for nm in SIX}
        self.havoc()

    def havoc(self, n=None):
        """Any sounding of the shape described by goals()."""
        c = ctx()
        self.n = SInt.var(c.fresh_name('size')) if n is None else n
        c.assume(self.n >= 1)
        self.reads, self.facts, self.found = [], [], []
        self.w = SInt.var(c.fresh_name('w'))
        self.arr = {nm: z3.Array(c.fresh_name(nm), z3.IntSort(), z3.RealSort()) for nm in SIX}
        if self.below:
            self.nb = SInt.var(c.fresh_name('below_ground'))
            c.assume(sand(self.nb >= 0, self.nb < self.n))
        self.shape = (self.gaps, self.below, self.nb)      # of the lists as they start out
        for col in self.f.values():
            col.reset()
        p0 = self.raw('PRES', 0)
        if self.p0 is None:
            self.p0 = p0
        c.assume(p0 == self.p0)
        self.read(0)
        c.assume(simplies(self.hw, sand(self.w >= 1, self.w < self.n)))
        self.read(self.w)
        c.assume(simplies(self.hw, self.level_at(self.w)))

    def raw(self, nm, k):
        return SReal(z3.Select(self.arr[nm], zt(k)))

    def inside(self, k):
        return sand(k >= 0, k < self.n)

    def fact(self, fn):
        self.facts.append(fn)
        for k in list(self.reads):
            ctx().assume(simplies(self.inside(k), fn(k)))

    def read(self, k):
        if any(same(k, o) for o in self.reads):
            return
        c = ctx()
        older = list(self.reads)
        self.reads.append(k)
        ok = self.inside(k)
        P = lambda i: self.raw('PRES', i)       # noqa: E731
        Z = lambda i: self.raw('HGHT', i)       # noqa: E731
        for _nm, cond in self.one(k, P, Z, self.n, self.shape):
            c.assume(simplies(ok, cond))
        for o in older:
            both = sand(ok, self.inside(o))
            for i, j in ((k, o), (o, k)):
                c.assume(simplies(sand(both, i < j), self.pair(i, j, P, self.shape)))
        for fn in list(self.facts):
            c.assume(simplies(ok, fn(k)))

    # what holds of every level, and of every two
    def one(self, k, P, Z, n, shape):
        m = self.m
        gaps, below, nb = shape
        p = P(k)
        out = [('pressures are positive', sor(p == m, sand(p > 0, p < 2000)))]
        for nm in SIX:
            v = Z(k) if nm == 'HGHT' else None
            if v is not None:
                out.append(('heights', sor(v == m, v > m)))
        if not gaps:
            out.append(('pressure known above the surface', sor(k < 1, mknot(p == m))))
        else:
            gap = sand(k >= 1, p == m)
            out.append(('levels without pressure lie between heights', simplies(gap, sand(
                k + 1 < n, *[mknot(Z(i) == m) for i in (k - 1, k, k + 1)],
                Z(k - 1) < Z(k), Z(k) < Z(k + 1), sor(k >= 2, mknot(P(0) == m))))))
        if below:
            out.append(('below the ground', simplies(sand(k >= 1, k <= nb),
                                                     sand(mknot(P(0) == m), p > P(0)))))
        return out

    def pair(self, i, j, P, shape):
        m = self.m
        _gaps, below, nb = shape
        aside = False if not below else sor(sand(i >= 1, i <= nb), sand(j >= 1, j <= nb))
        return sor(P(i) == m, P(j) == m, aside, P(i) > P(j))

    def level_at(self, w, f=None):
        get = (lambda nm: self.raw(nm, w)) if f is None else (lambda nm: f(nm, w))
        d = get('DWPT') == self.gd
        if self.weak:
            d = sor(d, self.gd == self.m)
        return sand(get('PRES') == self.gp, get('TEMP') == self.gt, d)

    def now(self, nm, k):
        return self.f[nm].val(k)

    def goals(self, cands=(), hw=None):
        """The shape, of the lists as they are now."""
        c = ctx()
        n = self.f['PRES'].n
        out = [('one length', sand(*[self.f[nm].n == n for nm in SIX])), ('a level', n >= 1)]
        P = lambda i: self.now('PRES', i)       # noqa: E731
        Z = lambda i: self.now('HGHT', i)       # noqa: E731
        k = SInt.var(c.fresh_name('k'))
        shape = (self.gaps, self.below, self.nb)
        for nm, cond in self.one(k, P, Z, n, shape):
            out.append((nm, simplies(sand(k >= 0, k < n), cond)))
        i, j = SInt.var(c.fresh_name('i')), SInt.var(c.fresh_name('j'))
        out.append(('pressure falls', simplies(sand(i >= 0, i < j, j < n),
                                                self.pair(i, j, P, shape))))
        out.append(('surface pressure', P(0) == self.p0))
        hw = self.hw if hw is None else hw
        if hw is not False:
            out.append(('mandatory level', simplies(hw, sor(*[
                sand(w >= 1, w < n, self.level_at(w, self.now)) for w in [self.w, *cands]]))))
        return out


def merged_of(f):
    """The sounding a frame works on."""
    for v in f.locals.values():
        if isinstance(v, dict) and isinstance(v.get('PRES'), Col):
            return v['PRES'].mg
        if isinstance(v, Col):
            return v.mg
    return None


def touches(f, node):
    seen = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name)}
    for nm in seen:
        v = f.locals.get(nm)
        if isinstance(v, Col) or isinstance(v, dict) and any(
                isinstance(x, Col) for x in v.values()):
            return True
    return False


# loops ------------------------------------------------------------------------------------------


class Scan(LoopContract):
    """A loop that looks something up: names given a value before are not changed by a round that
    does not leave the loop."""

    names = ('any',)

    def applies(self, frame, interp):
        n = interp.loop_node
        return isinstance(n, ast.For) and not touches(frame, n)

    def begin(self, f, it, seq):
        own = {x.id for x in ast.walk(it.loop_node.target) if isinstance(x, ast.Name)}
        for nm in own:
            f.locals.pop(nm, None)
        self.own = own
        self.before = dict(f.locals)

    def havoc(self, f, it, seq, k):
        return

    keeps = property(lambda self: tuple(self.before))

    def inv(self, f, it, seq, k):
        return [('names kept', all(f.locals.get(n) is v for n, v in self.before.items()))]


class MergeLoop(LoopContract):
    """A loop over the levels of a part: the sounding keeps its shape."""

    names = ('any',)

    def __init__(self):
        self.mine = {}

    def applies(self, frame, interp):
        n = interp.loop_node
        return isinstance(n, ast.For) and touches(frame, n) and self.known(frame, n)

    def known(self, frame, node):
        return True

    def havoc(self, f, it, seq, k):
        mg = merged_of(f)
        mg.havoc()
        self.assuming = True
        self.more_havoc(f, mg, seq, k)

    def more_havoc(self, f, mg, seq, k):
        return

    def scalars(self, f, mg, seq, k):
        return []

    def inv(self, f, it, seq, k):
        mg = merged_of(f)
        out = self.scalars(f, mg, seq, k)
        if getattr(self, 'assuming', False):
            self.assuming = False
            return out
        return out + self.goals(f, mg, seq, k)

    def goals(self, f, mg, seq, k):
        return mg.goals()


class PbotLoop(MergeLoop):
    """pbot: no pressure above it is merged, so it stays at or below that of the surface."""

    names = ('pbot',)

    def known(self, frame, node):
        return 'pbot' in frame.locals

    def more_havoc(self, f, mg, seq, k):
        f.locals['pbot'] = SReal.var(ctx().fresh_name('pbot'))

    def scalars(self, f, mg, seq, k):
        p = f.locals.get('pbot')
        if p is None:
            return [('pbot', False)]
        return [('pbot not above the surface pressure', sor(mg.p0 == mg.m, p <= mg.p0)),
                ('pbot is a pressure', p < 2000)]


class ManLoop(MergeLoop):
    """Mandatory levels: plast is the last pressure merged, or still the first limit."""

    names = ('plast',)

    def __init__(self, world, ghost, part):
        super().__init__()
        self.world, self.ghost, self.part = world, ghost, part

    def known(self, frame, node):
        return 'plast' in frame.locals and any(
            isinstance(x, ast.Constant) and x.value == self.part
            for b in node.body for x in ast.walk(b))

    def top(self, mg):
        return ite(mg.p0 == mg.m, 2000, mg.p0)

    def sources(self):
        parts = self.world.parts.data
        return [parts['TTAA']] + ([parts['TTCC']] if self.part == 'TTCC' else [])

    def more_havoc(self, f, mg, seq, k):
        c = ctx()
        L = f.locals
        self.i = i = k + 1 if self.part == 'TTAA' else k
        src = c.choose(['limit', *self.sources()])
        if src == 'limit':
            L['plast'] = to_real(self.top(mg))
        else:
            e = SInt.var(c.fresh_name('last'))
            c.assume(src.inside(e))
            if src.name == self.part:
                c.assume(e < i)
            if src.name == 'TTAA':
                c.assume(e >= 1)
            L['plast'] = src.at('PRES', e)
            c.assume(mknot(L['plast'] == mg.m))
        p = L['plast']
        mg.fact(lambda j: sor(mg.raw('PRES', j) == mg.m, mg.raw('PRES', j) >= p))
        if 'bgl' in L:
            L['bgl'] = SInt.var(c.fresh_name('bgl'))
        if self.ghost and self.ghost[0] == self.part:
            # merged only once its turn has come
            mg.hw = sand(self.ghost[2], self.ghost[1] < i)
            c.assume(simplies(mg.hw, sand(mg.w >= 1, mg.w < mg.n, mg.level_at(mg.w))))

    def goals(self, f, mg, seq, k):
        L = f.locals
        c = ctx()
        i = k + 1 if self.part == 'TTAA' else k
        if 'plast' not in L:
            return [('plast', False)]
        p = to_real(L['plast'])
        opts = [p == self.top(mg)]
        for src in self.sources():
            for o in list(src.reads):
                opts.append(sand(src.inside(o), o < i if src.name == self.part else True,
                                 o >= 1 if src.name == 'TTAA' else True,
                                 src.raw('PRES', o) == p, mknot(p == mg.m)))
        out = [('plast', sor(*opts))]
        j = SInt.var(c.fresh_name('j'))
        pj = mg.now('PRES', j)
        out.append(('plast is the lowest pressure', simplies(
            sand(j >= 0, j < mg.f['PRES'].n), sor(pj == mg.m, pj >= p))))
        hw = None
        if self.ghost:
            if self.ghost[0] == self.part:
                hw = sand(self.ghost[2], self.ghost[1] < i)
            elif self.ghost[0] == 'TTCC':
                hw = False
        return out + mg.goals([mg.f['PRES'].n - 1], hw)


class BelowLoop(MergeLoop):
    """Levels below the ground follow the surface, each after those inserted before."""

    names = ('size',)

    def known(self, frame, node):
        return 'size' in frame.locals and any(
            isinstance(x, ast.Constant) and x.value == 'TTAA'
            for b in node.body for x in ast.walk(b))

    def begin(self, f, it, seq):
        mg = merged_of(f)
        mg.nb, mg.below = 0, True
        self.start = True

    def more_havoc(self, f, mg, seq, k):
        c = ctx()
        f.locals['size'] = mg.n
        ta = mg.world.parts.data['TTAA']
        self.i = k + 1
        # the lowest of those inserted: one before in the part
        e = SInt.var(c.fresh_name('last'))
        some = mg.nb >= 1
        c.assume(simplies(some, sand(ta.inside(e), e >= 1, e < self.i)))
        low = ta.at('PRES', e)
        c.assume(simplies(some, sand(mknot(low == mg.m), low > mg.p0)))
        nb = mg.nb
        mg.fact(lambda j: simplies(sand(j >= 1, j <= nb), mg.raw('PRES', j) >= low))
        mg.read(mg.nb)
        mg.read(mg.nb + 1)

    def goals(self, f, mg, seq, k):
        c = ctx()
        P = mg.f['PRES']
        ins = sum(1 for o in P.ops if o[0] == 'ins')
        ta = mg.world.parts.data['TTAA']
        out = []
        if getattr(self, 'start', False):
            self.start = False
            return mg.goals() + [('size', f.locals['size'] == P.n)]
        mg.nb = mg.nb + ins
        out += mg.goals()
        j = SInt.var(c.fresh_name('j'))
        opts = []
        for o in list(ta.reads):
            low = ta.raw('PRES', o)
            opts.append(sand(ta.inside(o), o >= 1, o < k + 1, mknot(low == mg.m), low > mg.p0,
                             simplies(sand(j >= 1, j <= mg.nb), mg.now('PRES', j) >= low)))
        out.append(('lowest below the ground', sor(mg.nb == 0, *opts)))
        out.append(('size', f.locals['size'] == P.n))
        return out


class HeightInner(LoopContract):
    """Up to the levels around a height: zold and znxt are the heights of levels ilev - 1 and
    ilev, as long as there are more."""

    names = ('any',)

    def tests(self, interp):
        n = interp.loop_node
        return {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)} \
            if isinstance(n, ast.While) else set()

    def applies(self, frame, interp):
        return 'znxt' in self.tests(interp)

    def position(self, f, mg):
        """Any position with more levels, or without."""
        c, L = ctx(), f.locals
        if c.choose(['more', 'no more']) == 'no more':
            L['more'] = False
            for nm in ('zold', 'znxt'):
                L[nm] = SReal.var(c.fresh_name(nm))
            L['ilev'] = SInt.var(c.fresh_name('ilev'))
            return
        L['more'] = True
        e = L['ilev'] = SInt.var(c.fresh_name('ilev'))
        c.assume(sand(e >= 1, e < mg.n, sor(e >= 2, mknot(mg.p0 == mg.m))))
        L['zold'], L['znxt'] = mg.now('HGHT', e - 1), mg.now('HGHT', e)
        mg.now('PRES', e - 1)
        c.assume(sand(mknot(L['zold'] == mg.m), mknot(L['znxt'] == mg.m)))

    def around(self, f, mg):
        L = f.locals
        if any(nm not in L for nm in ('more', 'zold', 'znxt')):
            return [('names', False)]
        more = L['more']
        if 'ilev' not in L:
            return [('position', mknot(more))]
        e = L['ilev']
        return [('position', simplies(more, sand(
            e >= 1, e < mg.f['HGHT'].n, sor(e >= 2, mknot(mg.p0 == mg.m)),
            mg.now('HGHT', e - 1) == L['zold'], mg.now('HGHT', e) == L['znxt'],
            mknot(L['zold'] == mg.m), mknot(L['znxt'] == mg.m))))]

    def havoc(self, f, it, seq, k):
        mg = merged_of(f)
        self.position(f, mg)
        ctx().assume(f.locals['zold'] < f.locals['hght'])

    keeps = ('more',)

    def inv(self, f, it, seq, k):
        mg = merged_of(f)
        if k is None:
            return []
        return [*self.around(f, mg), ('below the height', f.locals['zold'] < f.locals['hght'])]

    def variant(self, f, it):
        return f.locals['size'] - f.locals['ilev']


class HeightOuter(HeightInner):
    """Winds by height: each new level goes between two levels with heights around its own."""

    def __init__(self, phase):
        self.phase = phase

    def applies(self, frame, interp):
        return {'i', 'iend'} <= self.tests(interp)

    keeps = ('more', 'above', 'iend', 'size')

    def havoc(self, f, it, seq, k):
        if self.phase == 'enter':
            raise PathEnd
        c, L = ctx(), f.locals
        mg = merged_of(f)
        mg.gaps = True
        mg.havoc()
        L['size'] = mg.n
        self.position(f, mg)
        L['i'] = SInt.var(c.fresh_name('i'))
        c.assume(L['i'] >= 0)
        L['above'] = c.choose(['below', 'above']) == 'above'
        L['iend'] = L['nasw'] if L['above'] else L['nsgw']

    def inv(self, f, it, seq, k):
        c, L = ctx(), f.locals
        mg = merged_of(f)
        if k is None or (self.phase == 'loop' and not is_sym(k) and k == 0):
            return []
        mg.gaps = True
        for nm in ('size', 'i', 'iend', 'above', 'nsgw', 'nasw'):
            if nm not in L:
                return [('names', False)]
        out = self.around(f, mg)
        out.append(('size', L['size'] == mg.f['PRES'].n))
        out.append(('position in the part', sand(L['i'] >= 0, ite(
            L['above'], L['iend'] == L['nasw'], L['iend'] == L['nsgw']))))
        for nm, part in (('nsgw', 'PPBB'), ('nasw', 'PPDD')):
            p = mg.world.parts.data[part]
            out.append((f'levels of {part}', sand(L[nm] >= 0, L[nm] <= p.n, sor(
                L[nm] == 0, 'HGHT' in p.alias))))
        return out + mg.goals()

    def variant(self, f, it):
        L = f.locals
        return ite(L['above'], L['nasw'] - L['i'], L['nasw'] + 1 + L['nsgw'] - L['i'])


# contracts of what the function calls --------------------------------------------------------------


def fresh_col(mg, nm, keep):
    """A column filled by index: levels for which keep(k, old) holds are as before."""
    c = ctx()
    col = mg.f[nm]
    old, n = list(col.ops), col.n
    arr = z3.Array(c.fresh_name(nm), z3.IntSort(), z3.RealSort())
    value = col.value
    prev = getattr(col, 'layers', 0)

    def after(k):
        v = SReal(z3.Select(arr, zt(k)))
        o = value(k, old)
        c.assume(simplies(sand(k >= 0, k < n, keep(k, o)), v == o))
        if nm == 'HGHT':
            c.assume(simplies(sand(k >= 0, k < n), v >= mg.m))
        return v

    def lookup(k, ops):
        if len(ops) < len(old) or ops[:len(old)] != old:
            return value(k, ops)
        rest = ops[len(old):]
        if not rest:
            return after(k)
        kind, at, v = rest[-1]
        if kind == 'set':
            return ite(k == at, v, lookup(k, ops[:-1]))
        return ite(k < at, lookup(k, ops[:-1]), ite(k == at, v, lookup(k - 1, ops[:-1])))
    col.value = lookup
    col.layers = prev + 1
    return arr


def sounding(b, m):
    s = next(iter(b.values()))
    if not (isinstance(s, dict) and isinstance(s.get('PRES'), Col)):
        raise Unsupported('sounding')
    mg = s['PRES'].mg
    ctx().oblige('missing value passed on', next(v for k, v in b.items() if k == 'missing')
                 == mg.m)
    return mg


def need(mg, what, skip=()):
    for nm, cond in mg.goals():
        if nm not in skip:
            ctx().oblige(f'{what}: {nm}', cond)


def k_heights(it, f, a, kw):
    """Heights filled (C20): nothing but missing heights changes."""
    mg = sounding(thermo.bindargs(f, a, kw), None)
    need(mg, f.qual.split('.')[-1])
    fresh_col(mg, 'HGHT', lambda k, o: mknot(o == mg.m))
    return None


def k_missing(it, f, a, kw):
    """Missing data filled (C20): temperatures and winds where missing, dewpoints where they or
    the temperature were."""
    mg = sounding(thermo.bindargs(f, a, kw), None)
    need(mg, 'interp_missing_data')
    T = mg.f['TEMP'].value
    ops = list(mg.f['TEMP'].ops)
    fresh_col(mg, 'DWPT', lambda k, o: sand(mknot(o == mg.m), mknot(T(k, ops) == mg.m)))
    fresh_col(mg, 'TEMP', lambda k, o: mknot(o == mg.m))
    fresh_col(mg, 'DRCT', lambda k, o: False)
    fresh_col(mg, 'SPED', lambda k, o: False)
    return None


def k_pressures(it, f, a, kw):
    """Pressures filled from heights (proved in contracts/filling.py): with every missing pressure
    between levels of rising heights, those known are kept, all above the surface are then known,
    and they fall."""
    mg = sounding(thermo.bindargs(f, a, kw), None)
    c = ctx()
    need(mg, 'interp_logp_pressure')
    # the other columns as they are, under new names
    n, w = mg.n, mg.w
    if any(mg.f[nm].ops or 'value' in mg.f[nm].__dict__ for nm in SIX):
        raise Unsupported('levels changed before')
    mg.gaps = False
    if mg.below or mg.weak:
        raise Unsupported('pressures filled late')
    before = {nm: mg.arr[nm] for nm in SIX}
    mg.havoc(n)
    mg.w = w
    mg.read(w)
    c.assume(simplies(mg.hw, sand(w >= 1, w < n, mg.level_at(w))))
    for nm in SIX:
        if nm != 'PRES':
            c.assume(mkbool(mg.arr[nm] == before[nm]))
    return None


def k_isclose(it, a, kw):
    return mkbool(z3.Bool(ctx().fresh_name('close')))


def interp(world, ghost=None, extra=()):
    M = Models()
    M.reg(np.isclose, k_isclose)
    M.reg(bisect.bisect_left, m_bisect)
    q = MOD
    loops = [*extra, ManLoop(world, ghost, 'TTAA'), ManLoop(world, ghost, 'TTCC'),
             BelowLoop(), PbotLoop(), MergeLoop(), Scan()]
    return Interp(M, contracts={q + 'interp_moist_height': k_heights,
                                q + 'interp_logp_height': k_heights,
                                q + 'interp_logp_pressure': k_pressures,
                                q + 'interp_missing_data': k_missing},
                  loops=[('', None, x) for x in loops])


# segments ----------------------------------------------------------------------------------------


def function():
    from gempakio.decode.gempak import GempakSounding
    return GempakSounding._merge_sounding


def mentions(node, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(node))


def constant(node, *values):
    return any(isinstance(x, ast.Constant) and x.value in values for x in ast.walk(node))


def calls(node, name):
    return any(isinstance(x, ast.Call) and (
        isinstance(x.func, ast.Name) and x.func.id == name
        or isinstance(x.func, ast.Attribute) and x.func.attr == name) for x in ast.walk(node))


def needed(stmts, local):
    """Names whose first occurrence, in the order of the text, reads them."""
    seen, out = set(), set()

    def visit(n):
        if isinstance(n, ast.Name):
            if n.id not in seen:
                seen.add(n.id)
                if isinstance(n.ctx, ast.Load) and n.id in local:
                    out.add(n.id)
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if isinstance(n, ast.AugAssign):
                visit(ast.Name(id=n.target.id, ctx=ast.Load())
                      if isinstance(n.target, ast.Name) else n.target)
            if n.value is not None:
                visit(n.value)
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                visit(t)
            return
        if isinstance(n, ast.For):
            visit(n.iter)
            visit(n.target)
            for x in [*n.body, *n.orelse]:
                visit(x)
            return
        for x in ast.iter_child_nodes(n):
            visit(x)
    for s in stmts:
        visit(s)
    return out


class Plan:
    """The statements of the function and where they are cut."""

    def __init__(self):
        it = interp_for_plan()
        self.ifn = it.ifunc_of(function())
        self.body = self.ifn.node.body
        self.info = FnInfo.of(self.ifn.node)
        self.name = self.made()
        first = next(i for i, s in enumerate(self.body) if i > self.at and
                     mentions(s, self.name))
        self.first = first
        self.stable = {a.arg for a in self.ifn.node.args.args} | {self.name}
        for s in self.body[:first]:
            self.stable |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name)
                            and isinstance(x.ctx, ast.Store)}
        self.counters = self.whole_numbers()
        self.aliases = self.names_for_fixed(self.body)
        cuts = [i for i in range(first, len(self.body)) if mentions(self.body[i], self.name)
                and needed(self.body[i:], self.info.assigned) <= self.stable | self.counters
                | set(self.aliases)]
        grow = next((i for i, s in enumerate(self.body) if i >= first and any(
            isinstance(x, (ast.For, ast.While)) and calls(x, 'append') and
            mentions(x, self.name) for x in ast.walk(s))), None)
        ppaa = next(i for i, s in enumerate(self.body) if i >= first and constant(s, 'PPAA'))
        if grow is None:
            raise Unsupported('mandatory levels')
        man = max(i for i in cuts if i <= grow)
        txt = next((i for i, s in enumerate(self.body) if i > man and constant(s, *TEXT)),
                   len(self.body))
        last = next((i for i, s in enumerate(self.body) if i > man and
                     calls(s, 'interp_missing_data')), None)
        cuts = sorted({first, man, *[i for i in cuts if i >= ppaa and i <= txt]})
        if last is None or last + 1 not in cuts:
            raise Unsupported('cuts of the function')
        # one segment from there to the text
        cuts = [i for i in cuts if i <= last + 1 or i == txt]
        if ppaa not in cuts or txt not in cuts:
            raise Unsupported('cuts of the function')
        self.cuts, self.man, self.txt, self.weak = cuts, man, txt, last
        self.segments = list(zip(cuts, [*cuts[1:], len(self.body)], strict=True))

    def made(self):
        for i, s in enumerate(self.body):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and {
                    k.value for k in s.value.keys if isinstance(k, ast.Constant)} >= set(SIX):
                self.at = i
                return s.targets[0].id
        raise Unsupported('the sounding being made')

    def whole_numbers(self):
        """Locals that only ever hold whole numbers counted up from a constant."""
        bad, good = set(), set()
        for x in ast.walk(self.ifn.node):
            if isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets):
                ok = isinstance(x.value, ast.Constant) and type(x.value.value) is int
                for t in x.targets:
                    (good if ok else bad).add(t.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                if not (isinstance(x.value, ast.Constant) and type(x.value.value) is int):
                    bad.add(x.target.id)
            elif isinstance(x, (ast.For, ast.comprehension)):
                bad |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        return good - bad - self.stable

    def names_for_fixed(self, stmts):
        """Locals assigned once, by one of the statements, to a constant or an attribute of self."""
        stores = [x.id for x in ast.walk(self.ifn.node) if isinstance(x, ast.Name)
                  and isinstance(x.ctx, ast.Store)]
        out = {}
        for s in stmts:
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1
                    and isinstance(s.targets[0], ast.Name)):
                continue
            name = s.targets[0].id
            if stores.count(name) == 1 and all(
                    isinstance(x, (ast.Attribute, ast.Constant, ast.Load, ast.UnaryOp, ast.USub))
                    or isinstance(x, ast.Name) and x.id in ('self', *out)
                    for x in ast.walk(s.value)):
                out[name] = s
        return out

    def title(self, a, b):
        line = self.body[a].lineno
        keys = []
        for s in self.body[a:b]:
            for x in ast.walk(s):
                if isinstance(x, ast.Constant) and x.value in DATA + TEXT \
                        and x.value not in keys:
                    keys.append(x.value)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                        and x.func.id.startswith('interp_'):
                    keys.append(x.func.id)
        return ' '.join(keys) or f'line {line}'


def interp_for_plan():
    return Interp(Models())


class Label:
    def __init__(self, m):
        self.missing_float = m


def prologue(plan, world, it):
    """The statements before the sounding is first used; None if the function returns there."""
    from gempakio.decode.gempak import GempakSounding
    me = GempakSounding.__new__(GempakSounding)
    me.dm_label = Label(world.m)
    f = Frame(plan.ifn.globals, plan.info, plan.ifn.qual, parent=plan.ifn.parent,
              closure=plan.ifn.closure, defclass=plan.ifn.defclass)
    it.bind(plan.ifn, f, (me, world.parts), {})
    try:
        it.block(plan.body[:plan.first], f)
    except _Return as r:
        return None, r.v
    return f, None


def empty(world):
    return sand(*[p.n == 0 for p in world.parts.data.values()])


WINDS = ('PPBB', 'PPDD')


def kinds_of(nodes):
    """How the significant winds can be given, where the statements ask for them."""
    out = [{}]
    for n in WINDS:
        ways = ['PRES', 'HGHT'] if any(constant(s, n) for s in nodes) else ['PRES']
        out = [{**o, n: w} for o in out for w in ways]
    return out


def unread(plan, nodes, part):
    """The statements neither name the part nor use a name the prologue made from it."""
    dep = set()
    for s in plan.body[:plan.first]:
        if constant(s, part) or any(mentions(s, n) for n in dep):
            dep |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name)
                    and isinstance(x.ctx, ast.Store)}
    return not any(constant(s, part) or any(mentions(s, n) for n in dep) for s in nodes)


def counts(c, plan):
    """An absent part counts like one without levels; without levels there is no sounding."""
    who = c.choose([None, *DATA])
    kinds = {n: c.choose(['PRES', 'HGHT']) if who in (None, n) else 'PRES'
             for n in ('PPBB', 'PPDD')}
    seen = []
    for absent in ([()] if who is None else [(who,), ()]):
        w = World(kinds, absent)
        if who:
            c.assume(w.parts.data[who].n == 0)
        it = interp(w)
        f, out = prologue(plan, w, it)
        if f is None:
            c.cover('no data')
            c.oblige('no sounding only without data', sand(out is None, empty(w)))
            return
        c.oblige('data: a sounding', mknot(empty(w)))
        seen.append({k: v for k, v in f.locals.items() if isinstance(v, (int, SInt)) or
                     type(v).__name__ == 'SBool'})
        got = f.locals[plan.name]
        c.oblige('starts without levels', all(got[n] == [] for n in SIX))
    if who:
        a, b = seen
        c.oblige('same names', set(a) == set(b))
        for k in a:
            c.oblige('absent like empty', a[k] == b[k], f'{who} {k}')
    c.cover('data')


def nothing(c, plan):
    """No parts at all."""
    w = World({}, DATA)
    it = interp(w)
    from gempakio.decode.gempak import GempakSounding
    me = GempakSounding.__new__(GempakSounding)
    me.dm_label = Label(w.m)
    c.oblige('no sounding', it.call(function(), (me, w.parts)) is None)
    c.cover('done')


def start(c, plan, a, b, kinds, ghost=None, hw=True):
    """The frame a segment starts from, with the counts of the prologue."""
    w = World(kinds)
    for n in ('PPBB', 'PPDD'):
        if unread(plan, plan.body[a:b], n):
            # its levels make no difference, but that there are data
            c.assume(w.parts.data[n].n >= 1)
    it = interp(w, ghost(w) if ghost else None)
    f, _out = prologue(plan, w, it)
    if f is None:
        raise PathEnd
    w.parts.strict = True
    mg = None
    if a != plan.first:
        for nm in list(f.locals):
            if nm not in plan.stable:
                del f.locals[nm]
        for nm in plan.counters & needed(plan.body[a:], plan.info.assigned):
            f.locals[nm] = SInt.var(nm)
        it.block([s for s in plan.body[:a] if s in plan.aliases.values()], f)
        mg = Merged(w, ghost=hw)
        if a > plan.weak:
            mg.weak = True
        if a >= plan.txt:
            mg.below = True
            mg.havoc()
        d = f.locals[plan.name]
        for nm in SIX:
            d[nm] = mg.f[nm]
    return w, it, f, mg


def surface(c, plan, a, b, kinds):
    """One level, with positive pressure or none."""
    w, it, f, _ = start(c, plan, a, b, kinds)
    it.block(plan.body[a:b], f)
    d = f.locals[plan.name]
    c.cover('surface')
    c.oblige('one level', all(type(d[n]) is list and len(d[n]) == 1 for n in SIX))
    p, z, m = to_real(d['PRES'][0]), to_real(d['HGHT'][0]), w.m
    c.oblige('positive pressure', sor(p == m, sand(p > 0, p < 2000)))
    c.oblige('height', sor(z == m, z > m))


def mandatory(c, plan, a, b, kinds):
    """Every valid mandatory level above the surface is taken over."""
    part = c.choose(['none', 'TTAA', 'TTCC'])
    box = []

    def ghost(w):
        if part == 'none':
            return None
        g = SInt.var('g')
        box.append((part, g, True))
        return box[0]
    w, it, f, mg = start(c, plan, a, b, kinds, ghost, hw=False)
    c.assume(mg.n == 1)
    if part != 'none':
        p, g = w.parts.data[part], box[0][1]
        c.assume(sand(p.inside(g), g >= 1 if part == 'TTAA' else True))
        vals = {nm: p.at(nm, g) for nm in ('PRES', 'TEMP', 'HGHT', 'DWPT')}
        c.assume(sand(*[mknot(vals[n] == w.m) for n in ('PRES', 'TEMP', 'HGHT')]))
        c.assume(sor(mg.p0 == w.m, vals['PRES'] < mg.p0))
        c.assume(sand(mg.gp == vals['PRES'], mg.gt == vals['TEMP'], mg.gd == vals['DWPT']))
    it.block(plan.body[a:b], f)
    c.cover(f'mandatory {part}')
    ends(c, plan, mg, b, hw=part != 'none')


def ends(c, plan, mg, b, **kw):
    """The shape the next segment starts from."""
    c.oblige('pressures are filled', not mg.gaps)
    c.oblige('levels below the ground are last', not mg.below or b >= plan.txt)
    if b > plan.weak:
        mg.weak = True
    for nm, cond in mg.goals(**kw):
        c.oblige(nm, cond)


def segment(c, plan, a, b, kinds):
    """The sounding keeps its shape."""
    w, it, f, mg = start(c, plan, a, b, kinds)
    out = None
    try:
        it.block(plan.body[a:b], f)
    except _Return as r:
        out = r
    c.cover('end')
    if b == len(plan.body):
        d = out.v if out else None
        ok = isinstance(d, dict) and all(d.get(n) is mg.f[n] for n in SIX)
        c.oblige('the sounding made is returned', ok)
    else:
        c.oblige('goes on', out is None)
        d = f.locals[plan.name]
        c.oblige('its lists', all(d.get(n) is mg.f[n] for n in SIX))
    ends(c, plan, mg, b)
    if b == len(plan.body):
        for n in META:
            c.oblige('station', d.get(n) == w.parts[n])
        for n in TEXT:
            has = w.parts.text.get(n)
            c.oblige('text', d.get(n) == (f'text of {n}' if has else None))


def split(plan, a, b):
    """The statement with the loop over wind heights: what precedes it, it and what follows."""
    for i in range(a, b):
        s = plan.body[i]
        if isinstance(s, ast.If) and not s.orelse:
            for j, x in enumerate(s.body):
                if isinstance(x, ast.While):
                    return [*plan.body[:i], *s.body[:j]], [*s.body[j:], *plan.body[i + 1:b]]
    return None


def enter(c, plan, a, b, kinds):
    """Up to the loop over wind heights, or past it."""
    w, it, f, mg = start(c, plan, a, b, kinds)
    it.loops.insert(0, ('', None, HeightInner()))
    it.loops.insert(0, ('', None, HeightOuter('enter')))
    it.block(plan.body[a:b], f)
    c.cover('end')
    ends(c, plan, mg, b)


def heights(c, plan, a, b, kinds):
    """The loop over wind heights from any sounding, and what follows it."""
    w = World(kinds)
    it = interp(w)
    it.loops.insert(0, ('', None, HeightInner()))
    it.loops.insert(0, ('', None, HeightOuter('loop')))
    f = Frame(plan.ifn.globals, plan.info, plan.ifn.qual, parent=plan.ifn.parent,
              closure=plan.ifn.closure, defclass=plan.ifn.defclass)
    from gempakio.decode.gempak import GempakSounding
    me = GempakSounding.__new__(GempakSounding)
    me.dm_label = Label(w.m)
    it.bind(plan.ifn, f, (me, w.parts), {})
    w.parts.strict = True
    mg = Merged(w)
    f.locals[plan.name] = dict(mg.f)
    L = f.locals
    for nm, part in (('nsgw', 'PPBB'), ('nasw', 'PPDD')):
        L[nm] = SInt.var(nm)
        c.assume(sand(L[nm] >= 0, L[nm] <= w.parts.data[part].n))
    # names the loop assigns
    for nm in ('more', 'zold', 'znxt', 'ilev', 'above', 'i', 'iend', 'size'):
        L[nm] = None
    before, nodes = split(plan, a, b)
    stores = {x.id for s in plan.body[:plan.first] for x in ast.walk(s)
              if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    fixed = plan.names_for_fixed(before)
    it.block([fixed[nm] for nm in fixed if nm not in L], f)
    if needed(nodes, plan.info.assigned) & stores - set(L):
        g, _out = prologue(plan, w, it)
        if g is None:
            raise PathEnd
        for nm in stores - set(L):
            if nm in g.locals:
                L[nm] = g.locals[nm]
    it.block(nodes, f)
    c.cover('end')
    ends(c, plan, mg, b)


def titles():
    """The bodies to run; one that fails where the function cannot be cut."""
    try:
        return list(bodies())
    except Exception:
        return ['cuts of the function']


def run(name, deadline=None):
    c = Ctx(name, timeout_ms=20000, deadline=deadline, max_paths=20000)
    c.state_global = {}

    def body(c):
        bodies()[name](c)
    c.explore(body)
    return [c]


@functools.cache
def bodies():
    plan = Plan()
    out = {'no parts': lambda c: nothing(c, plan), 'counts': lambda c: counts(c, plan)}

    def add(title, fn, a, b, ways):
        for kinds in ways:
            t = title
            if len(ways) > 1:
                t += ' (' + ', '.join(
                    n + (' by pressure' if w == 'PRES' else ' by height') for n, w in
                    kinds.items() if len({k[n] for k in ways}) > 1) + ')'
            out[t] = lambda c, kinds=kinds: fn(c, plan, a, b, kinds)
    for a, b in plan.segments:
        t = plan.title(a, b)
        ways = kinds_of(plan.body[a:b])
        if split(plan, a, b):
            add(t + ': before', enter, a, b, ways)
            add(t + ': loop', heights, a, b, [{n: 'HGHT' for n in WINDS}])
        else:
            add(t, surface if a == plan.first else mandatory if a == plan.man else segment,
                a, b, ways)
    return out


if __name__ == '__main__':
    import sys
    import time
    for nm, b in bodies().items():
        if len(sys.argv) > 1 and not any(x == nm for x in sys.argv[1:]):
            continue
        t0 = time.time()
        c0 = run(nm, time.time() + 600)[0]
        bad = [o for o in c0.obligations if o.status != 'proved']
        print(nm, len(c0.obligations), 'bad', len(bad), f'{time.time() - t0:.1f}s', c0.paths,
              list(c0.covers.items())[-3:])
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:700], (o.model or '')[:300])
