"""C13: gdxarray on every inventory, every combination of filters and every form of each.

Every subset of the filters given as lists of any length, and every form of each filter with all
others absent or given; an arbitrary grid g of an inventory of any length is returned exactly when
all its filtered attributes are requested, in inventory order, one array per part of the file with
that grid's own coordinates and data.
"""
import numpy as np
import z3

from contracts.real_decode import zi
from contracts.selection import (EXTREMES, Buffer, Data, I, Inventory, Lost, Masked, NO, Opt, RR, SS,
                                 Span, When, decide, inventory, masked, name_request,
                                 number_request, options, time_request, times, word)
from pyvc.core import Ctx, SBool, SInt, SReal, mknot, sand, simplies, sor, val_eq
from pyvc.filt import Nested, SFilt, ikey, register
from pyvc.interp import Interp
from pyvc.models import Models, SSeq, SStr

F = {n: z3.Function(n, I, s) for n, s in (
    ('PARM', SS), ('COORD', SS), ('DATTIM1', I), ('DATTIM2', I), ('LEVEL1', I), ('LEVEL2', I),
    ('GRIDNO', I), ('GDT1', I), ('GTM1', I), ('GLV1', I), ('HLEN', I))}
HAS = {n: z3.Function('has ' + n, I, z3.BoolSort()) for n in ('DATTIM2', 'COORD', 'LEVEL1',
                                                              'LEVEL2', 'GLV1', 'GVCD')}
VAL = z3.Function('grid data', I, I, I, I, I, RR)


def opt(n, i, mk):
    """An attribute that may be None."""
    return Opt(SBool(HAS[n](zi(i))), mk(F[n](zi(i))))


class Grid:
    def __init__(self, i):
        self.i = i
        self.PARM = SStr(F['PARM'](zi(i)))
        self.DATTIM1 = When(SInt.of(F['DATTIM1'](zi(i))))
        self.GRIDNO = SInt.of(F['GRIDNO'](zi(i)))
        self.memo = {}

    def _opt(self, n, mk):
        if n not in self.memo:
            self.memo[n] = opt(n, self.i, mk)
        return self.memo[n]

    DATTIM2 = property(lambda s: s._opt('DATTIM2', lambda t: When(SInt.of(t))))
    COORD = property(lambda s: s._opt('COORD', SStr))
    LEVEL1 = property(lambda s: s._opt('LEVEL1', SInt.of))
    LEVEL2 = property(lambda s: s._opt('LEVEL2', SInt.of))


class Head:
    """Column header number i."""

    def __init__(self, i):
        self.i = i
        self.GPM1, self.GPM2, self.GPM3 = 'TMPK', '', ''
        self.GDT1 = When(SInt.of(F['GDT1'](zi(i))))
        self.GTM1 = ('forecast', Span(SInt.of(F['GTM1'](zi(i)))))
        self.GVCD = 'PRES'
        self.memo = []

    @property
    def GLV1(self):
        if not self.memo:
            self.memo.append(opt('GLV1', self.i, SInt.of))
        return self.memo[0]


class Part:
    def __init__(self, q):
        self.q = q
        self.header_length = SInt.of(F['HLEN'](zi(q)))


class Label:
    pass


class Crs:
    def to_cf(self):
        return {'crs': 'cf'}


class Array:
    """xr.DataArray(...) as called."""

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
        self.data, self.coords, self.dims = data, coords, dims
        self.name, self.attrs = name, attrs


class Pack:
    def __init__(self, v):
        self.v = v


ARGS = ('parameter', 'date_time', 'coordinate', 'level', 'date_time2', 'level2')
OF = {'parameter': lambda e: e.PARM, 'date_time': lambda e: e.DATTIM1,
      'coordinate': lambda e: e.COORD, 'level': lambda e: e.LEVEL1,
      'date_time2': lambda e: e.DATTIM2, 'level2': lambda e: e.LEVEL2}
LEFT = ('data_ptr', 'data_header_length')


def setup(c, orders=('big',)):
    import gempakio.decode.gempak as G
    import xarray as xr

    class H:
        pass
    h = H()
    h.c = c
    h.M = M = register(Models())
    times(M)
    options(M)
    masked(M)

    def mk(i):
        e = Grid(i)
        c.assume(e.PARM.upper() == e.PARM)
        up = SStr(F['COORD'](zi(i)))
        c.assume(up.upper() == up)
        c.assume(sand(e.GRIDNO >= 0, e.GRIDNO < SInt.var('ncol')))
        return e
    h.items = inventory(M, mk)
    h.me = me = G.GempakGrid.__new__(G.GempakGrid)
    me._gdinfo = Inventory(h.items)
    me._start = 0
    me.endian = c.choose(orders)
    me.prefmt = '>' if me.endian == 'big' else ''
    lab = me.dm_label = Label()
    lab.data_block_ptr, lab.columns, lab.parts = (SInt.var(n) for n in ('dbp', 'ncol', 'npart'))
    lab.missing_float = SReal.var('missing')
    c.assume(lab.parts >= 1)
    heads, parts = {}, {}
    me.column_headers = SSeq(lab.columns, lambda i: heads.setdefault(ikey(i), Head(i)))
    me.parts = SSeq(lab.parts, lambda q: parts.setdefault(ikey(q), Part(q)))
    h.q = SInt.var('q')
    c.assume(sand(h.q >= 0, h.q < lab.parts))
    me.parts.ghosts = [h.q]
    for n in ('kx', 'ky'):
        setattr(me, n, SInt.var(n))
    for n in ('x', 'y', 'lat', 'lon'):
        setattr(me, n, Data(lambda p, n=n: n, 1))
    me.crs = Crs()
    me._buffer = Buffer(me.endian)
    M.enum_of = lambda it, cls, v: Pack(v)
    h.reads = {}

    def unpack(interp, f, args, kw):
        a = dict(zip(('self', 'packing_type', 'part'), args))
        a.update(kw)
        pos, pk, part = me._buffer.here(), a['packing_type'].v, a['part']
        key = (ikey(pos), ikey(pk), ikey(part.q), ikey(me.data_header_length))
        if key not in h.reads:
            kind = c.choose(['flat', 'square', None])
            ts = [zi(x) for x in (pos, pk, part.q, me.data_header_length)]
            h.reads[key] = None if kind is None else Data(
                lambda p: SReal(VAL(*ts, zi(p))), 1 if kind == 'flat' else 2)
        me._buffer.lose()
        return h.reads[key]
    h.it = Interp(M, contracts={'gempakio.decode.gempak.GempakGrid._unpack_grid': unpack})
    M.reg(xr.DataArray, lambda it, args, kw: Array(*args, **kw))

    def reset():
        me._buffer.lose()
        for n in LEFT:
            me.__dict__[n] = Lost(n)
    h.it.scratch = ([me], reset)
    return h


def request(c, h, name, form):
    if name in ('parameter', 'coordinate'):
        return name_request(name, form)
    if name.startswith('level'):
        return number_request(name, form)
    return time_request(name, form, OF[name], h.items)


def select(focus, only=None, orders=('big',)):
    def body(c):
        h = setup(c, orders)
        reqs, kw = [], {}
        # every subset of the filters as lists; every form of each with all others absent or given
        rest = None if focus == 'subset' else c.choose(('none', 'list'))
        for n in ARGS:
            if rest is None:
                form = c.choose(('none', 'list'))
            else:
                form = c.choose(only) if n == focus else rest
            r = request(c, h, n, form)
            reqs.append(r)
            if r is not NO:
                kw[n] = r.arg
        try:
            r = h.it.call(h.it.getattr(h.me, 'gdxarray'), (), kw)
        except (KeyError, ValueError) as e:
            c.cover(f'none {type(e).__name__}')
            c.oblige('an error only when none match', decide(c, reqs, OF.values(), h.items)[1])
            return
        c.cover('some')
        ok = isinstance(r, SFilt) and r.pytype is list and len(r.parts) == 1
        c.oblige('a list over the inventory', ok and bool(r.parts[0].n == h.items.length))
        if not ok:
            return
        got = r.parts[0].at(h.items.g)
        yes, no = decide(c, reqs, OF.values(), h.items)
        if not got:
            c.oblige('only those that do not match are left out', no)
            return
        c.oblige('only matching grids', yes)
        ok = len(got) == 1 and isinstance(got[0], Nested) and len(got[0].parts) == 1
        c.oblige('one array per part', ok and bool(got[0].parts[0].n == h.me.dm_label.parts))
        if not ok:
            return
        mine(c, h, got[0].parts[0].at(h.q), h.items.item(h.items.g))
    return body


def refused(c):
    """A packing _unpack_grid refuses is refused by the selection (C17)."""
    h = setup(c)

    def unpack(interp, f, args, kw):
        c.cover('unpack')
        raise NotImplementedError
    h.it.contracts['gempakio.decode.gempak.GempakGrid._unpack_grid'] = unpack
    r = request(c, h, 'parameter', c.choose(('none', 'list')))
    kw = {} if r is NO else {'parameter': r.arg}
    try:
        x = h.it.call(h.it.getattr(h.me, 'gdxarray'), (), kw)
        yes, no = decide(c, [r, *[NO] * (len(ARGS) - 1)], OF.values(), h.items)
        got = x.parts[0].at(h.items.g)
        c.oblige('only grids not asked for are left out', sor(no, len(got) > 0))
        for y in got:
            z = y.parts[0].at(h.q)
            c.oblige('a grid refused is not returned', False, repr(z))
    except NotImplementedError:
        c.cover('refused')
        c.oblige('refused', True)
    except KeyError:
        pass


def mine(c, h, arrays, e):
    """The arrays of grid e, part q, hold that grid's data."""
    me, lab, q = h.me, h.me.dm_label, h.q
    head = me.column_headers.item(e.GRIDNO)
    at = 4 * (lab.data_block_ptr + e.GRIDNO * lab.parts + q) - 4
    ptr = word(at)
    start = 4 * ptr - 4
    length = word(start)
    pk_at = start + 4 + 4 * F_hlen(q)
    key = (ikey(pk_at + 4), ikey(word(pk_at)), ikey(q), ikey(length))
    c.oblige('reads its own block', key in h.reads)
    if key not in h.reads:
        return
    d = h.reads[key]
    c.oblige('an array unless the block is empty', len(arrays) == (d is not None))
    if d is None or not arrays:
        return
    a = arrays[0]
    c.cover('array')
    ok = isinstance(a, Array) and isinstance(a.data, Masked)
    c.oblige('masked data', ok)
    if not ok:
        return
    p = SInt.var('p')
    c.oblige('its values', a.data.val(p) == d.val(p))
    c.oblige('masked where missing', val_eq(a.data.where(p), d.val(p) == lab.missing_float))
    dims = a.dims
    co = a.coords
    c.oblige('dimensions', list(dims) == ['time', 'pres', 'y', 'x'] and a.data.ndim == 4)
    c.oblige('name', a.name == 'tmpk')
    c.oblige('time', val_eq(co['time'], [head.GDT1 + head.GTM1[1]]))
    c.oblige('level', val_eq(co['pres'], [head.GLV1]))
    c.oblige('places', co['x'] is me.x and co['y'] is me.y and
             co['lat'] == (['y', 'x'], me.lat) and co['lon'] == (['y', 'x'], me.lon))
    c.oblige('attributes', a.attrs == {'crs': 'cf', 'grid_type': 'forecast'})


def F_hlen(q):
    return SInt.of(F['HLEN'](zi(q)))


PARTS = {f'gdxarray {n}': select(n, ('none', 'single')) for n in ARGS
         if not n.startswith('date')}
for _n in ('date_time', 'date_time2'):
    for _f in (('none', 'single', 'text', 'texts'), EXTREMES[:2], EXTREMES[2:]):
        PARTS[f'gdxarray {_n} {" ".join(_f)}'] = select(_n, _f)
# the same in both byte orders (C06)
ORDERS = {'gdxarray in every order': select('parameter', ('none', 'list'), ('big', 'little'))}
ORDERS['packing refused'] = refused
PARTS['gdxarray subset'] = select('subset')


def run(name, deadline=None):
    c = Ctx(name, timeout_ms=20000, deadline=deadline, max_paths=60000)
    c.state_global = {}
    c.explore(PARTS.get(name) or ORDERS[name])
    return c


if __name__ == '__main__':
    import sys
    import time
    for pt in {**PARTS, **ORDERS}:
        if len(sys.argv) > 1 and pt not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(pt)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(pt, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.values()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
