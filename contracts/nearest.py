"""C16: nearest_time, by the contract of sfjson (C15), on every inventory and request.

For an arbitrary selected station exactly one of its reports is returned, and no other (arbitrary)
report of that station is closer in time; giving no filter or more than one is refused.
"""
import z3

from contracts.real_decode import zi
from contracts.selection import (I, Inventory, SS, TIMEOF, When, inventory, options, seq, times)
from contracts.station_select import F, Entry
from pyvc.core import Ctx, SBool, SInt, SReal, Sym, mknot, sand, val_eq
from pyvc.filt import Nested, SFilt, ikey, register, terms_of
from pyvc.interp import Interp
from pyvc.models import Models, SSeq, SStr

FILTERS = ('station_id', 'station_number', 'state', 'country', 'bbox')


class Report(Sym):
    """Report j of a station, as sfjson returns it."""

    pytype = dict

    def __init__(self, stn, j):
        self.stn, self.j = stn, j
        ts = terms_of(stn)
        f = z3.Function('report time ' + str(ts[0].sort()), ts[0].sort(), I, I)
        self.t = When(SInt.of(f(ts[0], zi(j))))

    def __getitem__(self, k):
        return {'properties': {'date_time': self.t}, 'values': None}[k]


def setup(c):
    import gempakio.decode.gempak as G

    class H:
        pass
    h = H()
    h.c = c
    h.M = M = register(Models())
    times(M)
    options(M)
    def present(stn):
        ts = terms_of(stn)
        return SBool(z3.Function('in file ' + str(ts[0].sort()), ts[0].sort(), z3.BoolSort())(
            ts[0]))
    h.present = present

    def entry(i):
        e = Entry(i)
        c.assume(present(e.ID))     # an inventory entry is a report of its station
        return e
    h.items = inventory(M, entry)
    prev = M.lookup(set)
    M.reg(set, lambda it, a, k: prev(it, a, k) if a else SFilt([], set))
    M.unordered = True      # the order of the stations is not specified
    h.me = G.GempakSurface.__new__(G.GempakSurface)
    h.me._sfinfo = Inventory(h.items)
    h.jg = SInt.var('other report')
    h.of = {}
    h.calls = []
    h.special = SBool(z3.Bool('include special'))

    def sfjson(interp, f, args, kw):
        a = dict(zip(('self', 'station_id', 'station_number', 'date_time', 'state', 'country',
                      'bbox', 'include_special'), args))
        a.update(kw)
        h.calls.append(a)
        given = {k: v for k, v in a.items() if v is not None}
        c.oblige('sfjson asked for one station', set(given) in (
            {'self', 'station_id', 'include_special'},
            {'self', 'station_number', 'include_special'}) and not isinstance(
                given.get('station_id', given.get('station_number')), (list, tuple, SSeq)))
        c.oblige('special reports as asked', val_eq(a.get('include_special', False), h.special))
        stn = given.get('station_id', given.get('station_number'))
        if not present(stn):
            raise KeyError('No stations were matched with given parameters.')
        key = (type(stn).__name__, str(terms_of(stn)[0]))
        if key not in h.of:
            n = SInt.var(c.fresh_name('reports'))
            cache = {}
            s = SSeq(n, lambda j: cache.setdefault(ikey(j), Report(stn, j)))
            c.assume(sand(h.jg >= 0, h.jg < n))
            s.ghosts = [h.jg]
            h.of[key] = s
        return h.of[key]
    h.it = Interp(M, contracts={'gempakio.decode.gempak.GempakSurface.sfjson': sfjson})
    return h


def argument(c, h, name, form):
    """(argument, is it a filter)."""
    if name == 'bbox':
        return [SReal.var(n) for n in ('left', 'right', 'bottom', 'top')]
    wrap, sort = (SInt.of, I) if name == 'station_number' else (SStr, SS)
    f = z3.Function(f'{name} asked', I, sort)
    if form == 'single':
        # an empty text or a number of zero is no filter
        one = wrap(z3.Const(f'{name} one', sort))
        c.assume(one != (0 if sort is I else ''))
        return one
    s = seq(name, lambda i: wrap(f(zi(i))))
    s.ghosts = [SInt.var(f'{name} q')]
    c.assume(sand(s.ghosts[0] >= 0, s.ghosts[0] < s.length))
    return s


def moment(c):
    """The time asked about, given as a date-time or as a text."""
    if c.choose(['time', 'text']) == 'time':
        t = When(SInt.var('time'))
        return t, t
    t = SStr.var('time text')
    return t, When(TIMEOF(t.t))


def refused(c):
    h = setup(c)
    arg, _t = moment(c)
    kw, count = {}, 0
    for n in FILTERS:
        if c.choose(['none', 'given']) == 'given':
            form = 'single' if n == 'station_number' else 'list'
            kw[n] = argument(c, h, n, form)
            count += 1
    if count == 1:
        return
    try:
        h.it.call(h.it.getattr(h.me, 'nearest_time'), (arg,), kw)
    except (ValueError, NotImplementedError) as e:
        c.cover(f'refused {type(e).__name__}')
        c.oblige('none: ValueError; several: NotImplementedError',
                 type(e) is (NotImplementedError if count else ValueError))
        return
    c.oblige('refused', False)


def closest(c, h, got, stn, t, what):
    """Exactly one report, of this station, no report of the station being closer."""
    c.oblige(f'{what}: exactly one report', len(got) == 1)
    if len(got) != 1:
        return
    ok = isinstance(got[0], Report)
    c.oblige(f'{what}: a report', ok)
    if not ok:
        return
    r = got[0]
    c.oblige(f'{what}: of that station', val_eq(r.stn, stn))
    other = Report(r.stn, h.jg)
    c.oblige(f'{what}: none closer', abs(r.t.t - t.t) <= abs(other.t.t - t.t))
    c.cover(what)


def one_filter(name):
    def body(c):
        h = setup(c)
        arg, t = moment(c)
        form = c.choose(['single', 'list']) if name != 'bbox' else 'single'
        a = argument(c, h, name, form)
        e = h.items.item(h.items.g)
        ask = {name: a, 'include_special': h.special}
        absent = None
        try:
            r = h.it.call(h.it.getattr(h.me, 'nearest_time'), (arg,), ask)
        except KeyError:
            absent = True
        if absent:
            if name in ('station_id', 'station_number'):
                c.cover('absent')
                stn = h.calls[-1].get('station_id', h.calls[-1].get('station_number'))
                c.oblige('an error only for a station not in the file', mknot(h.present(stn)))
            else:
                c.oblige('every station of the file has a report', False)
            return
        if name in ('station_id', 'station_number'):
            if form == 'single':
                want = a.upper() if name == 'station_id' else a
                got = [v for p in r.parts for v in p.at(0)] if isinstance(r, SFilt) else r
                closest(c, h, got, want, t, 'station')
                return
            ok = isinstance(r, SFilt) and len(r.parts) == 1 and bool(r.parts[0].n == a.length)
            c.oblige('one per station asked', ok)
            if ok:
                q = a.ghosts[0]
                want = a.item(q).upper() if name == 'station_id' else a.item(q)
                closest(c, h, r.parts[0].at(q), want, t, 'station')
            return
        if name == 'bbox':
            left, right, bottom, top = a
            want = sand(e.LON >= left, e.LON <= right, e.LAT >= bottom, e.LAT <= top)
        else:
            have = e.STATE if name == 'state' else e.COUNTRY
            q = None if form == 'single' else a.ghosts[0]
            want = have == (a if q is None else a.item(q)).upper()
        if not isinstance(r, SFilt):
            c.oblige('no station selected', sand(isinstance(r, list) and not r, mknot(want)))
            return
        ok = isinstance(r, SFilt) and len(r.parts) >= 1 and all(p.distinct for p in r.parts)
        c.oblige('once per station', ok)
        if not ok:
            return
        got = [r.parts[0]] if len(r.parts) == 1 else []
        c.oblige('one set of stations', bool(got))
        if not got:
            return
        p = got[0]
        if name != 'bbox' and form == 'list':
            c.oblige('for each asked', bool(p.n == a.length))
            vs = p.at(q)
            ok = len(vs) == 1 and isinstance(vs[0], Nested) and len(vs[0].parts) == 1
            c.oblige('stations of each', ok)
            if not ok:
                return
            p = vs[0].parts[0]
        c.oblige('over the inventory', bool(p.n == h.items.length))
        vs = p.at(h.items.g)
        if not vs:
            c.oblige('a station left out does not match', mknot(want))
            return
        c.oblige('a station returned matches', want)
        closest(c, h, vs, e.ID, t, 'station')
    return body


PARTS = {'refusals': refused, **{n: one_filter(n) for n in FILTERS}}


def run(name, deadline=None):
    c = Ctx(name, timeout_ms=20000, deadline=deadline, max_paths=20000)
    c.state_global = {}
    c.explore(PARTS[name])
    return c


if __name__ == '__main__':
    import sys
    import time
    for pt in PARTS:
        if len(sys.argv) > 1 and pt not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(pt)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(pt, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
