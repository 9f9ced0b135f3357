"""C14, C15: snxarray and sfjson on every inventory, combination of filters and form of each.

As grid_select: every subset of the filters as lists, and every form of each filter with all others
absent or given; an
arbitrary entry g of an inventory of any length is returned exactly when all its filtered
attributes are requested (box edges included), in inventory order, with its own record.
"""
import datetime

import numpy as np
import z3

from contracts.real_decode import zi
from contracts.selection import (EXTREMES, NO, RR, SS, Data, Half, I,
                                 Inventory, Masked, Req, When, decide, inventory, masked,
                                 name_request, number_request, options, time_request, times)
from pyvc.core import Ctx, SBool, SInt, SReal, Unsupported, ctx, sand, simplies, sor, val_eq
from pyvc.filt import SFilt, flat_map, ikey, register
from pyvc.interp import Interp
from pyvc.models import Models, SStr

F = {n: z3.Function(n, I, s) for n, s in (
    ('ID', SS), ('NUMBER', I), ('DATTIM', I), ('LAT', RR), ('LON', RR), ('STATE', SS),
    ('COUNTRY', SS), ('DTNO', I), ('SNDNO', I))}
HEADER = ('STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN')
VAL = z3.Function('station data', I, I, SS, I, RR)
TXT = z3.Function('station text', I, I, SS, SS)
KIND = z3.Function('record kind', I, I, I)
ARGS = ('station_id', 'station_number', 'date_time', 'state', 'country', 'bbox')
OF = {'station_id': lambda e: e.ID, 'station_number': lambda e: e.NUMBER,
      'date_time': lambda e: e.DATTIM, 'state': lambda e: e.STATE,
      'country': lambda e: e.COUNTRY, 'bbox': lambda e: (e.LAT, e.LON)}


class Entry:
    def __init__(self, i):
        self.i = i

    def __getattr__(self, n):
        n = {'ROW': 'DTNO', 'COL': 'SNDNO'}.get(n, n)
        if n not in F:
            raise AttributeError(n)
        t = F[n](zi(self.i))
        v = When(SInt.of(t)) if n == 'DATTIM' else SInt.of(t) if F[n].range() == I else SReal(
            t) if F[n].range() == RR else SStr(t)
        if n in ('ID', 'STATE', 'COUNTRY'):
            ctx().assume(v.upper() == v)
        setattr(self, n, v)
        return v


class Dataset:
    """xr.Dataset(...) as called, and the order it was sorted in."""

    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.data_vars, self.coords, self.attrs = data_vars, coords, attrs
        self.order = None

    def sortby(self, by, ascending=True):
        d = Dataset(self.data_vars, self.coords, self.attrs)
        d.order = (by, ascending)
        return d


class Label:
    pass


def lit(name):
    return z3.Const(f'"{name}"', SS)


def field(r, k, name):
    """Header field of record (r, k)."""
    return SReal(VAL(zi(r), zi(k), lit(name), z3.IntVal(-1))) if name in (
        'STNM', 'SLAT', 'SLON', 'SELV', 'SPRI') else SStr(TXT(zi(r), zi(k), lit(name)))


def moment(r, k):
    return When(SInt.of(z3.Function('record time', I, I, I)(zi(r), zi(k))))


def data(r, k, name):
    return Data(lambda p: SReal(VAL(zi(r), zi(k), lit(name), zi(p))), 1)


def base(c, cls):
    import gempakio.decode.gempak as G
    import xarray as xr

    class H:
        pass
    h = H()
    h.c = c
    h.M = M = register(Models())
    times(M)
    masked(M)
    options(M)

    h.items = inventory(M, Entry)
    h.me = me = getattr(G, cls).__new__(getattr(G, cls))
    me._sninfo = me._sfinfo = Inventory(h.items)
    lab = me.dm_label = Label()
    lab.missing_float = SReal.var('missing')
    M.reg(xr.Dataset, lambda it, args, kw: Dataset(*args, **kw))
    M.reg(np.atleast_1d, lambda it, args, kw: list(args) if isinstance(args[0], When)
          else NotImplemented)
    return h


def request(c, h, name, form):
    if name == 'date_time':
        return time_request(name, form, OF[name], h.items)
    if name == 'station_number':
        return number_request(name, form)
    if name == 'bbox':
        if form == 'none':
            return NO
        box = [SReal.var(n) for n in ('left', 'right', 'bottom', 'top')]
        le, r, b, t = box
        return Req(tuple(box) if form == 'single' else box, lambda v: sand(
            v[1] >= le, v[1] <= r, v[0] >= b, v[0] <= t))
    return name_request(name, form)


def asked(c, h, focus, only):
    reqs, kw = [], {}
    # every subset of the filters as lists; every form of each with all others absent or given
    rest = None if focus == 'subset' else c.choose(('none', 'list'))
    for n in ARGS:
        if rest is None:
            form = c.choose(('none', 'list'))
        else:
            form = c.choose(only) if n == focus else rest
        r = request(c, h, n, form)
        reqs.append(r)
        if r is not NO:
            kw[n] = r.arg
    return reqs, kw


def records(c, h, make, name):
    """The contract of an _unpack method: one record per (row, column), in order."""
    def f(interp, fr, args, kw):
        sel = args[1] if len(args) > 1 else next(iter(kw.values()))
        h.called.append(name)

        def one(rc):
            if not (isinstance(rc, tuple) and len(rc) == 2):
                raise Unsupported('row and column')
            return make(interp, *rc)
        return flat_map(sel, one)
    return f


def judge(c, h, reqs, run, mine):
    try:
        r = run()
    except (KeyError, ValueError) as e:
        c.cover(f'none {type(e).__name__}')
        c.oblige('an error only when none match', decide(c, reqs, OF.values(), h.items)[1])
        return
    c.cover('some')
    ok = isinstance(r, SFilt) and r.pytype is list and len(r.parts) == 1
    c.oblige('a list over the inventory', ok and bool(r.parts[0].n == h.items.length))
    if not ok:
        return
    got = r.parts[0].at(h.items.g)
    yes, no = decide(c, reqs, OF.values(), h.items)
    e = h.items.item(h.items.g)
    key = (ikey(e.DTNO), ikey(e.SNDNO))
    c.oblige('its own record is read exactly when it is selected',
             yes if key in h.made else no)
    if key in h.made:
        mine(c, h, got, e, h.made[key])
    else:
        c.oblige('nothing of a grid not selected', len(got) == 0)


# ------------------------------------------------------------------------------------
# soundings

RECORDS = {'pressure': ['PRES', 'TEMP'], 'height': ['HGHT', 'TEMP'],
           'both': ['TEMP', 'HGHT', 'PRES'], 'texts': ['PRES', 'HGHT', 'TXTA', 'TXTB', 'TXTC',
                                                      'TXPB'],
           'one text': ['PRES', 'TXTC'], 'bare': ['PRES']}


def sounding(h, names):
    def make(interp, r, k):
        key = (ikey(r), ikey(k))
        kind = h.c.choose(['record', 'nothing']) if h.called[-1:] == ['_unpack_unmerged'] else 'record'
        h.made[key] = kind
        if kind == 'nothing':
            return [None]
        t = moment(r, k)
        d = {n: field(r, k, n) for n in HEADER}
        d['DATE'], d['TIME'] = Half(datetime.date, t), Half(datetime.time, t)
        for n in names:
            d[n] = SStr(TXT(zi(r), zi(k), lit(n))) if n.startswith('TX') else data(r, k, n)
        h.c.track(d) if hasattr(h.c, 'track') else None
        if interp.pure is not None:
            interp.pure[id(d)] = d
        return [d]
    return make


def snx(focus, only=None, record='pressure'):
    def body(c):
        h = base(c, 'GempakSounding')
        h.called, h.made = [], {}
        h.me.merged = SBool(z3.Bool('merged'))
        q = 'gempakio.decode.gempak.GempakSounding.'
        make = sounding(h, RECORDS[record])
        h.it = Interp(h.M, contracts={q + n: records(c, h, make, n) for n in (
            '_unpack_merged', '_unpack_unmerged')})
        if focus is None:
            reqs, kw = [NO] * len(ARGS), {}
        else:
            reqs, kw = asked(c, h, focus, only)
        h.record = record
        judge(c, h, reqs, lambda: h.it.call(h.it.getattr(h.me, 'snxarray'), (), kw), my_sounding)
        if h.called:
            c.oblige('the reader of its kind', h.called == [
                '_unpack_merged' if bool(h.me.merged) else '_unpack_unmerged'])
    return body


def my_sounding(c, h, got, e, kind):
    if kind == 'nothing':
        c.oblige('no sounding without data', isinstance(got, list) and not got)
        return
    ok = len(got) == 1 and isinstance(got[0], Dataset)
    c.oblige('one sounding', ok)
    if not ok:
        return
    c.cover('sounding')
    s, r, k = got[0], e.DTNO, e.SNDNO
    names = RECORDS[h.record]
    vc = 'PRES' if 'PRES' in names else 'HGHT'
    c.oblige('order of levels', s.order == (vc.lower(), vc == 'HGHT'))
    c.oblige('coordinates', set(s.coords) == {'time', vc.lower()})
    c.oblige('time', len(s.coords['time']) == 1 and val_eq(s.coords['time'][0], moment(r, k)))
    p = SInt.var('p')
    c.oblige('levels', s.coords[vc.lower()].val(p) == data(r, k, vc).val(p))
    rest = [n for n in names if n != vc and not n.startswith('TX')]
    c.oblige('its parameters', set(s.data_vars) == {n.lower() for n in rest})
    for n in rest:
        dims, arr = s.data_vars[n.lower()]
        want = data(r, k, n).val(p)
        ok = isinstance(arr, Masked)
        c.oblige('masked data', ok)
        if ok:
            c.oblige('values', sand(list(dims) == ['time', vc.lower()], arr.ndim == 2,
                                    arr.val(p) == want))
            c.oblige('masked where missing', val_eq(
                arr.where(p), want == h.me.dm_label.missing_float))
    a = dict(s.attrs)
    for n, key in (('STID', 'station_id'), ('STNM', 'station_number'), ('SLAT', 'lat'),
                   ('SLON', 'lon'), ('SELV', 'elevation'), ('STAT', 'state'),
                   ('COUN', 'country')):
        c.oblige(f'attribute {key}', val_eq(a.pop(key, None), field(r, k, n)))
    if vc == 'PRES':
        c.oblige('station pressure', val_eq(a.pop('station_pressure', None),
                                            data(r, k, 'PRES').val(0)))
    text = a.pop('wmo_codes', {})
    c.oblige('texts', set(text) == {n.lower() for n in names if n.startswith('TX')})
    for n in text:
        c.oblige('text', val_eq(text[n], SStr(TXT(zi(r), zi(k), lit(n.upper())))))
    c.oblige('no other attributes', not a)


# ------------------------------------------------------------------------------------
# surface reports

REPORTS = {'plain': [['TMPF', 'DWPF']], 'regular and special': [['TEXT', 'TMPF'], ['SPCL']],
           'special': [['SPCL', 'TMPF'], ['SPCL']], 'none': [], 'bare': [[]]}
READER = {'standard': '_unpack_standard', 'ship': '_unpack_ship', 'climate': '_unpack_climate'}
PROPERTIES = {'station_number': 'STNM', 'longitude': 'SLON', 'latitude': 'SLAT',
              'elevation': 'SELV', 'state': 'STAT', 'country': 'COUN', 'priority': 'SPRI'}
SHEADER = HEADER + ('STD2', 'SPRI')


def reports(h, each):
    def make(interp, r, k):
        h.made[(ikey(r), ikey(k))] = 'reports'
        out = []
        for j, names in enumerate(each):
            t = report_time(r, k, j)
            d = {n: field(r, k, n) for n in SHEADER}
            d['DATE'], d['TIME'] = Half(datetime.date, t), Half(datetime.time, t)
            for n in names:
                d[n] = value(r, k, j, n)
            if interp.pure is not None:
                interp.pure[id(d)] = d
            out.append(d)
        return out
    return make


def report_time(r, k, j):
    return When(SInt.of(z3.Function('report time', I, I, I, I)(zi(r), zi(k), z3.IntVal(j))))


def value(r, k, j, n):
    if n in ('TEXT', 'SPCL'):
        return SStr(z3.Function('report text', I, I, I, SS)(zi(r), zi(k), z3.IntVal(j)))
    return SReal(VAL(zi(r), zi(k), lit(n), z3.IntVal(j)))


def sfj(focus, only=None, record='plain', special=None):
    def body(c):
        h = base(c, 'GempakSurface')
        h.called, h.made = [], {}
        h.me.surface_type = SStr.var('surface type')
        c.assume(sor(*[h.me.surface_type == t for t in READER]))
        q = 'gempakio.decode.gempak.GempakSurface.'
        make = reports(h, REPORTS[record])
        h.it = Interp(h.M, contracts={q + n: records(c, h, make, n) for n in READER.values()})
        h.record, h.special = record, False
        if focus is None:
            reqs, kw = [NO] * len(ARGS), {}
            h.special = c.choose([True, False])
            if h.special or c.choose(['given', 'default']) == 'given':
                kw['include_special'] = h.special
        else:
            reqs, kw = asked(c, h, focus, only)
        judge(c, h, reqs, lambda: h.it.call(h.it.getattr(h.me, 'sfjson'), (), kw), my_reports)
        if h.called:
            t = h.me.surface_type
            c.oblige('the reader of its kind', sand(len(h.called) == 1, *[
                simplies(t == n, h.called[0] == m) for n, m in READER.items()]))
    return body


def my_reports(c, h, got, e, _kind):
    r, k = e.DTNO, e.SNDNO
    want = [(j, names) for j, names in enumerate(REPORTS[h.record])
            if h.special or 'SPCL' not in names]
    c.oblige('its reports', len(got) == len(want))
    if len(got) != len(want):
        return
    c.cover('reports')
    for o, (j, names) in zip(got, want):
        pr = dict(o['properties'])
        c.oblige('time', val_eq(pr.pop('date_time', None), report_time(r, k, j)))
        c.oblige('station', val_eq(pr.pop('station_id', None),
                                   field(r, k, 'STID') + field(r, k, 'STD2')))
        for key, n in PROPERTIES.items():
            c.oblige(key, val_eq(pr.pop(key, None), field(r, k, n)))
        c.oblige('nothing else', not pr and set(o) == {'properties', 'values'})
        c.oblige('its values', set(o['values']) == {n.lower() for n in names})
        for n in names:
            c.oblige('value', val_eq(o['values'].get(n.lower()), value(r, k, j, n)))


def split(prefix, fn):
    out = {f'{prefix} {n}': fn(n, ('none', 'single')) for n in ARGS if n != 'date_time'}
    for f in (('none', 'single', 'text', 'texts'), EXTREMES[:2], EXTREMES[2:]):
        out[f'{prefix} date_time {" ".join(f)}'] = fn('date_time', f)
    out[f'{prefix} subset'] = fn('subset')
    return out


PARTS = split('snxarray', snx)
RECORD_PARTS = {f'snxarray record {n}': snx(None, None, n) for n in RECORDS}
SURFACE = split('sfjson', sfj)
SURFACE_RECORD = {f'sfjson record {n}': sfj(None, None, n) for n in REPORTS}


ALL = {**PARTS, **RECORD_PARTS, **SURFACE, **SURFACE_RECORD}


def run(name, deadline=None):
    c = Ctx(name, timeout_ms=20000, deadline=deadline, max_paths=60000)
    c.state_global = {}
    c.explore(ALL[name])
    return c


if __name__ == '__main__':
    import sys
    import time
    for pt in ALL:
        if len(sys.argv) > 1 and pt not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(pt)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(pt, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.values()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
